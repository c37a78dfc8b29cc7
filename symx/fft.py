"""numpy.fft facade.  The transform of a real array is kept as that array (a lazy
`Spectrum`): by the convolution theorem a product of transforms is the transform
of the circular convolution, so round trips through the frequency domain stay
exact rational arithmetic.  Lengths/axes that do not round-trip (a wrong output
length, say) fall back to explicit DFT matrices with float coefficients."""
import itertools
import numbers

import numpy as np

from . import sym as S
from . import fnp
from .sym import Sym, SymBool, Unsupported


def _acc(lst):
    r = lst[0]
    for x in lst[1:]:
        r = r + x
    return r


class Spectrum:
    __array_priority__ = 2000.0
    __array_ufunc__ = None

    isreal = False                       # .real of a spectrum: numpy holds real numbers

    def __init__(self, t, axes, half):
        self.t = t                       # raw object ndarray
        self.axes = tuple(axes)          # transformed axes; last one halved if half
        self.half = half

    # -- shape protocol
    @property
    def shape(self):
        s = list(self.t.shape)
        if self.half:
            a = self.axes[-1]
            s[a] = s[a] // 2 + 1
        return tuple(s)

    @property
    def ndim(self): return self.t.ndim
    @property
    def size(self): return int(np.prod(self.shape))
    @property
    def dtype(self): return np.dtype('complex128')
    def __len__(self): return self.shape[0]
    def copy(self): return Spectrum(self.t.copy(), self.axes, self.half)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, dt, **k):
        if np.dtype(dt).kind != 'c':
            raise Unsupported('cast of a spectrum')
        if np.dtype(dt).itemsize < 16:
            fnp.LOWP.append(np.dtype(dt))
        return self
    def __reduce__(self):
        return (_unp, (fnp.mk(self.t), self.axes, self.half))

    @property
    def lens(self): return tuple(self.t.shape[a] for a in self.axes)

    def _other(self, o):
        if isinstance(o, Spectrum):
            return o
        l = S.lift(o) if not isinstance(o, np.ndarray) or o.ndim == 0 else None
        if l is not None:
            return l
        if isinstance(o, complex):
            if o.imag == 0:
                return S.Sym.const(o.real)
        return None

    def _align(self, o):
        """Broadcast two spectra over their batch axes."""
        a, b = self, o
        nd = max(a.ndim, b.ndim)
        ta = a.t.reshape((1,) * (nd - a.ndim) + a.t.shape)
        tb = b.t.reshape((1,) * (nd - b.ndim) + b.t.shape)
        xa = tuple(x + nd - a.ndim for x in a.axes)
        xb = tuple(x + nd - b.ndim for x in b.axes)
        sa = list(a.shape)
        sb = list(b.shape)
        try:
            np.broadcast(np.empty(sa, dtype=bool), np.empty(sb, dtype=bool))
        except ValueError:
            raise ValueError('operands could not be broadcast together with shapes %s %s' % (tuple(sa), tuple(sb)))
        if xa != xb or a.lens != b.lens or a.half != b.half:
            return None
        return ta, tb, xa

    def __mul__(self, o):
        if isinstance(o, CArr):
            return NotImplemented
        p, o = o, self._other(o)
        if o is None:
            if self.isreal and isinstance(p, np.ndarray):
                return self._real_values('product') * p
            return CArr.of(self) * p
        if isinstance(o, Sym):
            return Spectrum(_map(lambda x: x * o, self.t), self.axes, self.half)._mark(self.isreal)
        al = self._align(o)
        if al is None:
            return CArr.of(self) * CArr.of(o)
        ta, tb, ax = al
        return Spectrum(circ(ta, tb, ax), ax, self.half)._mark(self.isreal and o.isreal)
    __rmul__ = __mul__

    def __imul__(self, o):
        r = self * o
        if r is NotImplemented:
            return r
        if r.shape != self.shape:
            raise ValueError('non-broadcastable output operand')
        return self._become(r)

    def _mark(self, flag):
        if flag:
            self.isreal = True
        return self

    def _become(self, r):
        self.__dict__.clear()
        self.__class__ = r.__class__
        self.__dict__.update(r.__dict__)
        return self

    def _addsub(self, o, f):
        if isinstance(o, CArr):
            return NotImplemented
        p, o = o, self._other(o)
        if o is None:
            if self.isreal and isinstance(p, np.ndarray):
                return f(self._real_values('sum'), p)
            return f(CArr.of(self), CArr.of(p))
        if isinstance(o, Sym):
            # constant spectrum = scaled impulse
            d = np.empty(self.t.shape, dtype=object)
            d[...] = S.ZERO()
            ix = [slice(None)] * d.ndim
            for a in self.axes:
                ix[a] = 0
            d[tuple(ix)] = o
            o = Spectrum(d, self.axes, self.half)._mark(True)
        al = self._align(o)
        if al is None:
            return f(CArr.of(self), CArr.of(o))
        ta, tb, ax = al
        return Spectrum(f(ta, tb), ax, self.half)._mark(self.isreal and o.isreal)

    def __add__(self, o): return self._addsub(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._addsub(o, lambda a, b: a - b)
    def __rsub__(self, o): return (-self) + o
    def __neg__(self): return self * -1

    def __iadd__(self, o): return self._become(self + o)
    def __isub__(self, o): return self._become(self - o)
    def __itruediv__(self, o): return self._become(self / o)

    def __truediv__(self, o):
        if isinstance(o, CArr):
            return NotImplemented
        p, o = o, self._other(o)
        if isinstance(o, Sym):
            return self * (S.ONE() / o)
        if self.isreal and (isinstance(p, np.ndarray) or getattr(p, 'isreal', False)):
            return self._real_values('quotient') / (p._real_values('quotient') if isinstance(p, Spectrum) else p)
        return CArr.of(self) / CArr.of(p)
    def __rtruediv__(self, o):
        if self.isreal and not isinstance(o, (Spectrum, CArr, complex)):
            return o / self._real_values('quotient')
        return CArr.of(o) / CArr.of(self)

    def __pow__(self, n):
        if n == 2:
            return self * self
        return CArr.of(self) ** n

    def _real_values(self, what):
        if not self.isreal:
            raise Unsupported('%s of a complex spectrum' % what)
        return fnp.mk(CArr.of(self).re)
    def __lt__(self, o): return self._real_values('comparison') < o
    def __le__(self, o): return self._real_values('comparison') <= o
    def __gt__(self, o): return self._real_values('comparison') > o
    def __ge__(self, o): return self._real_values('comparison') >= o
    def __eq__(self, o): return CArr.of(self) == o
    def __ne__(self, o): return CArr.of(self) != o
    __hash__ = None
    def __matmul__(self, o): return self._real_values('product') @ o
    def __getattr__(self, k):
        if k.startswith('__') or not hasattr(np.ndarray, k):
            raise AttributeError(k)
        if self.isreal and k in ('min', 'max', 'sum', 'mean', 'dot', 'clip', 'any', 'all', 'argmin', 'argmax', 'std',
                                 'var', 'prod', 'nonzero', 'tolist', 'flatten', 'tobytes', 'round'):
            return getattr(self._real_values(k), k)
        if k in ('sum', 'flatten', 'mean', 'tobytes'):
            return getattr(CArr.of(self), k)
        raise Unsupported('%s of a spectrum' % k)

    def _rev(self):
        t = self.t
        for a in self.axes:
            n = t.shape[a]
            t = np.take(t, [(-i) % n for i in range(n)], axis=a)
        return t

    def conj(self): return Spectrum(self._rev(), self.axes, self.half)
    conjugate = conj

    @property
    def real(self):
        h = S.Sym.const(1) / 2
        r = Spectrum(_map(lambda x: x * h, self.t + self._rev()), self.axes, self.half)
        r.isreal = True
        return r

    @property
    def imag(self): return fnp.mk(CArr.of(self).im)
    def __abs__(self): return abs(CArr.of(self))
    @property
    def T(self):
        n = self.ndim
        if n == 1:
            return self
        return Spectrum(self.t.T, tuple(n - 1 - a for a in self.axes), self.half)
    def __array__(self, *a): raise Unsupported('array conversion of a spectrum')
    def __iter__(self): return iter([self[i] for i in range(len(self))])
    def ravel(self, *a): return self.reshape(-1)
    def reshape(self, *s):
        if self.ndim == 1 and s in ((-1,), (self.shape[0],)):
            return self
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if self.ndim == 1 and len(s) == 2:
            if s[1] == 1:
                return self[:, None]
            if s[0] == 1:
                return self[None, :]
        return CArr.of(self).reshape(*s)

    def __getitem__(self, idx):
        r = self._lazy_item(idx if isinstance(idx, tuple) else (idx,))
        if r is None:
            r = self._real_values('item')[idx] if self.isreal else CArr.of(self)[idx]
        elif self.isreal:
            r.isreal = True
        return r

    def _lazy_item(self, idx):
        if any(not (i is None or i is Ellipsis or isinstance(i, (int, np.integer, slice))) for i in idx):
            return None
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if Ellipsis in [i for i in idx if i is None or i is Ellipsis]:
            k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
            idx = idx[:k] + (slice(None),) * (self.ndim - n) + idx[k + 1:]
        else:
            idx = idx + (slice(None),) * (self.ndim - n)
        src = 0
        dst = 0
        newaxes = {}
        for i in idx:
            if i is None:
                dst += 1
                continue
            if src in self.axes:
                if i != slice(None):
                    return None
                newaxes[src] = dst
            if isinstance(i, (int, np.integer)):
                src += 1
            elif isinstance(i, slice):
                src += 1
                dst += 1
        return Spectrum(self.t[idx], tuple(newaxes[a] for a in self.axes), self.half)

    def __setitem__(self, idx, v):
        if self.isreal:
            raise Unsupported('assignment inside the real part of a spectrum')
        self._become(CArr.of(self))
        self[idx] = v


def _unp(t, axes, half):
    return Spectrum(fnp._raw(t), axes, half)


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        of[i] = f(x)
    return of.reshape(a.shape)


def spec_ufunc(name, args, out):
    if name == 'multiply':
        r = args[0] * args[1]
    elif name == 'add':
        r = args[0] + args[1]
    elif name == 'subtract':
        r = args[0] - args[1]
    elif name in ('divide', 'true_divide'):
        r = args[0] / args[1]
    elif name in ('conjugate',):
        r = args[0].conj()
    elif name == 'negative':
        r = -args[0]
    elif name in ('absolute', 'fabs'):
        r = abs(args[0])
    elif name == 'square':
        r = args[0] * args[0]
    elif name == 'power':
        r = args[0] ** args[1]
    elif all(not isinstance(a, (Spectrum, CArr)) or getattr(a, 'isreal', False) for a in args):
        r = getattr(np, name)(*[a._real_values(name) if isinstance(a, Spectrum) else a for a in args])
    elif name in ('equal', 'not_equal'):
        r = CArr.of(args[0]) == args[1] if name == 'equal' else CArr.of(args[0]) != args[1]
    elif name in ('isnan', 'isinf', 'isfinite'):
        r = fnp.wrap(np.full(args[0].shape, name == 'isfinite'))
    else:
        raise Unsupported('numpy.%s of a spectrum' % name)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if not isinstance(out, (Spectrum, CArr)):
            out[...] = r
            return out
        return out._become(r)
    return r


def _zero(x):
    return isinstance(x, Sym) and x.c is not None and x.c == 0


def circ(a, b, axes):
    """Circular convolution of object arrays along axes, broadcasting the rest."""
    nd = a.ndim
    bat = [i for i in range(nd) if i not in axes]
    perm = bat + list(axes)
    A = a.transpose(perm)
    B = b.transpose(perm)
    nb = len(bat)
    bs = np.broadcast(np.empty(A.shape[:nb], dtype=bool), np.empty(B.shape[:nb], dtype=bool)).shape if nb else ()
    N = A.shape[nb:]
    A = np.broadcast_to(A, bs + N)
    B = np.broadcast_to(B, bs + N)
    out = np.empty(bs + N, dtype=object)
    idxs = list(np.ndindex(*N))
    for bi in np.ndindex(*bs):
        x, y = A[bi], B[bi]
        xs = [(i, x[i]) for i in idxs if not _zero(x[i])]
        ys = [(i, y[i]) for i in idxs if not _zero(y[i])]
        acc = {}
        for i, u in xs:
            for j, v in ys:
                k = tuple((p + q) % n for p, q, n in zip(i, j, N))
                acc.setdefault(k, []).append(u * v)
        for k in idxs:
            l = acc.get(k)
            out[bi + k] = _acc(l) if l else S.ZERO()
    inv = np.argsort(perm)
    return out.transpose(inv)


def _in(a):
    a = fnp._tof(a)
    return fnp._raw(a)


def _resize(t, axis, n):
    m = t.shape[axis]
    n = int(n)
    if n < 1:
        raise ValueError('Invalid number of FFT data points (%d) specified.' % n)
    if n == m:
        return t.copy()
    if n < m:
        ix = [slice(None)] * t.ndim
        ix[axis] = slice(0, n)
        return t[tuple(ix)].copy()
    shp = list(t.shape)
    shp[axis] = n
    out = np.empty(shp, dtype=object)
    out[...] = S.ZERO()
    ix = [slice(None)] * t.ndim
    ix[axis] = slice(0, m)
    out[tuple(ix)] = t
    return out


def _chknorm(norm):
    if norm not in (None, 'backward', 'ortho', 'forward'):
        raise ValueError('Invalid norm value %r; should be "backward", "ortho" or "forward".' % (norm,))


def _scaled(r, norm, n, inverse):
    if norm in (None, 'backward'):
        return r
    n = S.Sym.const(int(n))
    f = S.sqrt(n) if norm == 'ortho' else n
    return r * f if inverse else r * (S.ONE() / f)


def _fwd(a, s, axes, half, norm=None):
    _chknorm(norm)
    old = ()
    if isinstance(a, CArr) or (isinstance(a, Spectrum) and a.isreal):
        if half and not (isinstance(a, Spectrum) and a.isreal):
            raise TypeError('ufunc rfft does not support complex input')
        return _cfwd(CArr.of(a), s, axes, half, norm)
    if isinstance(a, Spectrum):
        if half:
            raise TypeError('ufunc rfft does not support complex input')
        nd = a.ndim
        ax = [int(x) % nd for x in (axes if axes is not None else range(nd))]
        if set(ax) & set(a.axes):
            return _cfwd(CArr.of(a), s, axes, half, norm)
        old, half = a.axes, a.half
        t = a.t
    else:
        t = _in(a)
    nd = t.ndim
    if axes is None:
        axes = list(range(nd)) if s is None else list(range(nd - len(s), nd))
    axes = [int(x) % nd for x in axes]
    if s is not None:
        if len(s) != len(axes):
            raise ValueError('Shape and axes have different lengths.')
        for x, n in zip(axes, s):
            t = _resize(t, x, n)
    else:
        t = t.copy()
    if 0 in [t.shape[x] for x in axes]:
        raise ValueError('Invalid number of FFT data points (0) specified.')
    return _scaled(Spectrum(t, tuple(axes) + tuple(old), half), norm, np.prod([t.shape[x] for x in axes]), False)


def rfft(a, n=None, axis=-1, norm=None, **k):
    return _fwd(a, None if n is None else (n,), (axis,), True, norm)


def fft(a, n=None, axis=-1, norm=None, **k):
    return _fwd(a, None if n is None else (n,), (axis,), False, norm)


def rfftn(a, s=None, axes=None, norm=None, **k):
    return _fwd(a, s, axes, True, norm)


def rfft2(a, s=None, axes=(-2, -1), norm=None, **k): return rfftn(a, s, axes, norm)


def fftn(a, s=None, axes=None, norm=None, **k):
    return _fwd(a, s, axes, False, norm)


def fft2(a, s=None, axes=(-2, -1), norm=None, **k): return fftn(a, s, axes, norm)


def _linmap(t, axis, M):
    """apply float matrix M (out, in) along axis"""
    out_n, in_n = M.shape
    T = np.moveaxis(t, axis, -1)
    res = np.empty(T.shape[:-1] + (out_n,), dtype=object)
    coef = [[None if abs(c) < 1e-12 else S.Sym.const(_snap(c)) for c in row] for row in M]
    for ix in np.ndindex(*T.shape[:-1]):
        v = T[ix]
        for i in range(out_n):
            acc = S.ZERO()
            for j in range(in_n):
                if coef[i][j] is not None and not _zero(v[j]):
                    acc = acc + v[j] * coef[i][j]
            res[ix + (i,)] = acc
    return np.moveaxis(res, -1, axis)


def _snap(c):
    from fractions import Fraction
    f = Fraction(c).limit_denominator(64)
    return f if abs(float(f) - c) < 1e-11 else Fraction(c).limit_denominator(10 ** 9)


def _inv(spec, s, axes, half, norm=None):
    _chknorm(norm)
    if not isinstance(spec, Spectrum):
        return _cinv(CArr.of(spec), s, axes, half, norm)
    nd = spec.ndim
    if axes is None:
        axes = list(range(nd)) if s is None else list(range(nd - len(s), nd))
    axes = [int(x) % nd for x in axes]
    sizes = [spec.shape[x] for x in axes] if s is None else [int(n) for n in s]
    if not half and len(sizes) == len(axes) and set(axes) < set(spec.axes) and not (spec.half and spec.axes[-1] in axes) \
            and all(spec.t.shape[x] == n for x, n in zip(axes, sizes)):
        # inverse over some of the transformed axes: the others stay transformed
        return _scaled(Spectrum(spec.t.copy(), tuple(x for x in spec.axes if x not in axes), spec.half),
                       norm, np.prod(sizes), True)
    if sorted(axes) != sorted(spec.axes) or half != spec.half or (half and axes[-1] != spec.axes[-1]):
        return _cinv(CArr.of(spec), s, axes, half, norm)
    shp = spec.shape
    if s is None:
        s = [shp[x] for x in axes]
        if half:
            s[-1] = 2 * (shp[axes[-1]] - 1)
    if len(s) != len(axes):
        raise ValueError('Shape and axes have different lengths.')
    t = spec.t
    for pos, (x, n) in enumerate(zip(axes, s)):
        n = int(n)
        if n < 1:
            raise ValueError('Invalid number of FFT data points (%d) specified.' % n)
        N = t.shape[x]
        if n == N:
            continue
        I = np.eye(N)
        if half and pos == len(axes) - 1:
            M = np.fft.irfft(np.fft.rfft(I, axis=0), n=n, axis=0)
        else:
            Mc = np.fft.ifft(np.fft.fft(I, axis=0), n=n, axis=0)
            if np.abs(Mc.imag).max() > 1e-9:
                return _cinv(CArr.of(spec), s, axes, half, norm)
            M = Mc.real
        t = _linmap(t, x, M)
    return _scaled(fnp.mk(t.copy()), norm, np.prod(s), True)


def irfft(a, n=None, axis=-1, norm=None, **k):
    return _inv(a, None if n is None else (n,), (axis,), True, norm)


def ifft(a, n=None, axis=-1, norm=None, **k):
    return _inv(a, None if n is None else (n,), (axis,), False, norm)


def irfftn(a, s=None, axes=None, norm=None, **k):
    return _inv(a, s, axes, True, norm)


def irfft2(a, s=None, axes=(-2, -1), norm=None, **k): return irfftn(a, s, axes, norm)


def ifftn(a, s=None, axes=None, norm=None, **k):
    return _inv(a, s, axes, False, norm)


def ifft2(a, s=None, axes=(-2, -1), norm=None, **k): return ifftn(a, s, axes, norm)


def next_fast_len(target, real=False):
    import scipy.fft
    return scipy.fft.next_fast_len(int(target), bool(real))


# ------------------------------------------------- explicit complex arrays
APPROX = [False]      # a trigonometric constant was replaced by a nearby rational


class CArr:
    """A complex array as a pair of real arrays: what a spectrum becomes once the
    code looks inside it (indexing, modulus, division, elementwise functions)."""
    __array_priority__ = 2100.0
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, CArr):
            return x
        if isinstance(x, Spectrum):
            re, im = x.t, None
            if max(x.lens) > 64:
                raise Unsupported('looking inside a long spectrum')
            order = ([x.axes[-1]] if x.half else []) + [a for a in x.axes if not (x.half and a == x.axes[-1])]
            im = np.empty(re.shape, dtype=object)
            im[...] = S.ZERO()
            for a in order:
                n = re.shape[a]
                M = np.fft.fft(np.eye(n), axis=0)
                if x.half and a == x.axes[-1]:
                    M = M[:n // 2 + 1]
                re, im = _clin(re, im, a, M)
            return CArr(re, im)
        if isinstance(x, complex):
            return CArr(np.array(S.Sym.const(S.to_rat(x.real)), dtype=object), np.array(S.Sym.const(S.to_rat(x.imag)), dtype=object))
        if isinstance(x, np.ndarray) and fnp._cdt(x).kind == 'c':
            return CArr(fnp._raw(fnp._tof(fnp.wrap(x.real.copy()))), fnp._raw(fnp._tof(fnp.wrap(x.imag.copy()))))
        r = fnp._raw(fnp._tof(fnp.asarray(x)))
        im = np.empty(r.shape, dtype=object)
        im[...] = S.ZERO()
        return CArr(r, im)

    shape = property(lambda self: self.re.shape)
    ndim = property(lambda self: self.re.ndim)
    size = property(lambda self: self.re.size)
    dtype = property(lambda self: np.dtype('complex128'))
    nbytes = property(lambda self: 16 * self.re.size)
    def __len__(self): return len(self.re)
    def __iter__(self): return iter([self[i] for i in range(len(self))])
    def _become(self, r):
        self.__dict__.clear()
        self.__class__ = r.__class__
        self.__dict__.update(r.__dict__)
        return self
    def copy(self): return CArr(self.re.copy(), self.im.copy())
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def __reduce__(self): return (_unpc, (fnp.mk(self.re), fnp.mk(self.im)))
    def astype(self, dt, **k):
        if np.dtype(dt).kind != 'c':
            raise Unsupported('cast of a spectrum')
        return self.copy()

    def _bin(self, o, f):
        o = CArr.of(o)
        return CArr(*[np.asarray(x, dtype=object) for x in f(self.re, self.im, o.re, o.im)])
    def __add__(self, o): return self._bin(o, lambda a, b, c, d: (a + c, b + d))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b, c, d: (a - c, b - d))
    def __rsub__(self, o): return CArr.of(o) - self
    def __mul__(self, o): return self._bin(o, lambda a, b, c, d: (a * c - b * d, a * d + b * c))
    __rmul__ = __mul__
    def __neg__(self): return CArr(-self.re, -self.im)
    def __truediv__(self, o):
        o = CArr.of(o)
        if all(_zero(x) for x in o.im.reshape(-1)):
            div = np.frompyfunc(S.div, 2, 1)
            return CArr(*[np.asarray(div(x, o.re), dtype=object) for x in (self.re, self.im)])
        n = o.re * o.re + o.im * o.im
        return (self * o.conj()) / fnp.mk(np.asarray(n, dtype=object))
    def __rtruediv__(self, o): return CArr.of(o) / self
    def __pow__(self, n):
        if not isinstance(n, (int, np.integer)) or not 0 < n <= 4:
            raise Unsupported('spectral power')
        r = self
        for _ in range(int(n) - 1):
            r = r * self
        return r
    def __iadd__(self, o): return self._become(self + o)
    def __isub__(self, o): return self._become(self - o)
    def __imul__(self, o): return self._become(self * o)
    def __itruediv__(self, o): return self._become(self / o)
    def __eq__(self, o): return self._cmp(o, True)
    def __ne__(self, o): return self._cmp(o, False)
    __hash__ = None
    def _cmp(self, o, eq):
        d = self - o
        r = np.frompyfunc(lambda a, b: S.band(a == 0, b == 0) if eq else S.bor(a != 0, b != 0), 2, 1)(d.re, d.im)
        return fnp.wrap(np.asarray(r, dtype=object))
    def conj(self): return CArr(self.re.copy(), -self.im)
    conjugate = conj
    real = property(lambda self: fnp.mk(self.re))
    imag = property(lambda self: fnp.mk(self.im))
    def __abs__(self):
        if all(_zero(x) for x in self.im.reshape(-1)):
            return np.absolute(fnp.mk(self.re))
        f = np.frompyfunc(lambda a, b: S.sabs(a) if _zero(b) else S.sabs(b) if _zero(a) else S.Sym.mk('sqrt', a * a + b * b), 2, 1)
        return fnp.mk(np.asarray(f(self.re, self.im), dtype=object))
    T = property(lambda self: CArr(self.re.T, self.im.T))
    def transpose(self, *a): return CArr(self.re.transpose(*a), self.im.transpose(*a))
    def reshape(self, *s, **k): return CArr(self.re.reshape(*s), self.im.reshape(*s))
    def ravel(self, *a): return self.reshape(-1)
    flatten = ravel
    def sum(self, axis=None, **k):
        return CArr(*[np.asarray(fnp._raw(fnp._sum(fnp.mk(x), axis)), dtype=object) for x in (self.re, self.im)])
    def mean(self, axis=None, **k):
        return self.sum(axis) * (S.ONE() / (self.size if axis is None else self.shape[axis]))
    def tobytes(self, *a): return fnp.mk(self.re).tobytes() + b'|' + fnp.mk(self.im).tobytes()
    def __getitem__(self, idx):
        r, i = fnp.mk(self.re)[idx], fnp.mk(self.im)[idx]
        return CArr(*[fnp._raw(x) if isinstance(x, np.ndarray) else np.array(x, dtype=object) for x in (r, i)])
    def __setitem__(self, idx, v):
        v = CArr.of(v)
        for dst, src in ((self.re, v.re), (self.im, v.im)):
            fnp.mk(dst)[idx] = fnp.mk(src) if src.ndim else src[()]
    def __array__(self, *a): raise Unsupported('array conversion of a complex array')
    def __repr__(self): return 'CArr(%s)' % (self.shape,)
    def __getattr__(self, k):
        if k.startswith('__') or not hasattr(np.ndarray, k):
            raise AttributeError(k)
        raise Unsupported('%s of a complex array' % k)


def _unpc(re, im): return CArr(fnp._raw(re), fnp._raw(im))


def _clin(re, im, axis, M):
    """apply the complex matrix M along an axis of re + i im"""
    def app(t, m):
        return None if np.abs(m).max() < 1e-12 else _linmap(t, axis, m)
    for c in np.unique(np.round(np.concatenate([M.real.reshape(-1), M.imag.reshape(-1)]), 13)):
        if abs(c) > 1e-12 and abs(float(_snap(c)) * 64 - round(float(_snap(c)) * 64)) > 1e-9:
            APPROX[0] = True

    def comb(a, b, sign):
        if a is None and b is None:
            return None
        if b is None:
            return a
        if sign < 0:
            b = -b
        return b if a is None else a + b
    zero = all(_zero(x) for x in im.reshape(-1))
    r = comb(app(re, M.real), None if zero else app(im, M.imag), -1)
    i = comb(None if zero else app(im, M.real), app(re, M.imag), 1)
    shp = list(re.shape)
    shp[axis] = M.shape[0]

    def z():
        o = np.empty(shp, dtype=object)
        o[...] = S.ZERO()
        return o
    return (z() if r is None else r), (z() if i is None else i)


def _caxes(nd, s, axes):
    if axes is None:
        axes = list(range(nd)) if s is None else list(range(nd - len(s), nd))
    return [int(x) % nd for x in axes]


def _clen(n):
    n = int(n)
    if n < 1:
        raise ValueError('Invalid number of FFT data points (%d) specified.' % n)
    if n > 64:
        raise Unsupported('long explicit transform')
    return n


def _cfwd(c, s, axes, half, norm):
    axes = _caxes(c.ndim, s, axes)
    s = [c.shape[x] for x in axes] if s is None else s
    re, im = c.re, c.im
    for pos in reversed(range(len(axes))):
        x, n = axes[pos], _clen(s[pos])
        M = np.fft.fft(np.eye(re.shape[x]), n=n, axis=0)
        if half and pos == len(axes) - 1:
            M = M[:n // 2 + 1]
        re, im = _clin(re, im, x, M)
    return _scaled(CArr(re, im), norm, np.prod(s), False)


def _cinv(c, s, axes, half, norm):
    axes = _caxes(c.ndim, s, axes)
    if s is None:
        s = [c.shape[x] for x in axes]
        if half:
            s[-1] = 2 * (s[-1] - 1)
    re, im = c.re, c.im
    for pos, x in enumerate(axes):
        n, m = _clen(s[pos]), re.shape[x]
        if m > 64:
            raise Unsupported('long explicit transform')
        if half and pos == len(axes) - 1:
            R, J = np.fft.irfft(np.eye(m), n=n, axis=0), np.fft.irfft(1j * np.eye(m), n=n, axis=0)
            APPROX[0] = True
            out = _linmap(re, x, R)
            if not all(_zero(v) for v in im.reshape(-1)):
                out = out + _linmap(im, x, J)
            return _scaled(fnp.mk(out.copy()), norm, np.prod(s), True)
        re, im = _clin(re, im, x, np.fft.ifft(np.eye(m), n=n, axis=0))
    return _scaled(CArr(re, im), norm, np.prod(s), True)


def hfft(a, n=None, axis=-1, norm=None, **k):
    a = CArr.of(a)
    n = 2 * (a.shape[axis] - 1) if n is None else n
    return _inv(a.conj(), (n,), (axis,), True, norm) * (int(n) if norm is None else 1)


def fftshift(x, axes=None):
    return fnp.np_roll(x, axes, 1)


def ifftshift(x, axes=None):
    return fnp.np_roll(x, axes, -1)
