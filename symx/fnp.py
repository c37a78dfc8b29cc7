"""numpy facade over symbolic reals.

Every floating point array is an object array of `Sym` values wrapped in `VArr`
(an ndarray subclass that reports dtype float64); integer and bool arrays with
concrete contents stay native.  Functions not listed here are the real numpy
ones (shape manipulation works unchanged on object arrays)."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, SymBool, Unsupported, lift, ite, smin, smax

_cdt = np.ndarray.dtype.__get__
F64 = np.dtype('float64')
I64 = np.dtype('int64')
BOOL = np.dtype('bool')
OBJ = np.dtype('object')


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and not x.isint) or isinstance(x, np.floating)

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, Sym))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class symfloat(float, metaclass=_FMeta):
    """Stand-in for the builtin float inside the code under analysis."""
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return lift(x)
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            return symfloat(x.reshape(-1)[0])
        v = builtins.float(x)
        if not math.isfinite(v):
            return v
        return S.Sym.const(v)


LOWP = []        # reduced precision asked for


def ndt(dtype):
    """Normalised dtype request: None, 'f', or a native dtype."""
    if dtype is None:
        return None
    if dtype is symfloat or dtype is builtins.float:
        return 'f'
    if dtype is builtins.int:
        return I64
    if dtype is builtins.bool:
        return BOOL
    if dtype is builtins.object:
        return OBJ
    d = np.dtype(dtype)
    if d.kind in 'fc' and d.itemsize < (8 if d.kind == 'f' else 16):
        LOWP.append(d)       # reals do not tell: see harness.decide
    if d.kind == 'f':
        return 'f'
    if d.kind == 'c':
        raise Unsupported('complex dtype')
    return d


def _isobj(a):
    return _cdt(a).kind == 'O'


def _conv_float_arr(a):
    """native float array -> object array of Sym constants"""
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1) if out.size else out
    if out.size:
        flat = a.reshape(-1)
        for i in range(flat.size):
            of[i] = liftx(flat[i])
        out = of.reshape(a.shape)
    return out


def liftx(x):
    r = lift(x)
    if r is None:
        raise Unsupported('cannot lift %s' % type(x).__name__)
    return r


def _numeric_obj(a):
    """Is this object array made of symbolic numbers/bools?"""
    for x in a.reshape(-1)[:1]:
        if isinstance(x, (Sym, SymBool, int, float, Fraction, np.number)):
            return True
        return False
    return True


class VArr(np.ndarray):
    """ndarray view of symbolic reals ('f'), integers ('i') or booleans ('b')."""

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', None)

    # ---- reported dtype
    @property
    def dtype(self):
        d = _cdt(self)
        if d.kind == 'O':
            k = self._kind
            if k == 'b':
                return BOOL
            if k == 'i':
                return I64
            if k == 'O':
                return OBJ
            return F64
        return d

    @property
    def itemsize(self): return 8
    @property
    def nbytes(self): return 8 * self.size
    @property
    def real(self): return self
    @property
    def imag(self): return zeros_like(self)
    def conj(self): return self
    conjugate = conj

    @property
    def A(self): raise AttributeError('A')

    # ---- indexing
    def __getitem__(self, idx):
        idx = _fixidx(idx)
        r = np.ndarray.__getitem__(self, idx)
        if type(r) is np.ndarray:
            r = r.view(VArr)
        return r

    def __setitem__(self, idx, v):
        tgt_obj = _isobj(self)
        if tgt_obj and isinstance(idx, VArr) and idx._kind == 'b' and _isobj(idx):
            # symbolic mask: element-wise conditional assignment when the value
            # is a scalar, else decide the mask
            vv = v
            if isinstance(vv, np.ndarray) and vv.size == 1:
                vv = vv.reshape(-1)[0]
            s = lift(vv) if not isinstance(vv, np.ndarray) else None
            if s is not None and idx.shape == self.shape:
                flat_i = list(np.ndarray.reshape(idx.view(np.ndarray), -1))
                vals = list(np.ndarray.flatten(self.view(np.ndarray)))
                out = np.empty(self.size, dtype=object)
                for i, (c, o) in enumerate(zip(flat_i, vals)):
                    out[i] = ite(c, s, o)
                np.ndarray.__setitem__(self, Ellipsis, out.reshape(self.shape))
                return
        idx = _fixidx(idx)
        if tgt_obj and self._kind != 'O':
            v = _toobj(v)
            if self._kind == 'i':
                v = _elementwise(lambda x: x if isinstance(x, int) else S.trunc(liftx(x)), v)
        elif not tgt_obj:
            if isinstance(v, Sym):
                v = int(v) if _cdt(self).kind in 'iu' else bool(v)
            elif isinstance(v, SymBool):
                v = bool(v)
            elif isinstance(v, np.ndarray) and _isobj(v):
                if _cdt(self).kind in 'iu':
                    v = _native(v, int)
                elif _cdt(self).kind == 'b':
                    v = _native(v, bool)
        np.ndarray.__setitem__(self, idx, v)

    def __contains__(self, x):
        return bool(np_any(self == x))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __float__(self):
        raise Unsupported('float() of array')

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.reshape(self, -1).view(np.ndarray)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __eq__(self, o): return _cmpop(np.equal, self, o)
    def __ne__(self, o): return _cmpop(np.not_equal, self, o)
    def __lt__(self, o): return np.less(self, o)
    def __le__(self, o): return np.less_equal(self, o)
    def __gt__(self, o): return np.greater(self, o)
    def __ge__(self, o): return np.greater_equal(self, o)
    __hash__ = None

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return _ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = _FUNCS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        args = _strip(args)
        kwargs = _strip(kwargs)
        return wrap(func(*args, **kwargs))

    # ---- methods
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        d = ndt(dtype)
        src = self.dtype
        if d == 'f':
            tgt = F64
        else:
            tgt = d
        if not np.can_cast(src, tgt, casting=casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule '%s'" % (src, tgt, casting))
        if d == 'f':
            if isinstance(dtype, builtins.type) and issubclass(dtype, np.floating) or isinstance(dtype, (str, np.dtype)):
                if np.dtype(dtype).itemsize < 8:
                    return _tof(self) * (1 + 2.0 ** -25)      # rounding of that size is allowed there
            if not copy and _isobj(self) and self._kind == 'f':
                return self
            return _tof(self)
        if d == OBJ:
            r = np.array(self, dtype=object, copy=True)
            return r
        if d.kind in 'iu':
            if _isobj(self):
                r = _elementwise(lambda x: S.trunc(liftx(x)), self).view(VArr)
                if all(x.c is not None for x in r.view(np.ndarray).reshape(-1)):
                    return _native(r, int).astype(d).view(VArr)
                r._kind = 'i'
                return r
            return np.ndarray.astype(self, d).view(VArr)
        if d.kind == 'b':
            if _isobj(self):
                r = _elementwise(lambda x: x if isinstance(x, (bool, SymBool)) else liftx(x) != 0, self).view(VArr)
                r._kind = 'b'
                return _settle(r)
            return np.ndarray.astype(self, d)
        raise Unsupported('astype %s' % d)

    def copy(self, order='C'):
        r = np.ndarray.copy(self, order)
        return r

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _redx(self, smin, axis, keepdims, 'minimum')
    def max(self, axis=None, out=None, keepdims=False, **k):
        return _redx(self, smax, axis, keepdims, 'maximum')
    def ptp(self, axis=None, **k): return self.max(axis=axis) - self.min(axis=axis)

    def argmin(self, axis=None, out=None): return _argx(self, axis, lambda a, b: b < a)
    def argmax(self, axis=None, out=None): return _argx(self, axis, lambda a, b: b > a)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _sum(self, axis, keepdims)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if _isobj(self):
            r = np.multiply.reduce(_raw(_tof(self)).reshape(-1) if axis is None else _raw(_tof(self)),
                                   axis=0 if axis is None else axis, keepdims=keepdims, initial=S.ONE())
            return wrap(r)
        return wrap(np.ndarray.prod(self.view(np.ndarray), axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else _axlen(self, axis)
        s = _sum(_tof(self), axis, keepdims)
        if n == 0:
            return S.NAN
        return s / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        n = self.size if axis is None else _axlen(self, axis)
        a = _tof(self)
        m = a.mean(axis=axis, keepdims=True)
        d = a - m
        s = _sum(d * d, axis, keepdims)
        if n - ddof == 0:
            return S.NAN
        return s / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return npsqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def any(self, axis=None, out=None, keepdims=False, **k): return np_any(self, axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k): return np_all(self, axis, keepdims=keepdims)

    def dot(self, o, out=None): return _setout(dot(self, o), out)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __imatmul__(self, o): return matmul(self, o)

    def cumsum(self, axis=None, **k): return wrap(np.add.accumulate(_raw(self).reshape(-1) if axis is None else _raw(self), axis=axis or 0))
    def cumprod(self, axis=None, **k): return wrap(np.multiply.accumulate(_raw(self).reshape(-1) if axis is None else _raw(self), axis=axis or 0))
    def round(self, decimals=0, out=None): return _elementwise(lambda x: round(liftx(x), decimals), self)
    def clip(self, min=None, max=None, out=None, **k): return _setout(clip(self, min, max), out)
    def sort(self, axis=-1, **k):
        self[...] = np_sort(self, axis)
    def argsort(self, axis=-1, **k): return argsort(self, axis)
    def nonzero(self): return nonzero(self)
    def searchsorted(self, v, side='left', sorter=None): return searchsorted(self, v, side)
    def fill(self, v):
        self[...] = v
    def item(self, *a):
        r = np.ndarray.item(self.view(np.ndarray), *a)
        return liftx(r) if _isobj(self) else r
    def tolist(self):
        return self.view(np.ndarray).tolist()
    def trace(self, *a, **k): return wrap(np.trace(_raw(self)))
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if a and a[0] is symndarray:
            return self
        return np.ndarray.view(self, *a, **k)
    def tobytes(self, *a):
        # equal contents give equal bytes; the text is the normal form of each entry
        if not _isobj(self):
            return np.ndarray.tobytes(self.view(np.ndarray))
        return repr((self.shape, [_ident(x) for x in self.view(np.ndarray).reshape(-1)])).encode()
    def __reduce__(self):
        return (_unpickle_arr, (self.shape, self._kind, _cdt(self).str if not _isobj(self) else 'O',
                                list(self.view(np.ndarray).reshape(-1))))
    def __deepcopy__(self, memo): return self.copy()
    def __repr__(self): return 'VArr(%s, %s)' % (self.shape, [str(x) for x in self.view(np.ndarray).reshape(-1)[:6]])
    def __str__(self): return repr(self)
    def __format__(self, spec): return repr(self)


def _ident(x):
    if isinstance(x, SymBool):
        return ('b', x.id)
    x = liftx(x)
    if x is S.NAN or isinstance(x, S._Inf):
        return str(x)
    if x.c is not None:
        return str(x.c)
    return S.p_key(x.poly)


def _unpickle_arr(shape, kind, dt, els):
    r = np.empty(len(els), dtype=object if dt == 'O' else dt)
    for i, e in enumerate(els):
        r[i] = e
    r = r.reshape(shape).view(VArr)
    r._kind = kind
    return r


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)


class symndarray(np.ndarray, metaclass=_NDMeta):
    """Stands for numpy.ndarray inside the analysed code."""
    def __new__(cls, shape, dtype=None, **k):
        return empty(shape, dtype or 'f8')


def _setout(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def _raw(a):
    if isinstance(a, np.ndarray):
        return np.ndarray.view(a, np.ndarray)
    return a


def _strip(x):
    if isinstance(x, VArr):
        return _raw(x)
    if isinstance(x, (list, tuple)):
        ys = [_strip(y) for y in x]
        ys = [y[()] if isinstance(y, np.ndarray) and y.ndim == 0 else y for y in ys]
        return ys if isinstance(x, list) else tuple(ys)
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    if x is symfloat:
        return builtins.float
    if x is symndarray:
        return np.ndarray
    return x


def wrap(r):
    if isinstance(r, VArr):
        return r
    if isinstance(r, np.ndarray):
        k = _cdt(r).kind
        if k == 'f':
            return mk(_conv_float_arr(r))
        if k == 'c':
            raise Unsupported('complex result')
        if k == 'O':
            if r.size and not _numeric_obj(r):
                return r
            v = np.ndarray.view(r, VArr)
            v._kind = 'f'
            f = r.reshape(-1)
            if r.size and all(isinstance(x, (bool, SymBool, np.bool_)) for x in f):
                v._kind = 'b'
                return _settle(v)
            if r.size and any(type(x) in (int, float, Fraction) or isinstance(x, np.number) for x in f):
                v = mk(_elementwise(liftx, r))
            return v
        return np.ndarray.view(r, VArr)
    if isinstance(r, np.floating):
        return liftx(r)
    if isinstance(r, float):
        return liftx(r) if math.isfinite(r) else r
    if isinstance(r, (np.bool_,)):
        return bool(r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return r
        return tuple(wrap(x) for x in r)
    return r


def mk(a, kind='f'):
    v = np.ndarray.view(a, VArr)
    v._kind = kind
    return v


S._varr = mk


def _elementwise(f, a):
    a = _raw(np.asarray(a) if not isinstance(a, np.ndarray) else a)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = f(a[()])
        return mk(out)
    if a.size:
        fo = np.empty(a.size, dtype=object)
        for i, x in enumerate(a.reshape(-1)):
            fo[i] = f(x)
        out = fo.reshape(a.shape)
    return mk(out)


def _native(a, conv):
    a = _raw(a)
    out = np.empty(a.size, dtype=conv)
    for i, x in enumerate(a.reshape(-1)):
        out[i] = conv(x)
    return out.reshape(a.shape)


def _settle(v):
    """bool-kind object array whose elements are all concrete -> native"""
    f = _raw(v).reshape(-1)
    if all(isinstance(x, (bool, np.bool_)) for x in f):
        return np.array([bool(x) for x in f], dtype=bool).reshape(v.shape).view(VArr)
    v._kind = 'b'
    return v


def _toobj(v):
    """value assigned into a symbolic array"""
    if isinstance(v, np.ndarray):
        k = _cdt(v).kind
        if k == 'f':
            return _conv_float_arr(_raw(v))
        if k in 'iub':
            return _conv_float_arr(_raw(v))
        if k == 'O' and isinstance(v, VArr) and v._kind == 'b':
            return _raw(_elementwise(liftx, v))
        return _raw(v)
    if isinstance(v, (list, tuple)):
        return _raw(array(v, dtype='f8'))
    if isinstance(v, SymBool):
        return lift(v)
    l = lift(v)
    if l is None:
        if hasattr(v, '__array__') or v is None:
            raise Unsupported('assignment of %s' % type(v).__name__)
        if hasattr(v, '__iter__'):
            return _raw(array(list(v), dtype='f8'))
        if isinstance(v, str):
            raise ValueError('could not convert string to float')
        raise TypeError('float() argument must be a string or a number, not %r' % type(v).__name__)
    return l


def _fixidx(idx):
    if isinstance(idx, tuple):
        return tuple(_fixidx1(i) for i in idx)
    return _fixidx1(idx)


def _fixidx1(i):
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, VArr):
        if _isobj(i):
            if i._kind == 'b':
                return _native(i, bool)
            if i._kind == 'i' or all(isinstance(x, Sym) and x.isint for x in _raw(i).reshape(-1)) and i._kind == 'i':
                return _native(i, lambda x: S.concretize(liftx(x)))
            if i.size == 0:
                # numpy: empty float index arrays are errors, empty lists are fine
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return _raw(i)
    if isinstance(i, list):
        return [_fixidx1(x) for x in i]
    if isinstance(i, slice):
        f = lambda x: x.__index__() if isinstance(x, Sym) else x
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def _tof(a):
    """any array-like -> symbolic float array (copy)"""
    if isinstance(a, np.ndarray):
        k = _cdt(a).kind
        if k == 'O':
            if isinstance(a, VArr) and a._kind == 'f':
                return a.copy()
            return _elementwise(liftx, a)
        if k in 'fiub':
            return mk(_conv_float_arr(_raw(a)))
        raise Unsupported('dtype kind ' + k)
    return array(a, dtype='f8')


def _axlen(a, axis):
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def _sum(a, axis=None, keepdims=False):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if not _isobj(a):
        if _cdt(a).kind == 'f':
            a = _tof(a)
        else:
            return wrap(np.ndarray.sum(_raw(a), axis=axis, keepdims=keepdims))
    kind = getattr(a, '_kind', 'f')
    if kind == 'b':
        a = _elementwise(liftx, a)
    r = _raw(a)
    if r.size == 0:
        z = np.sum(np.zeros(r.shape), axis=axis, keepdims=keepdims)
        return wrap(np.asarray(z)) if np.ndim(z) else S.ZERO()
    if axis is None:
        t = S.ZERO()
        for x in r.reshape(-1):
            t = t + x
        if keepdims:
            o = np.empty((1,) * r.ndim, dtype=object)
            o[...] = t
            return mk(o)
        return t
    res = np.add.reduce(r, axis=axis, keepdims=keepdims)
    return wrap(res)


def _redx(a, f, axis, keepdims, name):
    if not _isobj(a):
        return wrap(getattr(np, name).reduce(_raw(a), axis=axis, keepdims=keepdims))
    r = _raw(a)
    if getattr(a, '_kind', None) == 'b':
        r = _raw(_elementwise(liftx, a))
    if axis is None:
        if r.size == 0:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        it = iter(r.reshape(-1))
        t = liftx(next(it))
        for x in it:
            t = f(t, x)
        if keepdims:
            o = np.empty((1,) * r.ndim, dtype=object)
            o[...] = t
            return mk(o, getattr(a, '_kind', 'f'))
        return t
    if isinstance(axis, tuple):
        raise Unsupported('min/max over several axes')
    if r.shape[axis] == 0:
        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
    m = np.moveaxis(r, axis, 0)
    t = m[0]
    for x in m[1:]:
        t = np.frompyfunc(f, 2, 1)(t, x)
    if keepdims:
        t = np.expand_dims(np.asarray(t, dtype=object), axis)
    if isinstance(t, np.ndarray):
        return mk(t, getattr(a, '_kind', 'f'))
    return t


def _argx(a, axis, better):
    if not _isobj(a):
        raise Unsupported('argmin on native')
    r = _raw(a)
    if axis is None or r.ndim == 1:
        f = list(r.reshape(-1))
        if not f:
            raise ValueError('attempt to get argmin of an empty sequence')
        b = 0
        for i in range(1, len(f)):
            if bool(better(f[b], f[i])):
                b = i
        return b
    m = np.moveaxis(r, axis, -1)
    out = np.empty(m.shape[:-1], dtype=int)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = _argx(mk(m[ix].copy()), None, better)
    return out.view(VArr)


# ---------------------------------------------------------------- ufunc dispatch

_UN = {
    'absolute': lambda x: S.sabs(x), 'fabs': lambda x: S.sabs(x),
    'sqrt': S.sqrt, 'exp': S.exp, 'log': S.log, 'square': lambda x: x * x,
    'log1p': lambda x: S.log(x + 1), 'expm1': lambda x: S.exp(x) - 1,
    'log2': lambda x: x.log2(), 'log10': lambda x: x.log10(), 'exp2': lambda x: x.exp2(),
    'sin': lambda x: S.trig('sin', x), 'cos': lambda x: S.trig('cos', x), 'tan': lambda x: x.tan(),
    'tanh': lambda x: x.tanh(),
    'cosh': lambda x: (S.exp(x) + S.exp(-x)) / 2, 'sinh': lambda x: (S.exp(x) - S.exp(-x)) / 2,
    'floor': S.floor, 'ceil': lambda x: -S.floor(-x), 'rint': S.rint, 'trunc': S.trunc,
    'negative': lambda x: -x, 'positive': lambda x: x, 'conjugate': lambda x: x,
    'reciprocal': lambda x: S.div(S.ONE(), x),
    'sign': lambda x: ite(x > 0, S.ONE(), ite(x < 0, S.const(-1) if hasattr(S, 'const') else Sym.const(-1), S.ZERO())),
    'cbrt': lambda x: x ** Fraction(1, 3),
    'deg2rad': lambda x: x * PI() / 180, 'radians': lambda x: x * PI() / 180,
}
_UB = {'isnan': lambda x: x is S.NAN, 'isinf': lambda x: isinstance(x, S._Inf),
       'isfinite': lambda x: not (x is S.NAN or isinstance(x, S._Inf)),
       'signbit': lambda x: x < 0}
_BIN = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'true_divide': S.div, 'divide': S.div, 'floor_divide': lambda a, b: S.floor(S.div(a, b)),
    'remainder': lambda a, b: a % b, 'fmod': lambda a, b: a - b * S.trunc(S.div(a, b)),
    'power': lambda a, b: a ** b, 'float_power': lambda a, b: a ** b,
    'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin,
    'hypot': lambda a, b: S.sqrt(a * a + b * b),
    'copysign': lambda a, b: ite(b < 0, -S.sabs(a), S.sabs(a)),
    'logaddexp': lambda a, b: S.log(S.exp(a) + S.exp(b)),
    'heaviside': lambda a, b: ite(a < 0, S.ZERO(), ite(a > 0, S.ONE(), b)),
}
_CMP = {'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
        'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b}
_LOG = {'logical_and': S.band, 'logical_or': S.bor, 'bitwise_and': S.band, 'bitwise_or': S.bor,
        'logical_xor': lambda a, b: S.bor(S.band(a, S.bnot(b)), S.band(S.bnot(a), b)),
        'bitwise_xor': lambda a, b: S.bor(S.band(a, S.bnot(b)), S.band(S.bnot(a), b))}
_FLOATY = {'sqrt', 'exp', 'log', 'log1p', 'expm1', 'log2', 'log10', 'exp2', 'sin', 'cos', 'tan', 'tanh', 'cosh', 'sinh', 'true_divide', 'divide',
           'reciprocal', 'hypot', 'fabs', 'logaddexp', 'float_power', 'cbrt', 'deg2rad', 'radians', 'rint', 'floor', 'ceil', 'trunc'}


def _asb(x):
    if isinstance(x, (bool, SymBool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return liftx(x) != 0


def _issymb(x):
    """does this operand need symbolic treatment?"""
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        k = _cdt(x).kind
        return k in 'Of'
    return isinstance(x, (builtins.float, np.floating, Fraction))


def _plain(x):
    if isinstance(x, VArr):
        return _raw(x)
    if isinstance(x, (list, tuple)):
        return _raw(asarray(x))
    if isinstance(x, (builtins.float, np.floating)):
        return x
    return x


def _as_objarr(x):
    x = _plain(x)
    if isinstance(x, np.ndarray):
        if _cdt(x).kind == 'O':
            return x
        if _cdt(x).kind in 'fiu':
            return _conv_float_arr(x)
        if _cdt(x).kind == 'b':
            o = np.empty(x.shape, dtype=object)
            if x.size:
                f = np.empty(x.size, dtype=object)
                for i, y in enumerate(x.reshape(-1)):
                    f[i] = bool(y)
                o = f.reshape(x.shape)
            return o
        raise Unsupported('array kind')
    o = np.empty((), dtype=object)
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        o[()] = bool(x) if isinstance(x, np.bool_) else x
        return o
    l = lift(x)
    if l is None:
        raise TypeError('unsupported operand type for symbolic ufunc: %s' % type(x).__name__)
    o[()] = l
    return o


def _kind_of(x):
    """numeric kind 'b' 'i' 'f' of an operand"""
    if isinstance(x, VArr) and _isobj(x):
        return x._kind or 'f'
    if isinstance(x, np.ndarray):
        k = _cdt(x).kind
        return {'O': 'f', 'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k, 'f')
    if isinstance(x, Sym):
        return 'i' if x.isint else 'f'
    if isinstance(x, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    return 'f'


class _Masked(Exception):
    pass


def _scalar_ufunc(self, ufunc, method, *inputs, out=None, **kw):
    if ufunc.__name__.endswith('(vectorized)') and method == '__call__' and out is None:
        ops = []
        for x in inputs:
            if isinstance(x, (Sym, SymBool)):
                o = np.empty((), dtype=object)
                o[()] = x
                x = o
            elif isinstance(x, VArr):
                x = x.view(np.ndarray)
            ops.append(x)
        return ufunc(*ops, **kw)
    return _ufunc(ufunc, method, inputs, out, kw)


Sym.__array_ufunc__ = _scalar_ufunc
SymBool.__array_ufunc__ = _scalar_ufunc


def _ufunc(ufunc, method, inputs, out, kw):
    from . import fft as _fft
    name = ufunc.__name__
    for x in inputs:
        if isinstance(x, (_fft.Spectrum, _fft.CArr)):
            return NotImplemented
    if isinstance(out, tuple) and len(out) == 1:
        outv = out[0]
    else:
        outv = out
    where = kw.pop('where', None)
    if where is True:
        where = None
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    dt = kw.pop('dtype', None)
    if method == '__call__':
        if name == 'matmul':
            return _setout(matmul(*inputs), outv)
        symb = any(_issymb(x) for x in inputs)
        if not symb and name not in _FLOATY and not (name == 'power' and any(_kind_of(x) == 'i' for x in inputs[1:]) and False):
            r = ufunc(*[_plain(x) for x in inputs])
            return _finish(wrap(r), outv, where, name)
        kinds = [_kind_of(x) for x in inputs]
        kind = 'f' if 'f' in kinds else ('i' if 'i' in kinds else 'b')
        ops = [_as_objarr(x) for x in inputs]
        if name in _CMP:
            if all(k == 'b' for k in kinds) and name in ('equal', 'not_equal'):
                g = {'equal': lambda a, b: S.bnot(_LOG['logical_xor'](_asb(a), _asb(b))), 'not_equal': lambda a, b: _LOG['logical_xor'](_asb(a), _asb(b))}[name]
            else:
                g0 = _CMP[name]
                def g(a, b):
                    r = g0(liftx(a), b if isinstance(b, Sym) else liftx(b))
                    return bool(r) if isinstance(r, np.bool_) else r
            r = np.frompyfunc(g, 2, 1)(*ops)
            return _finish(_boolres(r), outv, where, name)
        if name in _LOG:
            r = np.frompyfunc(lambda a, b: _LOG[name](_asb(a), _asb(b)), 2, 1)(*ops)
            return _finish(_boolres(r), outv, where, name)
        if name in ('logical_not',) or (name == 'invert' and kind == 'b'):
            r = np.frompyfunc(lambda a: S.bnot(_asb(a)), 1, 1)(*ops)
            return _finish(_boolres(r), outv, where, name)
        if name in _UB:
            r = np.frompyfunc(lambda a: _UB[name](liftx(a)), 1, 1)(*ops)
            return _finish(_boolres(r), outv, where, name)
        if name in _UN:
            f = _UN[name]
            r = np.frompyfunc(lambda a: f(liftx(a)), 1, 1)(*ops)
        elif name in _BIN:
            f = _BIN[name]
            if where is not None:
                where_arr = np.broadcast_to(_raw(asarray(where)), np.broadcast(*ops).shape)
                base = outv if outv is not None else None
                bc = [np.broadcast_to(o, where_arr.shape) for o in ops]
                res = np.empty(where_arr.shape, dtype=object)
                for ix in np.ndindex(*where_arr.shape):
                    c = where_arr[ix]
                    old = _raw(base)[ix] if base is not None else S.NAN
                    if isinstance(c, SymBool):
                        c = bool(c)
                    res[ix] = f(liftx(bc[0][ix]), liftx(bc[1][ix])) if c else old
                r = mk(res)
                if outv is not None:
                    outv[...] = r
                    return outv
                return r
            r = np.frompyfunc(lambda a, b: f(a if isinstance(a, Sym) else liftx(a), b if isinstance(b, Sym) else liftx(b)), 2, 1)(*ops)
        elif name == 'divmod':
            q = np.floor_divide(*inputs)
            return q, inputs[0] - q * inputs[1]
        elif name == 'modf':
            t = np.trunc(inputs[0])
            return inputs[0] - t, t
        else:
            raise Unsupported('ufunc ' + name)
        if isinstance(r, np.ndarray):
            r = mk(r, 'i' if (kind in 'ib' and name not in _FLOATY) else 'f')
        return _finish(r, outv, where, name)
    if method in ('reduce', 'accumulate'):
        a = inputs[0]
        if not isinstance(a, np.ndarray):
            a = asarray(a)
        axis = kw.pop('axis', 0)
        keepdims = kw.pop('keepdims', False)
        if not _issymb(a):
            if method == 'reduce':
                return wrap(ufunc.reduce(_plain(a), axis=axis, keepdims=keepdims, **kw))
            return wrap(ufunc.accumulate(_plain(a), axis=axis))
        if method == 'reduce':
            if name == 'add':
                r = _sum(a, axis, keepdims)
            elif name == 'multiply':
                r = a.prod(axis=axis, keepdims=keepdims)
            elif name in ('maximum', 'fmax'):
                r = _redx(a, smax, axis, keepdims, 'maximum')
            elif name in ('minimum', 'fmin'):
                r = _redx(a, smin, axis, keepdims, 'minimum')
            elif name in ('logical_or', 'bitwise_or'):
                r = np_any(a, axis)
            elif name in ('logical_and', 'bitwise_and'):
                r = np_all(a, axis)
            else:
                raise Unsupported('reduce ' + name)
            init = kw.pop('initial', None)
            if init is not None and init is not np._NoValue:
                r = _BIN[name](liftx(r), liftx(init)) if not isinstance(r, np.ndarray) else ufunc(r, init)
            return _setout(r, outv)
        f = _BIN.get(name)
        if f is None:
            raise Unsupported('accumulate ' + name)
        m = np.moveaxis(_as_objarr(a), axis, 0)
        res = np.empty(m.shape, dtype=object)
        if len(m):
            res[0] = m[0]
            for i in range(1, len(m)):
                res[i] = np.frompyfunc(lambda x, y: f(liftx(x), liftx(y)), 2, 1)(res[i - 1], m[i])
        return _setout(mk(np.moveaxis(res, 0, axis)), outv)
    if method == 'outer':
        a, b = (x if isinstance(x, np.ndarray) else asarray(x) for x in inputs)
        return _setout(ufunc(a.reshape(a.shape + (1,) * b.ndim), b), outv)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        f = _BIN[name] if len(inputs) > 2 else _UN[name]
        if len(inputs) == 2:
            a[idx] = ufunc(a[idx])
            return None
        idx = _fixidx(idx)
        sel = np.arange(a.size).reshape(a.shape)[idx]
        vals = np.broadcast_to(_raw(asarray(inputs[2])), np.shape(sel))
        flat = [x for x in _raw(a).reshape(-1)]
        for i, v in zip(np.reshape(sel, -1), np.reshape(vals, -1)):
            flat[i] = f(liftx(flat[i]), liftx(v))
        o = np.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            o[i] = x
        a[...] = mk(o.reshape(a.shape))
        return None
    if method == 'reduceat':
        a = inputs[0] if isinstance(inputs[0], np.ndarray) else asarray(inputs[0])
        axis = kw.pop('axis', 0)
        idx = [int(i) for i in _raw(asarray(inputs[1])).reshape(-1)]
        m = np.moveaxis(_raw(a), axis, 0)
        n = len(m)
        if any(i < 0 or i >= n for i in idx):
            raise IndexError('index out-of-bounds in %s.reduceat' % name)
        rows = []
        for k, i in enumerate(idx):
            j = idx[k + 1] if k + 1 < len(idx) else n
            seg = wrap(m[i:j].copy()) if j > i else None
            rows.append(wrap(m[i:i + 1].copy())[0] if seg is None else _ufunc(ufunc, 'reduce', (seg,), None, dict(axis=0)))
        return _setout(moveaxis(stack(rows), 0, axis), outv)
    raise Unsupported('ufunc method ' + method)


def _boolres(r):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r[()]
        return _settle(mk(r, 'b'))
    return r


def _finish(r, outv, where, name):
    if outv is None:
        if isinstance(r, np.ndarray) and r.ndim == 0 and not isinstance(r, VArr):
            return r[()]
        if isinstance(r, VArr) and r.ndim == 0:
            return _raw(r)[()]
        return r
    # in-place / out=: respect the kind of the destination
    if isinstance(outv, np.ndarray):
        ok = _kind_of(outv)
        rk = _kind_of(r) if not (isinstance(r, np.ndarray) and r.ndim == 0) else _kind_of(_raw(r)[()])
        order = 'bif'
        if ok in order and rk in order and order.index(rk) > order.index(ok):
            raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule 'same_kind'"
                            % (name, {'f': 'float64', 'i': 'int64', 'b': 'bool'}[rk], {'f': 'float64', 'i': 'int64', 'b': 'bool'}[ok]))
    if where is not None:
        w = asarray(where)
        outv[...] = np_where(w, r, outv)
        return outv
    if isinstance(outv, VArr) and isinstance(r, np.ndarray):
        # in-place broadcasting must not grow the output
        if r.shape != outv.shape and np.broadcast_shapes(r.shape, outv.shape) != outv.shape:
            raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s' % (outv.shape, r.shape))
    outv[...] = r
    return outv


def _cmpop(uf, a, b):
    if b is None or isinstance(b, str):
        return np.zeros(a.shape, dtype=bool) if uf is np.equal else np.ones(a.shape, dtype=bool)
    return uf(a, b)


# ---------------------------------------------------------------- creation

def _shape(s):
    if isinstance(s, (Sym,)):
        return (s.__index__(),)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    out = []
    for x in s:
        if isinstance(x, Sym):
            out.append(x.__index__())
        elif isinstance(x, (builtins.float, np.floating)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        else:
            out.append(int(x))
    return tuple(out)


def _filled(shape, v):
    o = np.empty(_shape(shape), dtype=object)
    o[...] = v
    return mk(o)


def full(shape, fill_value, dtype=None, order='C', **k):
    d = ndt(dtype)
    if isinstance(fill_value, np.ndarray):
        r = empty(shape, dtype or 'f8')
        r[...] = fill_value
        return r
    if d is None:
        if isinstance(fill_value, (bool, np.bool_)):
            return np.full(_shape(shape), fill_value).view(VArr)
        if isinstance(fill_value, (int, np.integer)):
            return np.full(_shape(shape), fill_value).view(VArr)
        if isinstance(fill_value, Sym) and fill_value.isint and fill_value.c is None:
            return mk(_raw(_filled(shape, fill_value)), 'i')
        d = 'f'
    if d == 'f':
        return _filled(shape, liftx(fill_value))
    if d == OBJ:
        return np.full(_shape(shape), fill_value, dtype=object)
    if isinstance(fill_value, Sym):
        fill_value = int(fill_value)
    return np.full(_shape(shape), fill_value, dtype=d).view(VArr)


def zeros(shape, dtype='f8', order='C', **k):
    d = ndt(dtype) or 'f'
    if d == 'f':
        return _filled(shape, S.ZERO())
    if d == OBJ:
        return mk(_raw(_filled(shape, S.ZERO())))
    return np.zeros(_shape(shape), dtype=d).view(VArr)


def ones(shape, dtype='f8', order='C', **k):
    d = ndt(dtype) or 'f'
    if d == 'f' or d == OBJ:
        return _filled(shape, S.ONE())
    return np.ones(_shape(shape), dtype=d).view(VArr)


def empty(shape, dtype='f8', order='C', **k):
    d = ndt(dtype) or 'f'
    if d == 'f':
        return _filled(shape, GARBAGE())
    if d == OBJ:
        return np.empty(_shape(shape), dtype=object)
    return np.zeros(_shape(shape), dtype=d).view(VArr)


_g = [0]


def GARBAGE():
    """Uninitialised memory: an arbitrary value."""
    return Sym.var('!uninit')


def _like(a, dtype, shape, f):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    shp = a.shape if shape is None else shape
    if dtype is not None:
        return f(shp, dtype)
    k = _kind_of(a)
    if isinstance(a, VArr) and _isobj(a):
        if k == 'i':
            r = f(shp, 'f8')
            r._kind = 'i'
            return r
        if k == 'b':
            return f(shp, bool)
        return f(shp, 'f8')
    if _cdt(a).kind == 'O':
        return f(shp, object)
    return f(shp, _cdt(a))


def zeros_like(a, dtype=None, order='K', subok=True, shape=None): return _like(a, dtype, shape, zeros)
def ones_like(a, dtype=None, order='K', subok=True, shape=None): return _like(a, dtype, shape, ones)
def empty_like(a, dtype=None, order='K', subok=True, shape=None): return _like(a, dtype, shape, empty)
def full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    r = _like(a, dtype, shape, empty)
    r[...] = v
    return r


def identity(n, dtype='f8', **k): return eye(n, dtype=dtype)


def eye(N, M=None, k=0, dtype='f8', order='C', **kw):
    r = zeros((N, N if M is None else M), dtype)
    one = 1
    for i in range(r.shape[0]):
        if 0 <= i + k < r.shape[1]:
            r[i, i + k] = one
    return r


def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    from . import fft as _fft
    if isinstance(obj, (_fft.Spectrum, _fft.CArr)):
        if getattr(obj, 'isreal', False) and (dtype is None or np.dtype(dtype).kind == 'f'):
            return obj._real_values('array')
        if dtype is not None and np.dtype(dtype).kind != 'c':
            raise Unsupported('cast of a spectrum')
        return obj.copy() if copy else obj
    d = ndt(dtype)
    if isinstance(obj, np.ndarray):
        r = obj
        if d is None:
            if _cdt(r).kind == 'f':
                r = mk(_conv_float_arr(_raw(r)))
            elif copy:
                r = r.copy() if isinstance(r, VArr) else np.array(r, copy=True)
        elif d == 'f':
            r = _tof(r) if (copy or not (isinstance(r, VArr) and r._kind == 'f' and _isobj(r))) else r
        elif d == OBJ:
            r = np.array(_raw(r), dtype=object)
        else:
            r = r.astype(d) if isinstance(r, VArr) else r.astype(d).view(VArr)
        if type(r) not in (VArr, np.ndarray) and not subok:
            kk = r._kind
            r = np.ndarray.view(r, VArr)
            r._kind = kk
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    if isinstance(obj, (Sym, SymBool)):
        o = np.empty((), dtype=object)
        o[()] = obj
        r = mk(o, 'b' if isinstance(obj, SymBool) else ('i' if obj.isint and obj.c is None else 'f'))
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    from .fsparse import FSparse
    if isinstance(obj, FSparse):
        raise Unsupported('np.array(sparse)')
    if hasattr(obj, '__iter__') and not isinstance(obj, (list, tuple, str, range)):
        if hasattr(obj, '__len__') and hasattr(obj, '__getitem__'):
            obj = list(obj)
        else:
            # generator / map object: numpy makes a 0-d object array
            o = np.empty((), dtype=object)
            o[()] = obj
            return o
    if d == OBJ:
        return np.array(_strip(obj), dtype=object)
    r = _build(obj)
    if d == 'f':
        r = _tof(r)
    elif d is not None:
        r = r.astype(d) if isinstance(r, VArr) else np.asarray(r).astype(d).view(VArr)
    elif isinstance(r, np.ndarray) and type(r) is not np.ndarray:
        pass
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def _leafs(obj, out):
    if isinstance(obj, (list, tuple, range)):
        for x in obj:
            _leafs(x, out)
    elif isinstance(obj, np.ndarray):
        out.append(obj)
    else:
        out.append(obj)


def _build(obj):
    """np.array of nested sequences"""
    leaves = []
    _leafs(obj, leaves)
    symb = any(_issymb(x) for x in leaves)
    if not symb:
        r = np.array(_strip(obj))
        if _cdt(r).kind == 'O' and not _numeric_obj(r):
            return r
        return wrap(r)
    kinds = {_kind_of(x) for x in leaves if not (isinstance(x, np.ndarray) and x.size == 0 and _cdt(x).kind == 'f')} or {'f'}

    def shp(o):
        if isinstance(o, np.ndarray):
            return o.shape
        if isinstance(o, (list, tuple, range)):
            if not len(o):
                return (0,)
            ss = [shp(x) for x in o]
            if any(s != ss[0] for s in ss):
                return None
            return (len(o),) + ss[0]
        return ()
    s = shp(obj)
    if s is None or None in (s or ()):
        # ragged: object array of the items (numpy 1.23: deprecated but works)
        o = np.empty(len(obj), dtype=object)
        for i, x in enumerate(obj):
            o[i] = x
        return o
    flat = []

    def rec(o):
        if isinstance(o, np.ndarray):
            flat.extend(_raw(o).reshape(-1))
        elif isinstance(o, (list, tuple, range)):
            for x in o:
                rec(x)
        else:
            flat.append(o)
    rec(obj)
    o = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        o[i] = x
    allb = all(isinstance(x, (bool, SymBool, np.bool_)) for x in flat) and flat
    if allb:
        return _settle(mk(o.reshape(s), 'b'))
    for i, x in enumerate(flat):
        if not isinstance(x, Sym):
            l = lift(x)
            if l is None:
                return o.reshape(s)      # container of arbitrary objects
            o[i] = l
    kind = 'f' if 'f' in kinds else 'i'
    return mk(o.reshape(s), kind)


def asarray(a, dtype=None, order=None, **k):
    if isinstance(a, VArr) and dtype is None:
        return array(a, copy=False)
    return array(a, dtype=dtype, copy=False)


def asanyarray(a, dtype=None, order=None, **k):
    if isinstance(a, VArr) and dtype is None:
        return a
    return array(a, dtype=dtype, copy=False, subok=True)


def asarray_chkfinite(a, dtype=None, order=None): return asarray(a, dtype)
def ascontiguousarray(a, dtype=None, **k):
    r = asarray(a, dtype)
    return r if r.flags['C_CONTIGUOUS'] else mk(np.ascontiguousarray(_raw(r)), r._kind) if isinstance(r, VArr) else r
def asfortranarray(a, dtype=None, **k): return asarray(a, dtype)
def require(a, dtype=None, requirements=None, **k): return asarray(a, dtype)
def np_copy(a, order='K', subok=False): return array(a, copy=True)


def fromiter(it, dtype=None, count=-1, **k):
    ls = list(it)
    if count >= 0:
        ls = ls[:count]
    ls = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in ls]
    if not ls:
        return zeros(0, dtype)
    d = ndt(dtype)
    if d is not None and d != 'f' and d != OBJ and any(isinstance(x, Sym) for x in ls):
        r = array(ls).astype(d)
        return r
    return array(ls, dtype=dtype)


def arange(*args, dtype=None, **k):
    args = [int(a.c) if isinstance(a, Sym) and isinstance(a.c, int) else a for a in args]
    if any(isinstance(a, Sym) or isinstance(a, (builtins.float, np.floating)) for a in args):
        a = [0, None, 1]
        if len(args) == 1:
            a[1] = args[0]
        else:
            a[:len(args)] = args
        st, en, step = (liftx(x) for x in a)
        n = -S.floor(-((en - st) / step))
        n = max(int(n), 0)
        return array([st + i * step for i in range(n)], dtype='f8') if n else zeros(0)
    r = np.arange(*args)
    if dtype is not None and ndt(dtype) == 'f':
        return _tof(r)
    if dtype is not None:
        r = r.astype(ndt(dtype))
    return r.view(VArr)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = num.__index__() if not isinstance(num, (int, np.integer)) else int(num)
    if num < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % num)
    div = (num - 1) if endpoint else num
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        st, en = _tof(start), _tof(stop)
        rows = [st + (en - st) * Fraction(i, div) if div > 0 else st for i in range(num)]
        r = stack(rows, axis) if rows else zeros((0,) + st.shape)
        return (r, (en - st) / div) if retstep else r
    st, en = liftx(start), liftx(stop)
    step = (en - st) / div if div > 0 else S.NAN
    r = [st + (en - st) * Fraction(i, div) if div > 0 else st for i in range(num)]
    out = array(r, dtype='f8') if r else zeros(0)
    return (out, step) if retstep else out


def logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    return np.power(liftx(base), linspace(start, stop, num, endpoint))


# ---------------------------------------------------------------- algebra

def _oprod(a, b):
    """object dot of 1-D/2-D arrays with zero skipping"""
    n, k = a.shape
    k2, m = b.shape
    out = np.empty((n, m), dtype=object)
    cols = [[(t, x) for t, x in enumerate(b[:, j]) if x.c is None or x.c != 0] for j in range(m)]
    rows = [list(a[i]) for i in range(n)]
    Z = S.ZERO()
    for i in range(n):
        r = rows[i]
        for j in range(m):
            acc = None
            for t, x in cols[j]:
                y = r[t]
                if y.c is not None and y.c == 0:
                    continue
                v = y * x
                acc = v if acc is None else acc + v
            out[i, j] = Z if acc is None else acc
    return out


def dot(a, b, out=None):
    from .fsparse import FSparse
    from . import fft as _fft
    if isinstance(b, FSparse):
        # numpy treats sparse matrices as objects: unreliable, mirror a @ b
        raise Unsupported('dense.dot(sparse)')
    if not isinstance(a, np.ndarray):
        a = asarray(a) if not isinstance(a, (Sym, int, float)) else a
    if not isinstance(b, np.ndarray):
        b = asarray(b) if not isinstance(b, (Sym, int, float)) else b
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0:
        return _setout(a * b, out)
    if not _issymb(a) and not _issymb(b):
        return _setout(wrap(np.dot(_plain(a), _plain(b))), out)
    if a.ndim > 2 or b.ndim > 2:
        return _setout(tensordot(a, b, axes=([a.ndim - 1], [max(b.ndim - 2, 0)])), out)
    A, B = _as_sym(a), _as_sym(b)
    A2 = A.reshape(1, -1) if A.ndim == 1 else A
    B2 = B.reshape(-1, 1) if B.ndim == 1 else B
    if A2.shape[1] != B2.shape[0]:
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim 0)' %
                         (a.shape, b.shape, A2.shape[1], a.ndim - 1, B2.shape[0]))
    r = _oprod(A2, B2)
    if A.ndim == 1 and B.ndim == 1:
        return r[0, 0]
    if A.ndim == 1:
        r = r[0]
    elif B.ndim == 1:
        r = r[:, 0]
    ik = _kind_of(a) in 'ib' and _kind_of(b) in 'ib'
    return _setout(mk(r, 'i' if ik else 'f'), out)


def _as_sym(a):
    o = _as_objarr(a)
    f = o.reshape(-1)
    if any(not isinstance(x, Sym) for x in f):
        o = _raw(_elementwise(liftx, o))
    return o


def matmul(a, b, out=None):
    from .fsparse import FSparse
    if isinstance(b, FSparse):
        return b.__rmatmul__(a)
    a = a if isinstance(a, np.ndarray) else asarray(a)
    b = b if isinstance(b, np.ndarray) else asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand 0 does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return _setout(dot(a, b), out)
    sa, sb = a.shape[:-2], b.shape[:-2]
    bs = np.broadcast_shapes(sa, sb)
    A = np.broadcast_to(_as_sym(a), bs + a.shape[-2:])
    B = np.broadcast_to(_as_sym(b), bs + b.shape[-2:])
    r = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in np.ndindex(*bs):
        r[ix] = _oprod(A[ix], B[ix])
    return _setout(mk(r), out)


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if not _issymb(a) and not _issymb(b):
        return wrap(np.tensordot(_plain(a), _plain(b), axes))
    try:
        iter(axes)
    except TypeError:
        axes_a = list(range(-axes, 0))
        axes_b = list(range(0, axes))
    else:
        axes_a, axes_b = axes
    axes_a = [axes_a] if isinstance(axes_a, (int, np.integer)) else list(axes_a)
    axes_b = [axes_b] if isinstance(axes_b, (int, np.integer)) else list(axes_b)
    axes_a = [x % a.ndim for x in axes_a]
    axes_b = [x % b.ndim for x in axes_b]
    if [a.shape[i] for i in axes_a] != [b.shape[i] for i in axes_b]:
        raise ValueError('shape-mismatch for sum')
    na = [i for i in range(a.ndim) if i not in axes_a]
    nb = [i for i in range(b.ndim) if i not in axes_b]
    K = 1
    for i in axes_a:
        K *= a.shape[i]
    A = np.transpose(_as_sym(a), na + axes_a).reshape(-1, K)
    B = np.transpose(_as_sym(b), axes_b + nb).reshape(K, -1)
    r = _oprod(A, B).reshape([a.shape[i] for i in na] + [b.shape[i] for i in nb])
    if r.ndim == 0:
        return r[()]
    return mk(r)


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, axes=([-1], [-1]))


def vdot(a, b):
    return dot(asarray(a).reshape(-1), asarray(b).reshape(-1))


def outer(a, b, out=None):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return _setout(a[:, np.newaxis] * b[np.newaxis, :], out)


def kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim != b.ndim:
        nd = max(a.ndim, b.ndim)
        a = a.reshape((1,) * (nd - a.ndim) + a.shape)
        b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    sa, sb = [], []
    for x, y in zip(a.shape, b.shape):
        sa += [x, 1]
        sb += [1, y]
    r = a.reshape(sa) * b.reshape(sb)
    return r.reshape([x * y for x, y in zip(a.shape, b.shape)])


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported('einsum operand form')
    ops = [asarray(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(',', ''):
            cnt[ch] = cnt.get(ch, 0) + 1
        outs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string has wrong number of indices')
        for ch, n in zip(s, o.shape):
            if dim.setdefault(ch, n) != n:
                if dim[ch] == 1:
                    dim[ch] = n
                elif n != 1:
                    raise ValueError('operands could not be broadcast together')
    summed = [c for c in dim if c not in outs]
    raws = [_as_sym(o) for o in ops]
    res = np.empty([dim[c] for c in outs], dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(outs, ix))
        acc = S.ZERO()
        for sx in np.ndindex(*[dim[c] for c in summed]):
            env.update(zip(summed, sx))
            t = None
            for s, o in zip(ins, raws):
                v = o[tuple(env[c] if o.shape[i] != 1 else 0 for i, c in enumerate(s))]
                t = v if t is None else t * v
                if t.c is not None and t.c == 0:
                    break
            acc = acc + t
        res[ix] = acc
    return mk(res) if res.ndim else res[()]


def np_any(a, axis=None, out=None, keepdims=False, **k):
    if a is None:
        return None
    a = a if isinstance(a, np.ndarray) else asarray(a)
    if not _isobj(a):
        return wrap(np.any(_raw(a), axis=axis))
    r = np.frompyfunc(_asb, 1, 1)(_raw(a))
    if axis is None:
        t = False
        for x in np.reshape(r, -1):
            t = S.bor(t, x)
            if t is True:
                return True
        return t
    m = np.moveaxis(r, axis, 0)
    res = np.empty(m.shape[1:], dtype=object)
    for ix in np.ndindex(*res.shape):
        res[ix] = np_any(mk(m[(slice(None),) + ix].copy(), 'b'))
    return _settle(mk(res, 'b')) if res.ndim else res[()]


def np_all(a, axis=None, out=None, keepdims=False, **k):
    if a is None:
        return None
    a = a if isinstance(a, np.ndarray) else asarray(a)
    r = np_any(np.logical_not(a), axis)
    if isinstance(r, np.ndarray):
        return np.logical_not(r)
    return S.bnot(r)


def np_where(cond, x=None, y=None):
    if x is None and y is None:
        return nonzero(asarray(cond))
    from . import fft as _fft
    if any(isinstance(v, (_fft.Spectrum, _fft.CArr)) for v in (x, y)):
        x, y = _fft.CArr.of(x), _fft.CArr.of(y)
        return _fft.CArr(_raw(np_where(cond, mk(x.re), mk(y.re))), _raw(np_where(cond, mk(x.im), mk(y.im))))
    c = cond if isinstance(cond, np.ndarray) else asarray(cond)
    if not _isobj(c) and not _issymb(x) and not _issymb(y) and not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
        return wrap(np.where(_raw(c), x, y))
    if not _isobj(c) and not _issymb(x) and not _issymb(y):
        return wrap(np.where(_raw(c), _plain(x), _plain(y)))
    cx = _as_objarr(c)
    ax, ay = _as_objarr(x), _as_objarr(y)
    kk = {_kind_of(x), _kind_of(y)}
    if kk == {'b'}:
        r = np.frompyfunc(lambda q, a, b: S.bor(S.band(_asb(q), a), S.band(S.bnot(_asb(q)), b)), 3, 1)(cx, ax, ay)
        return _boolres(r)
    r = np.frompyfunc(lambda q, a, b: ite(_asb(q), liftx(a), liftx(b)), 3, 1)(cx, ax, ay)
    if isinstance(r, np.ndarray) and r.ndim:
        return mk(r, 'f' if 'f' in kk else 'i')
    r = r[()] if isinstance(r, np.ndarray) else r
    return array(r)


def nonzero(a):
    if _isobj(a):
        a = _native(_elementwise(_asb, a), bool)
    return tuple(x.view(VArr) for x in np.nonzero(_raw(a)))


def flatnonzero(a): return nonzero(asarray(a).ravel())[0]
def argwhere(a): return np.transpose(np.array([_raw(x) for x in nonzero(asarray(a))])).view(VArr)
def count_nonzero(a, axis=None, **k):
    a = asarray(a)
    if not _isobj(a):
        return wrap(np.count_nonzero(_raw(a), axis=axis))
    return _sum(_elementwise(lambda x: liftx(_asb(x)) if isinstance(_asb(x), SymBool) else Sym.const(int(_asb(x))), a), axis)


def clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = np.maximum(asarray(r) if not isinstance(r, (Sym, np.ndarray)) else r, a_min)
    if a_max is not None:
        r = np.minimum(asarray(r) if not isinstance(r, (Sym, np.ndarray)) else r, a_max)
    return _setout(r, out)


def _sorted_idx(vals):
    """stable insertion sort deciding comparisons"""
    idx = []
    for i, v in enumerate(vals):
        j = len(idx)
        while j > 0 and bool(v < vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def np_sort(a, axis=-1, **k):
    a = asarray(a)
    if not _isobj(a):
        return wrap(np.sort(_raw(a), axis=axis))
    r = _raw(a)
    if axis is None:
        r = r.reshape(-1)
        axis = 0
    if r.ndim == 1:
        ix = _sorted_idx(list(r))
        return mk(r[ix])
    m = np.moveaxis(r, axis, -1).copy()
    for ii in np.ndindex(*m.shape[:-1]):
        m[ii] = m[ii][_sorted_idx(list(m[ii]))]
    return mk(np.moveaxis(m, -1, axis))


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if not _isobj(a):
        return wrap(np.argsort(_raw(a), axis=axis, kind='stable'))
    if a.ndim != 1:
        raise Unsupported('argsort nd')
    return np.array(_sorted_idx(list(_raw(a))), dtype=int).view(VArr)


def searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)
    if sorter is not None:
        a = a[sorter]
    if not _issymb(a) and not _issymb(v):
        return wrap(np.searchsorted(_plain(a), _plain(v), side))
    xs = [liftx(x) for x in _raw(a)]

    def one(x):
        x = liftx(x)
        t = S.ZERO()
        for y in xs:
            c = (y < x) if side == 'left' else (y <= x)
            t = t + ite(c, S.ONE(), S.ZERO())
        return t
    if isinstance(v, (np.ndarray, list, tuple)):
        r = _elementwise(one, asarray(v))
        r._kind = 'i'
        if all(x.c is not None for x in _raw(r).reshape(-1)):
            return _native(r, int).view(VArr)
        return r
    r = one(v)
    return r if r.c is None else int(r.c)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, 'left' if right else 'right')


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = asarray(a)
    if not _isobj(a):
        return wrap(np.unique(_raw(a), return_index, return_inverse, return_counts, axis))
    if return_index or return_inverse or axis is not None:
        raise Unsupported('np.unique variant')
    vals = list(_raw(np_sort(a.reshape(-1))))
    out, cnt = [], []
    for x in vals:
        if out and bool(out[-1] == x):
            cnt[-1] += 1
        else:
            out.append(x)
            cnt.append(1)
    r = array(out, dtype='f8') if out else zeros(0)
    return (r, np.array(cnt)) if return_counts else r


def repeat(a, n, axis=None):
    a = asarray(a)
    if isinstance(n, (map, filter)) :
        raise TypeError("int() argument must be a string, a bytes-like object or a number, not 'map'")
    if isinstance(n, Sym):
        n = n.__index__()
    elif isinstance(n, (list, tuple)):
        n = [x.__index__() if isinstance(x, Sym) else x for x in n]
    elif isinstance(n, np.ndarray) and _isobj(n):
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    k = getattr(a, '_kind', None)
    r = wrap(np.repeat(_raw(a), _raw(n) if isinstance(n, np.ndarray) else n, axis=axis))
    if isinstance(r, VArr) and _isobj(r):
        r._kind = k or 'f'
    return r


def _multi(fn):
    def f(arrs, *a, **k):
        if isinstance(arrs, np.ndarray):
            arrs = [x for x in arrs]
        else:
            arrs = list(arrs)
        arrs = [x if isinstance(x, np.ndarray) else asarray(x) for x in arrs]
        dt = k.pop('dtype', None)
        k.pop('casting', None)
        out = k.pop('out', None)
        symb = any(_isobj(x) or _cdt(x).kind == 'f' for x in arrs)
        if symb:
            kinds = {_kind_of(x) for x in arrs}
            if any(_isobj(x) and type(x) is np.ndarray and x.size and not _numeric_obj(x) for x in arrs):
                return fn([_raw(x) for x in arrs], *a, **k)
            kind = 'f' if 'f' in kinds else ('i' if 'i' in kinds else 'b')
            raws = [_as_objarr(x) for x in arrs]
            if kind != 'b':
                raws = [_raw(_elementwise(liftx, r)) for r in raws]
            r = fn(raws, *a, **k)
            r = mk(r, kind)
            if kind == 'b':
                r = _settle(r)
            return _setout(r, out)
        return wrap(fn([_raw(x) for x in arrs], *a, **k))
    f.__name__ = fn.__name__
    return f


concatenate = _multi(np.concatenate)
vstack = _multi(np.vstack)
hstack = _multi(np.hstack)
dstack = _multi(np.dstack)
stack = _multi(np.stack)
column_stack = _multi(np.column_stack)


def append(arr, values, axis=None):
    arr = asarray(arr)
    values = asarray(values)
    if axis is None:
        return concatenate([arr.reshape(-1), values.reshape(-1)])
    return concatenate([arr, values], axis)


def block(arrays):
    if isinstance(arrays, list) and arrays and isinstance(arrays[0], list):
        return concatenate([concatenate([atleast_2d(x) for x in row], axis=1) for row in arrays], axis=0)
    if isinstance(arrays, list):
        return concatenate([atleast_1d(x) for x in arrays], axis=-1)
    return asarray(arrays)


def atleast_1d(*arys):
    r = [asarray(a).reshape(1) if asarray(a).ndim == 0 else asarray(a) for a in arys]
    return r[0] if len(r) == 1 else r


def atleast_2d(*arys):
    r = []
    for a in arys:
        a = asarray(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[np.newaxis, :]
        r.append(a)
    return r[0] if len(r) == 1 else r


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = zeros((n, n)) if _isobj(v) else np.zeros((n, n), dtype=_cdt(v)).view(VArr)
        if _isobj(v):
            r._kind = v._kind
        for i in range(len(v)):
            if k >= 0:
                r[i, i + k] = v[i]
            else:
                r[i - k, i] = v[i]
        return r
    if v.ndim == 2:
        return wrap_kind(np.diag(_raw(v), k).copy(), v)
    raise ValueError('Input must be 1- or 2-d.')


def wrap_kind(r, src):
    r = wrap(r)
    if isinstance(r, VArr) and _isobj(r):
        r._kind = getattr(src, '_kind', 'f') or 'f'
    return r


def diagflat(v, k=0): return diag(asarray(v).reshape(-1), k)


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    for _ in range(n):
        m = np.moveaxis(a, axis, 0) if a.ndim > 1 else a
        r = m[1:] - m[:-1]
        a = np.moveaxis(r, 0, axis) if a.ndim > 1 else r
    return a


def np_put(a, ind, v, mode='raise'):
    ind = np.atleast_1d(_raw(asarray(ind)))
    if ind.size == 0:
        return
    v = asarray(v).reshape(-1)
    flat = a.reshape(-1)
    n = a.size
    for k, i in enumerate(ind.reshape(-1)):
        val = v[k % len(v)]
        a[np.unravel_index(int(i) % n if int(i) < 0 else int(i), a.shape)] = val


def average(a, axis=None, weights=None, returned=False, **k):
    a = asarray(a)
    if weights is None:
        return _tof(a).mean(axis=axis)
    w = asarray(weights)
    return _sum(a * w, axis) / _sum(w, axis)


def median(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('median axis')
    s = np_sort(asarray(a).reshape(-1))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np_all(isclose(a, b, rtol, atol)))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = (x if isinstance(x, (np.ndarray, Sym)) else asarray(x) for x in (a, b))
    return np.less_equal(np.absolute(a - b), liftx(atol) + liftx(rtol) * np.absolute(b) if isinstance(b, Sym) else np.absolute(b) * liftx(rtol) + liftx(atol))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np_all(a == b))


def npsqrt(x):
    if isinstance(x, (Sym, int, float, Fraction)):
        return S.sqrt(lift(x))
    return np.sqrt(x)


def PI():
    return Sym.var('pi', pos=True)


def trace(a, offset=0, *r, **k):
    a = asarray(a)
    d = np.diagonal(_raw(a), offset)
    return _sum(wrap(d.copy()))


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp with a period')
    xp, fp = _raw(_tof(asarray(xp))), _raw(_tof(asarray(fp)))
    left = fp[0] if left is None else liftx(left)
    right = fp[-1] if right is None else liftx(right)

    def one(v):
        v = liftx(v)
        if bool(v < xp[0]):
            return left
        if bool(v > xp[-1]):
            return right
        for j in range(len(xp) - 1):
            if bool(v < xp[j + 1]):
                return fp[j] + (fp[j + 1] - fp[j]) * S.div(v - xp[j], xp[j + 1] - xp[j])
        return fp[-1]
    return _elementwise(one, x) if isinstance(x, (np.ndarray, list, tuple)) else one(x)


def bincount(x, weights=None, minlength=0):
    idx = [int(i) for i in _raw(asarray(x)).reshape(-1)]
    if any(i < 0 for i in idx):
        raise ValueError("'list' argument must have no negative elements")
    n = builtins.max([int(minlength)] + [i + 1 for i in idx])
    if weights is None:
        return wrap(np.bincount(idx, minlength=int(minlength)) if idx else np.zeros(n, dtype=int))
    w = _raw(_tof(asarray(weights))).reshape(-1)
    if len(w) != len(idx):
        raise ValueError('The weights and list don\'t have the same length.')
    out = np.empty(n, dtype=object)
    out[...] = S.ZERO()
    for i, v in zip(idx, w):
        out[i] = out[i] + v
    return mk(out)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported('np.cov with weights')
    X = atleast_2d(_tof(asarray(m)))
    if not rowvar and X.shape[0] != 1:
        X = X.T
    ddof = (0 if bias else 1) if ddof is None else ddof
    X = X - X.mean(axis=1, keepdims=True)
    r = dot(X, X.T) / (X.shape[1] - ddof)
    return r[0, 0] if r.size == 1 else r


def select(condlist, choicelist, default=0):
    r = asarray(default)
    for c, v in zip(condlist[::-1], choicelist[::-1]):
        r = np_where(c, v, r)
    return r


def np_roll(x, axes, sign):
    x = asarray(x)
    axes = range(x.ndim) if axes is None else ([axes] if isinstance(axes, (int, np.integer)) else axes)
    for a in axes:
        n = x.shape[a]
        x = wrap_kind(np.roll(_raw(x), sign * (n // 2) if sign > 0 else -(n // 2), axis=a), x)
    return x


def moveaxis(a, s, d):
    return wrap_kind(np.moveaxis(_raw(asarray(a)), s, d), asarray(a))


def masked_where(cond, a):
    raise Unsupported('numpy.ma masks')


def triu(m, k=0):
    m = asarray(m)
    r = m.copy()
    for i in range(m.shape[-2]):
        for j in range(m.shape[-1]):
            if j - i < k:
                r[..., i, j] = 0
    return r


def tril(m, k=0):
    m = asarray(m)
    r = m.copy()
    for i in range(m.shape[-2]):
        for j in range(m.shape[-1]):
            if j - i > k:
                r[..., i, j] = 0
    return r


def tri(N, M=None, k=0, dtype='f8'):
    return tril(ones((N, M or N), dtype), k)


def nditer(a, *args, **k):
    a = asarray(a)
    out = []
    raw = _raw(a)
    if raw.size == 0:
        raise ValueError('Iteration of zero-sized operands is not enabled')
    order = k.get('order', 'K')           # by default in the order of memory
    for x in np.nditer(raw, flags=['refs_ok'], order=order):
        x = x.item() if raw.dtype == object else x[()]
        if isinstance(x, (Sym, SymBool)):
            out.append(x)
        else:
            out.append(np.asarray(x))
    return iter(out)


def vectorize(f, otypes=None, **k):
    def g(*args):
        arrs = [asarray(x) for x in args]
        b = np.broadcast(*[_raw(a) for a in arrs]) if len(arrs) > 1 else None
        shape = b.shape if b is not None else arrs[0].shape
        bc = [np.broadcast_to(_raw(a), shape) for a in arrs]
        vals = [f(*[x[ix] for x in bc]) for ix in np.ndindex(*shape)]
        return array(vals, dtype='f8').reshape(shape) if vals else zeros(shape)
    return g


def apply_along_axis(f, axis, arr, *a, **k):
    arr = asarray(arr)
    m = np.moveaxis(_raw(arr), axis, -1)
    res = [f(mk(m[ix].copy()), *a, **k) for ix in np.ndindex(*m.shape[:-1])]
    r = array(res)
    r = r.reshape(m.shape[:-1] + r.shape[1:])
    return wrap(np.moveaxis(_raw(r), -1, axis)) if isinstance(res[0], np.ndarray) else r


def pad(a, pad_width, mode='constant', constant_values=0, **k):
    a = asarray(a)
    if mode != 'constant':
        pos = np.pad(np.arange(a.size).reshape(a.shape), _raw(pad_width) if isinstance(pad_width, np.ndarray) else pad_width,
                     mode=mode, **k) if mode in ('edge', 'wrap', 'reflect', 'symmetric') and not k else None
        if pos is None:
            raise Unsupported('np.pad mode %s' % (mode,))
        return wrap_kind(_raw(a).reshape(-1)[pos], a)
    if isinstance(pad_width, (int, np.integer)):
        pw = [(pad_width, pad_width)] * a.ndim
    else:
        pw = [tuple(p) if isinstance(p, (tuple, list, np.ndarray)) else None for p in pad_width]
        if None in pw:
            pw = [tuple(pad_width)] * a.ndim
        elif len(pw) == 1:
            pw = pw * a.ndim
    shape = [int(n + p[0] + p[1]) for n, p in zip(a.shape, pw)]
    r = full(shape, constant_values, dtype='f8' if _issymb(a) else _cdt(a))
    r[tuple(slice(int(p[0]), int(p[0]) + n) for p, n in zip(pw, a.shape))] = a
    return r


def convolve(a, v, mode='full'):
    a, v = asarray(a), asarray(v)
    n, m = len(a), len(v)
    full_ = [_sum(array([a[i] * v[k - i] for i in range(max(0, k - m + 1), min(n, k + 1))])) for k in range(n + m - 1)]
    if mode == 'full':
        return array(full_)
    if mode == 'same':
        s = (min(n, m) - 1) // 2
        return array(full_[s:s + max(n, m)])
    return array(full_[min(n, m) - 1:max(n, m)])


def correlate(a, v, mode='valid'):
    return convolve(a, asarray(v)[::-1], mode)


def result_type(*args):
    ks = set()
    for a in args:
        if isinstance(a, (np.ndarray, Sym, int, float)):
            ks.add(_kind_of(a))
        else:
            d = ndt(a)
            ks.add('f' if d == 'f' else {'i': 'i', 'u': 'i', 'b': 'b'}.get(d.kind, 'f'))
    if 'f' in ks:
        return F64
    return I64 if 'i' in ks else BOOL


def asscalar(a): return asarray(a).item()
def isscalar(x): return isinstance(x, (Sym, SymBool)) or np.isscalar(x)
def iscomplexobj(x): return not isinstance(x, np.ndarray) and type(x).__name__ in ('Spectrum', 'CArr') and not getattr(x, 'isreal', False)
def isrealobj(x): return not iscomplexobj(x)
def isreal(x): return np.ones(np.shape(x), dtype=bool)
def np_real(x): return x.real if type(x).__name__ in ('Spectrum', 'CArr') else x
def np_imag(x): return x.imag if type(x).__name__ in ('Spectrum', 'CArr') else zeros_like(x)
def nan_to_num(x, *a, **k): return asarray(x).copy() if isinstance(x, np.ndarray) else x


class _Finfo:
    eps = Fraction(1, 2 ** 52)
    tiny = 2.2250738585072014e-308
    max = 1.7976931348623157e308
    min = -1.7976931348623157e308
    resolution = 1e-15


def finfo(*a):
    f = _Finfo()
    f.eps = Sym.const(Fraction(1, 2 ** 52))
    f.tiny = Sym.const(Fraction(2.2250738585072014e-308))
    f.max = Sym.const(int(1.7976931348623157e308))
    f.min = Sym.const(-int(1.7976931348623157e308))
    f.resolution = Sym.const(Fraction(1, 10 ** 15))
    return f


class _FUfunc:
    """A ufunc as seen by the analysed code."""
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        out = kw.pop('out', None)
        n = self._u.nin
        if len(args) > n:
            out = args[n]
            args = args[:n]
        from . import fft as _fft
        if any(isinstance(a, (_fft.Spectrum, _fft.CArr)) for a in args):
            return _fft.spec_ufunc(self._u.__name__, args, out)
        args = [a if not isinstance(a, (list, tuple)) else asarray(a) for a in args]
        r = _ufunc(self._u, '__call__', args, out, kw)
        if isinstance(r, bool):
            return np.bool_(r)
        return r

    def reduce(self, a, axis=0, **kw):
        out = kw.pop('out', None)
        return _ufunc(self._u, 'reduce', (a,), out, dict(kw, axis=axis))

    def accumulate(self, a, axis=0, **kw):
        out = kw.pop('out', None)
        return _ufunc(self._u, 'accumulate', (a,), out, dict(kw, axis=axis))

    def reduceat(self, a, indices, axis=0, **kw):
        return _ufunc(self._u, 'reduceat', (a, indices), kw.pop('out', None), dict(axis=axis))

    def outer(self, a, b, **kw):
        return _ufunc(self._u, 'outer', (a, b), kw.pop('out', None), kw)

    def at(self, a, idx, *b):
        return _ufunc(self._u, 'at', (a, idx) + b, None, {})

    def __getattr__(self, k):
        return getattr(self._u, k)


class _Generic:
    def __init__(self, f, name):
        self.f = f
        self.__name__ = name

    def __call__(self, *a, **k):
        kind = None
        for x in a:
            if isinstance(x, VArr) and _isobj(x):
                kind = x._kind
        from .fsparse import FSparse
        from . import fft as _fft
        if any(isinstance(x, (FSparse, _fft.Spectrum, _fft.CArr)) for x in a):
            raise Unsupported('numpy.%s on sparse/spectrum' % self.__name__)
        if 'dtype' in k:
            d = ndt(k['dtype'])
            k['dtype'] = object if d == 'f' else d
        r = self.f(*_strip(a), **_strip(k))
        r = wrap(r)
        if kind in ('i', 'b') and isinstance(r, VArr) and _isobj(r):
            r._kind = kind
        return r


_OVERRIDE = {
    'array': array, 'asarray': asarray, 'asanyarray': asanyarray, 'asarray_chkfinite': asarray_chkfinite,
    'ascontiguousarray': ascontiguousarray, 'asfortranarray': asfortranarray, 'require': require,
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full, 'zeros_like': zeros_like,
    'ones_like': ones_like, 'empty_like': empty_like, 'full_like': full_like, 'identity': identity,
    'eye': eye, 'copy': np_copy, 'fromiter': fromiter, 'arange': arange, 'linspace': linspace,
    'logspace': logspace, 'dot': dot, 'matmul': matmul, 'tensordot': tensordot, 'inner': inner,
    'vdot': vdot, 'outer': outer, 'kron': kron, 'einsum': einsum, 'any': np_any, 'all': np_all,
    'alltrue': np_all, 'sometrue': np_any,
    'where': np_where, 'nonzero': lambda a: nonzero(asarray(a)), 'flatnonzero': flatnonzero, 'argwhere': argwhere,
    'count_nonzero': count_nonzero, 'clip': clip, 'sort': np_sort, 'argsort': argsort,
    'searchsorted': searchsorted, 'digitize': digitize, 'unique': unique, 'repeat': repeat,
    'concatenate': concatenate, 'vstack': vstack, 'row_stack': vstack, 'hstack': hstack, 'dstack': dstack, 'stack': stack,
    'column_stack': column_stack, 'append': append, 'block': block, 'atleast_1d': atleast_1d,
    'atleast_2d': atleast_2d, 'diag': diag, 'diagflat': diagflat, 'diff': diff, 'put': np_put,
    'average': average, 'median': median, 'allclose': allclose, 'isclose': isclose,
    'array_equal': array_equal, 'trace': trace, 'interp': interp, 'triu': triu, 'tril': tril, 'tri': tri,
    'nditer': nditer, 'vectorize': vectorize, 'apply_along_axis': apply_along_axis, 'pad': pad,
    'convolve': convolve, 'correlate': correlate, 'result_type': result_type, 'finfo': finfo,
    'asscalar': asscalar, 'isscalar': isscalar, 'iscomplexobj': iscomplexobj, 'isrealobj': isrealobj,
    'isreal': isreal, 'real': np_real, 'imag': np_imag, 'bincount': bincount, 'cov': cov, 'select': select, 'nan_to_num': nan_to_num,
    'sum': lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        builtins.sum(a) if isinstance(a, types.GeneratorType) else _setout(_sum(a, axis, keepdims), out),
    'prod': lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _tovarr(a).prod(axis=axis, keepdims=keepdims),
    'product': lambda a, axis=None, **k: _tovarr(a).prod(axis=axis),
    'mean': lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _tof(a).mean(axis=axis, keepdims=keepdims),
    'std': lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _tof(a).std(axis=axis, ddof=ddof, keepdims=keepdims),
    'var': lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _tof(a).var(axis=axis, ddof=ddof, keepdims=keepdims),
    'min': lambda a, axis=None, **k: _tovarr(a).min(axis=axis, **k), 'amin': lambda a, axis=None, **k: _tovarr(a).min(axis=axis, **k),
    'max': lambda a, axis=None, **k: _tovarr(a).max(axis=axis, **k), 'amax': lambda a, axis=None, **k: _tovarr(a).max(axis=axis, **k),
    'ptp': lambda a, axis=None: _tovarr(a).ptp(axis=axis),
    'argmin': lambda a, axis=None, **k: _tovarr(a).argmin(axis), 'argmax': lambda a, axis=None, **k: _tovarr(a).argmax(axis),
    'cumsum': lambda a, axis=None, **k: _tovarr(a).cumsum(axis=axis), 'cumprod': lambda a, axis=None, **k: _tovarr(a).cumprod(axis=axis),
    'round': lambda a, decimals=0, **k: _tovarr(a).round(decimals) if isinstance(a, (np.ndarray, list)) else round(lift(a), decimals),
    'around': lambda a, decimals=0, **k: _tovarr(a).round(decimals) if isinstance(a, (np.ndarray, list)) else round(lift(a), decimals),
    'abs': None, 'array2string': lambda *a, **k: 'array', 'array_str': lambda *a, **k: 'array', 'array_repr': lambda *a, **k: 'array',
    'nanmin': lambda a, axis=None, **k: _tovarr(a).min(axis=axis), 'nanmax': lambda a, axis=None, **k: _tovarr(a).max(axis=axis),
    'nansum': lambda a, axis=None, **k: _sum(a, axis), 'nanmean': lambda a, axis=None, **k: _tof(a).mean(axis=axis),
    'nanstd': lambda a, axis=None, **k: _tof(a).std(axis=axis),
}


def _tovarr(a):
    a = a if isinstance(a, np.ndarray) else asarray(a)
    if not isinstance(a, VArr):
        a = wrap(a)
    return a


_FUNCS = {}


def _install_funcs():
    for k, v in list(_OVERRIDE.items()):
        real = getattr(np, k, None)
        if v is not None and callable(real) and not isinstance(real, type):
            _FUNCS[real] = v
    for k in ('zeros', 'ones', 'empty', 'array', 'asarray', 'arange', 'asanyarray', 'fromiter'):
        _FUNCS.pop(getattr(np, k), None)


_install_funcs()


class _MaskedArrayModule:
    """numpy.ma as used for masked_invalid: symbolic reals are all valid."""
    @staticmethod
    def masked_invalid(a, copy=True):
        r = _tof(a)
        for x in _raw(r).reshape(-1):
            if x is S.NAN:
                raise Unsupported('masked nan')
        return r

    def __getattr__(self, k):
        raise Unsupported('numpy.ma.' + k)


class _StrideTricks:
    @staticmethod
    def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
        x = x if isinstance(x, np.ndarray) else asarray(x)        # entries are 8 bytes here as well
        return wrap_kind(np.lib.stride_tricks.as_strided(_raw(x), shape, strides), x)

    @staticmethod
    def sliding_window_view(x, window_shape, axis=None, **k):
        x = x if isinstance(x, np.ndarray) else asarray(x)
        return wrap_kind(np.lib.stride_tricks.sliding_window_view(_raw(x), window_shape, axis), x)


class NumpyFacade(types.ModuleType):
    def __init__(self, fft, linalg, random):
        super().__init__('numpy')
        self.__dict__.update(dict(
            fft=fft, linalg=linalg, random=random, ma=_MaskedArrayModule(), ndarray=symndarray,
            newaxis=None, inf=np.inf, Inf=np.inf, PINF=np.inf, NINF=-np.inf, nan=np.nan, NaN=np.nan,
            float64=np.float64, float32=np.float32, int64=np.int64, int32=np.int32, intp=np.intp,
            bool_=np.bool_, int=builtins.int, float=symfloat, bool=builtins.bool, object=builtins.object,
            lib=types.SimpleNamespace(stride_tricks=_StrideTricks),
            double=np.float64, __version__=np.__version__, e=None,
            s_=np.s_, r_=_RC(0), c_=_RC(1), index_exp=np.index_exp, mgrid=np.mgrid, ogrid=np.ogrid))
        self.__path__ = []

    def __getattr__(self, k):
        if k == 'pi':
            return PI()
        if k == 'e':
            return S.exp(S.ONE())
        if k == 'abs':
            k = 'absolute'
        v = _OVERRIDE.get(k)
        if v is not None:
            self.__dict__[k] = v
            return v
        real = getattr(np, k)      # AttributeError as in numpy
        if isinstance(real, np.ufunc):
            v = _FUfunc(real)
        elif isinstance(real, type) or isinstance(real, types.ModuleType):
            if isinstance(real, types.ModuleType) and k not in ('testing',):
                raise Unsupported('numpy.' + k)
            v = real
        elif callable(real):
            v = _Generic(real, k)
        else:
            v = real
        self.__dict__[k] = v
        return v


class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for x in key:
            if isinstance(x, slice):
                parts.append(arange(x.start or 0, x.stop, x.step or 1))
            elif isinstance(x, np.ndarray):
                parts.append(x)
            else:
                parts.append(atleast_1d(x))
        if self.axis == 1:
            return column_stack(parts)
        return concatenate(parts)
