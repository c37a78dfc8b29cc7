"""scipy facades.  Factorisations and solvers are replaced by their contracts:
the inverse of K is a fresh symmetric matrix keyed by the (canonical) entries of
K, the upper Cholesky factor a fresh upper triangle with positive diagonal."""
import numpy as np

from . import sym as S
from . import fnp
from . import fsparse
from .sym import Sym, SymBool, Unsupported

LinAlgError = np.linalg.LinAlgError


class Contracts:
    """Per-exploration-path registry of inverted/factorised matrices."""

    def __init__(self):
        self.inv = {}
        self.chol = {}
        self.byname = {}
        self.log = []

    def key(self, K):
        K = fnp._raw(fnp._tof(K))
        if K.ndim != 2 or K.shape[0] != K.shape[1]:
            raise ValueError('expected square matrix')
        return K.shape + tuple(S.p_key(x.poly) for x in K.reshape(-1)), K

    def inverse(self, K):
        k, K = self.key(K)
        V = self.inv.get(k)
        if V is None:
            n = K.shape[0]
            t = len(self.inv)
            sym = all(K[i, j].poly == K[j, i].poly for i in range(n) for j in range(i))
            V = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    a, b = (i, j) if (i <= j or not sym) else (j, i)
                    V[i, j] = Sym.var('inv%d[%d,%d]' % (t, a, b))
                    if i == j and sym:
                        S.W.atoms[('var', 'inv%d[%d,%d]' % (t, a, b))].pos = False
            self.inv[k] = V
            self.log.append((V, K))
        return V

    def cholesky(self, K):
        k, K = self.key(K)
        C = self.chol.get(k)
        if C is None:
            n = K.shape[0]
            t = len(self.chol)
            C = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    if i == j:
                        C[i, j] = Sym.var('chol%d[%d,%d]' % (t, i, j), pos=True)
                    elif i < j:
                        C[i, j] = Sym.var('chol%d[%d,%d]' % (t, i, j))
                    else:
                        C[i, j] = S.ZERO()
            self.chol[k] = C
            self.byname[C[0, 0].id if n else None] = (C, K)
        return C

    def of_factor(self, C):
        C = fnp._raw(fnp._tof(C))
        ent = self.byname.get(C[0, 0].id if C.size else None)
        if ent is None or ent[0].shape != C.shape:
            raise Unsupported('solve with an unknown factor')
        return ent, C


CON = Contracts()


def reset_contracts():
    global CON
    CON = Contracts()


def _apply(V, b):
    b = fnp._tof(fnp.asarray(b))
    if b.shape[0] != V.shape[0]:
        raise ValueError('incompatible dimensions')
    return fnp.dot(fnp.mk(V.copy()), b)


# ------------------------------------------------------------ scipy.linalg

def toeplitz(c, r=None):
    c = fnp._tof(fnp.asarray(c)).reshape(-1)
    r = c if r is None else fnp._tof(fnp.asarray(r)).reshape(-1)
    n, m = len(c), len(r)
    cr, rr = fnp._raw(c), fnp._raw(r)
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = cr[i - j] if i >= j else rr[j - i]
    return fnp.mk(out)


def circulant(c):
    c = fnp._raw(fnp._tof(fnp.asarray(c)).reshape(-1))
    n = len(c)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = c[(i - j) % n]
    return fnp.mk(out)


def matmul_toeplitz(c_or_cr, x, check_finite=False, workers=None):
    T = toeplitz(*c_or_cr) if isinstance(c_or_cr, tuple) else toeplitz(c_or_cr)
    return T.dot(x)


def block_diag(*arrs):
    arrs = [fnp.atleast_2d(a) for a in arrs]
    n, m = sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)
    out = fnp.zeros((n, m))
    r = c = 0
    for a in arrs:
        out[r:r + a.shape[0], c:c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


def norm(a, ord=None, axis=None, keepdims=False, check_finite=True):
    a = fnp._tof(fnp.asarray(a))
    if axis is None and (ord is None or a.ndim == 1):
        v = a.reshape(-1)
        if a.ndim > 1 and ord is not None:
            raise Unsupported('norm')
        return _vnorm(v, ord)
    if axis is None and a.ndim == 2:
        if ord == 1:
            return fnp.mk(np.array(list(fnp._raw(np.absolute(a).sum(axis=0))), dtype=object)).max()
        if ord == np.inf:
            return np.absolute(a).sum(axis=1).max()
        if ord == 'fro':
            return _vnorm(a.reshape(-1), None)
        raise Unsupported('matrix norm %r' % (ord,))
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported('norm over two axes')
    raw = np.moveaxis(fnp._raw(a), axis, -1)
    out = np.empty(raw.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = _vnorm(fnp.mk(raw[ix].copy()), ord)
    r = fnp.mk(out)
    return fnp.mk(np.expand_dims(out, axis)) if keepdims else r


def _vnorm(v, ord):
    raw = fnp._raw(v).reshape(-1)
    if ord is None or ord == 2 or ord == 'fro':
        s = S.ZERO()
        nz = [x for x in raw if not (x.c is not None and x.c == 0)]
        if len(nz) == 1:
            return S.sabs(nz[0])
        for x in nz:
            s = s + x * x
        return S.Sym.mk('sqrt', s) if s.c is None else S.sqrt(s)
    if ord == np.inf:
        r = None
        for x in raw:
            y = S.sabs(x)
            r = y if r is None else S.smax(r, y)
        if r is None:
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
        return r
    if ord == 1:
        s = S.ZERO()
        for x in raw:
            s = s + S.sabs(x)
        return s
    raise Unsupported('norm order %r' % (ord,))


def eigvalsh(a, *args, **kw):
    A = fnp._raw(fnp._tof(fnp.asarray(a)))
    if args or kw or A.ndim != 2 or A.shape[0] != A.shape[1] or not 1 <= A.shape[0] <= 2:
        raise Unsupported('eigvalsh of order > 2')
    if A.shape[0] == 1:
        out = [A[0, 0]]
    else:
        a, b, d = A[0, 0], A[1, 0], A[1, 1]
        r = S.sabs(b) if a is d else S.sqrt((a - d) * (a - d) / 4 + b * b)
        out = [(a + d) / 2 - r, (a + d) / 2 + r]
    v = np.empty(len(out), dtype=object)
    v[:] = out
    return fnp.mk(v)


def _overwritten(a, v):
    """LAPACK works in place on a Fortran-contiguous double array it may overwrite"""
    if isinstance(a, fnp.VArr) and a._kind == 'f' and np.ndarray.view(a, np.ndarray).flags.f_contiguous:
        fnp.VArr.__setitem__(a, Ellipsis, v)


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    C = CON.cholesky(a)
    if overwrite_a:
        A = np.ndarray.view(a, np.ndarray) if isinstance(a, np.ndarray) else None
        if A is not None and A.flags.f_contiguous:
            F = C.T if lower else C
            n = len(F)
            keep = np.array([[F[i, j] if ((j <= i) if lower else (j >= i)) else A[i, j] for j in range(n)] for i in range(n)],
                            dtype=object).reshape(n, n)
            _overwritten(a, fnp.mk(keep))
    return (fnp.mk(C.T.copy() if lower else C.copy()), lower)


def cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    C = CON.cholesky(a)
    return fnp.mk(C.T.copy() if lower else C.copy())


def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    (C, K), c = CON.of_factor(c)
    want = C.T if lower else C
    n = c.shape[0]
    for i in range(n):
        for j in range(n):
            if (j <= i) if lower else (j >= i):
                if c[i, j] is not want[i, j] and c[i, j].poly != want[i, j].poly:
                    raise Unsupported('cho_solve with the other triangle')
    x = _apply(CON.inverse(K), b)
    if overwrite_b:
        _overwritten(b, x)
    return x


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    C = fnp._raw(fnp._tof(fnp.asarray(a)))
    n = C.shape[0]
    if trans in (1, 'T', 2, 'C'):
        C, lower = C.T, not lower
    B = fnp._raw(fnp._tof(fnp.asarray(b)))
    if B.shape[0] != n:
        raise ValueError('shapes of a %s and b %s are incompatible' % (C.shape, B.shape))
    X = np.empty(B.shape, dtype=object)
    for i in (range(n) if lower else reversed(range(n))):
        acc = B[i]
        for j in (range(i) if lower else range(i + 1, n)):
            acc = acc - C[i, j] * X[j]
        X[i] = acc if unit_diagonal else (np.frompyfunc(lambda v: S.div(v, C[i, i]), 1, 1)(acc) if B.ndim > 1 else S.div(acc, C[i, i]))
    return fnp.mk(X)


def hankel(c, r=None):
    c = fnp._raw(fnp._tof(fnp.asarray(c))).reshape(-1)
    r = [S.ZERO()] * len(c) if r is None else list(fnp._raw(fnp._tof(fnp.asarray(r))).reshape(-1))
    v = list(c) + list(r[1:])
    out = np.empty((len(c), len(r)), dtype=object)
    for i in range(len(c)):
        for j in range(len(r)):
            out[i, j] = v[i + j]
    return fnp.mk(out)


def matrix_power(a, n):
    a = fnp.asarray(a)
    if n < 0:
        a, n = inv(a), -n
    r = fnp.eye(a.shape[0])
    for _ in range(int(n)):
        r = fnp.dot(r, a)
    return r


def multi_dot(arrays, **k):
    r = arrays[0]
    for x in arrays[1:]:
        r = fnp.dot(r, x)
    return r


def convolve(a, v, mode='full', method='auto'):
    a, v = fnp.asarray(a), fnp.asarray(v)
    if a.ndim == 1:
        if mode == 'same' and len(v) > len(a):
            f = fnp.convolve(a, v, 'full')
            s = (len(v) - 1) // 2
            return f[s:s + len(a)]
        return fnp.convolve(a, v, mode)
    if mode != 'full' or a.ndim != 2:
        raise Unsupported('signal.convolve')
    A, V = fnp._raw(fnp._tof(a)), fnp._raw(fnp._tof(v))
    out = np.empty((A.shape[0] + V.shape[0] - 1, A.shape[1] + V.shape[1] - 1), dtype=object)
    out[...] = S.ZERO()
    for i, j in np.ndindex(*A.shape):
        for k, l in np.ndindex(*V.shape):
            out[i + k, j + l] = out[i + k, j + l] + A[i, j] * V[k, l]
    return fnp.mk(out)


def solve(a, b, *args, **k): return _apply(CON.inverse(a), b)
def inv(a, *args, **k): return fnp.mk(CON.inverse(a).copy())
pinv = pinvh = inv
def solve_toeplitz(c_or_cr, b, check_finite=True):
    T = toeplitz(*c_or_cr) if isinstance(c_or_cr, tuple) else toeplitz(c_or_cr)
    return _apply(CON.inverse(T), b)


def logdet_sym(a):
    C = CON.cholesky(a)
    s = S.ZERO()
    for i in range(C.shape[0]):
        s = s + S.log(C[i, i])
    return s * 2


def slogdet(a): return (S.ONE(), logdet_sym(a))


def det(a, *r, **k):
    a = fnp._raw(fnp._tof(fnp.asarray(a)))
    n = a.shape[0]

    def rec(rows, cols):
        if not rows:
            return S.ONE()
        t = S.ZERO()
        i = rows[0]
        sg = 1
        for k, j in enumerate(cols):
            t = t + a[i, j] * rec(rows[1:], cols[:k] + cols[k + 1:]) * sg
            sg = -sg
        return t
    if n > 5:
        raise Unsupported('determinant of order %d' % n)
    return rec(tuple(range(n)), tuple(range(n)))


def kron(a, b): return fnp.kron(a, b)


# ------------------------------------------------------------ scipy.sparse.linalg

class LinearOperator:
    def __init__(self, shape=None, matvec=None, rmatvec=None, matmat=None, dtype=None, rmatmat=None, **k):
        self.shape = tuple(shape)
        self.dtype = dtype
        self._mv = matvec
        self._mm = matmat
        self._rmv = rmatvec
        self.ndim = 2

    def matvec(self, x):
        x = fnp.asanyarray(x)
        M, N = self.shape
        if x.shape != (N,) and x.shape != (N, 1):
            raise ValueError('dimension mismatch')
        y = fnp.asarray(self._mv(x))
        return y.reshape(M) if x.ndim == 1 else y.reshape(M, 1)

    def rmatvec(self, x):
        if self._rmv is None:
            raise NotImplementedError('rmatvec is not defined')
        return fnp.asarray(self._rmv(x))

    def matmat(self, X):
        X = fnp.asanyarray(X)
        if X.ndim != 2:
            raise ValueError('expected 2-d ndarray or matrix')
        if X.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        if self._mm is not None:
            return fnp.asarray(self._mm(X))
        return fnp.hstack([self.matvec(c.reshape(-1, 1)) for c in X.T])

    def dot(self, x):
        x = fnp.asarray(x)
        return self.matvec(x) if x.ndim == 1 or (x.ndim == 2 and x.shape[1] == 1) else self.matmat(x)
    __matmul__ = dot
    __mul__ = dot
    __call__ = dot
    @property
    def T(self): raise Unsupported('LinearOperator.T')


def aslinearoperator(A):
    if isinstance(A, LinearOperator):
        return A
    if isinstance(A, fsparse.FSparse) or isinstance(A, np.ndarray):
        return LinearOperator(A.shape, matvec=A.dot, matmat=A.dot, dtype=np.float64)
    if hasattr(A, 'shape') and hasattr(A, 'matvec'):
        return LinearOperator(A.shape, matvec=A.matvec, matmat=getattr(A, 'matmat', None), dtype=getattr(A, 'dtype', None))
    raise TypeError('type not understood')


KRYLOV = [None]       # stub(method, A, b, **kw) -> (x, info)


def _krylov(name):
    def f(A, b, x0=None, **kw):
        if KRYLOV[0] is None:
            raise Unsupported('Krylov solver ' + name)
        return KRYLOV[0](name, A, b, x0=x0, **kw)
    f.__name__ = name
    return f


# ------------------------------------------------------------ scipy.spatial.distance

def cdist(XA, XB, metric='euclidean', **k):
    XA, XB = fnp._tof(fnp.asarray(XA)), fnp._tof(fnp.asarray(XB))
    if XA.ndim != 2:
        raise ValueError('XA must be a 2-dimensional array.')
    if XB.ndim != 2:
        raise ValueError('XB must be a 2-dimensional array.')
    if XA.shape[1] != XB.shape[1]:
        raise ValueError('XA and XB must have the same number of columns')
    a, b = fnp._raw(XA), fnp._raw(XB)
    out = np.empty((a.shape[0], b.shape[0]), dtype=object)
    if metric not in ('euclidean', 'sqeuclidean', 'cityblock'):
        raise Unsupported('metric %s' % metric)
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            d = [x - y for x, y in zip(a[i], b[j])]
            if metric == 'cityblock':
                out[i, j] = _vnorm(fnp.mk(np.array(d, dtype=object)), 1)
                continue
            if metric == 'euclidean':
                v = np.empty(len(d), dtype=object)
                v[:] = d
                out[i, j] = _vnorm(v, None)
            else:
                s = S.ZERO()
                for x in d:
                    s = s + x * x
                out[i, j] = s
    return fnp.mk(out)


def pdist(X, metric='euclidean', **k):
    D = fnp._raw(cdist(X, X, metric))
    n = D.shape[0]
    return fnp.asarray([D[i, j] for i in range(n) for j in range(i + 1, n)])


def squareform(v, *a, **k):
    v = fnp._raw(fnp.asarray(v))
    n = int(round((1 + (1 + 8 * len(v)) ** 0.5) / 2))
    out = fnp.zeros((n, n))
    it = iter(v)
    for i in range(n):
        for j in range(i + 1, n):
            x = next(it)
            out[i, j] = x
            out[j, i] = x
    return out


# ------------------------------------------------------------ special / stats

def _vec_uf(name):
    def f(x, *a):
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            return fnp.mk(fnp._raw(fnp._elementwise(lambda e: S.uf(name, fnp.liftx(e)), fnp._tof(fnp.asarray(x)))))
        return S.uf(name, S.lift(x))
    return f


gammaln = _vec_uf('gammaln')
digamma = _vec_uf('digamma')
_ppf = _vec_uf('normppf')


class _Norm:
    @staticmethod
    def ppf(q, loc=0, scale=1):
        return _ppf(q) * scale + loc
    @staticmethod
    def isf(q, loc=0, scale=1):
        return _ppf(1 - q if not isinstance(q, (list, tuple)) else 1 - fnp.asarray(q)) * scale + loc
    def __getattr__(self, k):
        raise Unsupported('scipy.stats.norm.' + k)


class _Trunc:
    """truncnorm: nondeterministic draws inside the support."""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def rvs(self, size=None, **k):
        if RNG[0] is None:
            raise Unsupported('random draw')
        return RNG[0].bounded('truncnorm', self.a, self.b, size)


class _TruncNorm:
    def __call__(self, a, b, *r, **k): return _Trunc(a, b)
    def rvs(self, a, b, size=None, **k): return _Trunc(a, b).rvs(size)


RNG = [None]
