"""scipy.sparse facade: csr/csc/coo matrices of symbolic reals."""
import numpy as np

from . import sym as S
from . import fnp
from .sym import Sym, SymBool, Unsupported

DROP = [True]      # drop computed zeros (as scipy does), forking on value == 0


def _iszero(x):
    if x.c is not None:
        return x.c == 0
    if not DROP[0]:
        return False
    r = x == 0
    return r if isinstance(r, bool) else bool(r)


def _ints(a):
    a = fnp._raw(fnp.asarray(a)).reshape(-1)
    return [int(x) for x in a]


def _iarr(l):
    return np.array(l, dtype=np.int64).view(fnp.VArr) if len(l) else np.zeros(0, dtype=np.int64).view(fnp.VArr)


def _darr(l):
    a = np.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        a[i] = x
    return fnp.mk(a)


def _shape2(s):
    s = tuple(int(x) for x in s)
    if len(s) != 2:
        raise TypeError('invalid input format')
    if min(s) < 0:
        raise ValueError("'shape' elements cannot be negative")
    return s


class FSparse:
    """format is csr or csc; arrays indptr/indices/data as in scipy."""
    __array_priority__ = 1500.0
    __array_ufunc__ = None

    def __init__(self, fmt, shape, indptr, indices, data):
        self.format = fmt
        self.shape = shape
        self.indptr = indptr
        self.indices = indices
        self.data = data

    # ---- construction
    @classmethod
    def triples(cls, fmt, shape, trip, sumdup=True, sort=True):
        """trip: iterable of (i, j, value) in row/col coordinates."""
        maj = 0 if fmt == 'csr' else 1
        n = shape[maj]
        rows = [[] for _ in range(n)]
        for t in trip:
            i, j, v = t
            if not (0 <= i < shape[0] and 0 <= j < shape[1]):
                raise ValueError('%s index exceeds matrix dimensions' % ('row' if not 0 <= i < shape[0] else 'column'))
            rows[t[maj]].append((t[1 - maj], v))
        indptr, idx, dat = [0], [], []
        for r in rows:
            if sort:
                r = sorted(r, key=lambda x: x[0])
            if sumdup:
                out = []
                pos = {}
                for j, v in r:
                    if j in pos:
                        out[pos[j]][1] = out[pos[j]][1] + v
                    else:
                        pos[j] = len(out)
                        out.append([j, v])
                r = out
            for j, v in r:
                idx.append(j)
                dat.append(v)
            indptr.append(len(idx))
        return cls(fmt, shape, _iarr(indptr), _iarr(idx), _darr(dat))

    def items(self):
        """(i, j, v) in storage order."""
        ip = [int(x) for x in self.indptr]
        ix = [int(x) for x in self.indices]
        dat = list(fnp._raw(self.data))
        out = []
        for r in range(len(ip) - 1):
            for k in range(ip[r], ip[r + 1]):
                i, j = (r, ix[k]) if self.format == 'csr' else (ix[k], r)
                if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
                    raise IndexError('sparse index out of range: memory corruption in scipy')
                out.append((i, j, dat[k]))
        return out

    @property
    def nnz(self): return int(self.indptr[-1])
    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        c = [0] * self.shape[1 - axis]
        for i, j, _ in self.items():
            c[(i, j)[1 - axis]] += 1
        return _iarr(c)
    @property
    def size(self): return self.nnz
    @property
    def ndim(self): return 2
    @property
    def dtype(self): return np.dtype('float64')
    def __len__(self): raise TypeError('sparse matrix length is ambiguous; use getnnz() or shape[0]')
    def get_shape(self): return self.shape

    def copy(self): return FSparse(self.format, self.shape, self.indptr.copy(), self.indices.copy(), self.data.copy())
    def asformat(self, f, copy=False):
        if f is None or f == self.format:
            return self
        if f not in ('csr', 'csc', 'coo'):
            raise Unsupported('sparse format ' + str(f))
        if f == 'coo':
            return self
        return FSparse.triples(f, self.shape, self.items(), sumdup=False, sort=True)
    def tocsr(self, copy=False): return self.asformat('csr')
    def tocsc(self, copy=False): return self.asformat('csc')
    def tocoo(self, copy=True):
        r = self.copy()
        return r
    @property
    def row(self): return _iarr([t[0] for t in self.items()])
    @property
    def col(self): return _iarr([t[1] for t in self.items()])
    def astype(self, dt, **k):
        fnp.ndt(dt)
        return self
    def sum_duplicates(self):
        r = FSparse.triples(self.format, self.shape, self.items())
        self.indptr, self.indices, self.data = r.indptr, r.indices, r.data
    def sort_indices(self):
        r = FSparse.triples(self.format, self.shape, self.items(), sumdup=False)
        self.indptr, self.indices, self.data = r.indptr, r.indices, r.data
    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r
    def eliminate_zeros(self):
        r = FSparse.triples(self.format, self.shape, [t for t in self.items() if not _iszero(t[2])], sumdup=False, sort=False)
        self.indptr, self.indices, self.data = r.indptr, r.indices, r.data

    def transpose(self, *a, **k):
        return FSparse('csc' if self.format == 'csr' else 'csr', self.shape[::-1],
                       self.indptr.copy(), self.indices.copy(), self.data.copy())
    @property
    def T(self): return self.transpose()

    def toarray(self, *a, **k):
        out = np.empty(self.shape, dtype=object)
        out[...] = S.ZERO()
        for i, j, v in self.items():
            out[i, j] = out[i, j] + v
        return fnp.mk(out)
    todense = toarray
    @property
    def A(self): return self.toarray()

    # ---- algebra
    def _binop(self, o, sign):
        if isinstance(o, (int, float, Sym)) and not isinstance(o, bool):
            if S.lift(o).c == 0:
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        if isinstance(o, np.ndarray):
            return self.toarray() + (o if sign > 0 else -o)
        if not isinstance(o, FSparse):
            return NotImplemented
        if o.shape != self.shape:
            raise ValueError('inconsistent shapes')
        trip = self.items() + [(i, j, v if sign > 0 else -v) for i, j, v in o.asformat(self.format).items()]
        m = FSparse.triples(self.format, self.shape, trip)
        m.eliminate_zeros()
        return m

    def __add__(self, o): return self._binop(o, 1)
    def __radd__(self, o): return self._binop(o, 1)
    def __sub__(self, o): return self._binop(o, -1)
    def __neg__(self): return FSparse(self.format, self.shape, self.indptr.copy(), self.indices.copy(), -self.data)

    def _scale(self, o):
        return FSparse(self.format, self.shape, self.indptr.copy(), self.indices.copy(), self.data * o)

    def __truediv__(self, o): return self._scale(1 / S.lift(o))

    def dot(self, o):
        if isinstance(o, FSparse):
            return self._spdot(o)
        if isinstance(o, (int, float, Sym)):
            return self._scale(o)
        if isinstance(o, (list, tuple)):
            o = fnp.asarray(o)
        if not isinstance(o, np.ndarray):
            return NotImplemented
        if o.ndim == 0:
            return self._scale(o)
        if o.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        x = fnp._raw(fnp._tof(o))
        if o.ndim == 1:
            acc = [S.ZERO()] * self.shape[0]
            for i, j, v in self.items():
                acc[i] = acc[i] + v * x[j]
            return _darr(acc)
        if o.ndim == 2:
            k = o.shape[1]
            out = np.empty((self.shape[0], k), dtype=object)
            out[...] = S.ZERO()
            for i, j, v in self.items():
                for c in range(k):
                    out[i, c] = out[i, c] + v * x[j, c]
            return fnp.mk(out)
        raise ValueError('could not interpret dimensions')

    def _spdot(self, o):
        if self.shape[1] != o.shape[0]:
            raise ValueError('dimension mismatch')
        rows = {}
        for i, j, v in o.items():
            rows.setdefault(i, []).append((j, v))
        acc = {}
        for i, k, v in self.items():
            d = acc.setdefault(i, {})
            for j, w in rows.get(k, ()):
                d[j] = d[j] + v * w if j in d else v * w
        trip = []
        for i in acc:
            for j in reversed(list(acc[i])):         # linked-list order of csr_matmat
                if not _iszero(acc[i][j]):
                    trip.append((i, j, acc[i][j]))
        return FSparse.triples('csr', (self.shape[0], o.shape[1]), trip, sumdup=False, sort=False)

    def __mul__(self, o): return self.dot(o)
    def __matmul__(self, o):
        if isinstance(o, (int, float, Sym)):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self.dot(o)
    def __rmul__(self, o):
        if isinstance(o, (int, float, Sym)):
            return self._scale(o)
        return self.__rmatmul__(o)
    def __rmatmul__(self, o):
        r = self.T.dot(fnp.asarray(o).T)
        return r.T

    def multiply(self, o):
        if isinstance(o, (int, float, Sym)):
            return self._scale(o)
        if isinstance(o, FSparse):
            o = o.toarray()
        o = fnp._raw(fnp._tof(o))
        o = np.broadcast_to(o, self.shape)
        return FSparse.triples(self.format, self.shape, [(i, j, v * o[i, j]) for i, j, v in self.items()], sumdup=False)

    def sum(self, axis=None, **k):
        if axis is None:
            return fnp._sum(self.data)
        d = self.toarray().sum(axis=axis)
        return d.reshape(1, -1) if axis == 0 else d.reshape(-1, 1)

    def diagonal(self, k=0):
        return fnp.diag(self.toarray(), k)

    def __getitem__(self, idx):
        if isinstance(idx, (slice, int, np.ndarray, list)):
            idx = (idx, slice(None))
        if not isinstance(idx, tuple) or len(idx) != 2:
            raise Unsupported('sparse indexing')

        def sel(ix, n):
            if isinstance(ix, (int, np.integer)):
                return [int(ix) % n]
            if isinstance(ix, slice):
                return list(range(*ix.indices(n)))
            l = fnp._raw(fnp.asarray(ix))
            if l.dtype == bool:
                return [i for i in range(n) if l[i]]
            return [int(i) % n for i in l.reshape(-1)]
        if isinstance(idx[0], (int, np.integer)) and isinstance(idx[1], (int, np.integer)):
            return self.toarray()[idx]
        r, c = sel(idx[0], self.shape[0]), sel(idx[1], self.shape[1])
        cpos = {}
        for k, j in enumerate(c):
            cpos.setdefault(j, []).append(k)
        byrow = {}
        for i, j, v in self.items():
            byrow.setdefault(i, []).append((j, v))
        trip = [(k, kk, v) for k, i in enumerate(r) for j, v in byrow.get(i, ()) for kk in cpos.get(j, ())]
        return FSparse.triples(self.format, (len(r), len(c)), trip, sumdup=False, sort=False)

    def getrow(self, i): return self[[i], :]
    def getcol(self, j): return self[:, [j]]
    def max(self, axis=None, **k): return self.toarray().max(axis=axis)
    def min(self, axis=None, **k): return self.toarray().min(axis=axis)
    def _datamap(self, f): return FSparse(self.format, self.shape, self.indptr.copy(), self.indices.copy(), f(self.data))
    def __abs__(self): return self._datamap(np.absolute)
    def power(self, n): return self._datamap(lambda d: d ** n)
    def mean(self, axis=None, **k): return self.toarray().mean(axis=axis)
    def setdiag(self, v, k=0):
        l = lil_matrix(self)
        l.setdiag(v, k)
        r = l.asformat(self.format)
        self.indptr, self.indices, self.data = r.indptr, r.indices, r.data
    def tolil(self, copy=False): return lil_matrix(self)
    todok = tolil
    def __setitem__(self, idx, v):
        l = lil_matrix(self)
        l[idx] = v
        r = l.asformat(self.format)
        self.indptr, self.indices, self.data = r.indptr, r.indices, r.data
    def nonzero(self):
        t = [x for x in self.items() if not _iszero(x[2])]
        return _iarr([x[0] for x in t]), _iarr([x[1] for x in t])
    def __reduce__(self):
        return (FSparse, (self.format, self.shape, self.indptr, self.indices, self.data))
    def __repr__(self): return 'FSparse(%s, %s, nnz=%d)' % (self.format, self.shape, self.nnz)


class lil_matrix:
    """lil/dok: item assignment, then conversion"""
    format = 'lil'

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[0], (np.ndarray, list, tuple)):
            self._d = fnp.zeros(tuple(int(x) for x in arg))
        elif hasattr(arg, 'toarray'):
            self._d = fnp._tof(arg.toarray()).copy()
        else:
            self._d = fnp._tof(fnp.atleast_2d(fnp.asarray(arg))).copy()

    shape = property(lambda self: self._d.shape)
    ndim = 2
    dtype = property(lambda self: np.dtype('float64'))

    def __setitem__(self, idx, v):
        self._d[idx] = v.toarray() if hasattr(v, 'toarray') else v

    def __getitem__(self, idx):
        r = self._d[idx]
        return lil_matrix(r) if isinstance(r, np.ndarray) and r.ndim else r

    def toarray(self, *a, **k): return self._d.copy()
    todense = toarray
    def asformat(self, f, copy=False):
        return self if f in ('lil', 'dok') else _build(f, self._d)
    def tocsr(self, copy=False): return _build('csr', self._d)
    def tocsc(self, copy=False): return _build('csc', self._d)
    def setdiag(self, v, k=0):
        n = min(self.shape) if k == 0 else len(np.diagonal(np.empty(self.shape, dtype=bool), k))
        vs = fnp._raw(fnp._tof(fnp.asarray(v))).reshape(-1)
        for t in range(n):
            i, j = (t, t + k) if k >= 0 else (t - k, t)
            self._d[i, j] = vs[t] if len(vs) > 1 else vs[0]
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.tocsr(), k)
    def __matmul__(self, o): return self.tocsr() @ o
    def __mul__(self, o): return self.tocsr() * o


class _CMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, FSparse) and (cls._fmt is None or x.format == cls._fmt)

    def __call__(cls, *a, **k):
        return _build(cls._fmt, *a, **k)


class csr_matrix(metaclass=_CMeta):
    _fmt = 'csr'


class csc_matrix(metaclass=_CMeta):
    _fmt = 'csc'


class coo_matrix(metaclass=_CMeta):
    _fmt = 'coo'


class spmatrix(metaclass=_CMeta):
    _fmt = None


csr_array, csc_array, coo_array = csr_matrix, csc_matrix, coo_matrix


def _build(fmt, arg, shape=None, dtype=None, copy=False):
    f = 'csr' if fmt in ('coo', None) else fmt
    if isinstance(arg, FSparse):
        r = arg.asformat(f)
        return r.copy() if copy else FSparse(r.format, r.shape, r.indptr, r.indices, r.data)
    if isinstance(arg, tuple):
        if len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            return FSparse.triples(f, _shape2(arg), [])
        if len(arg) == 2:
            data, (i, j) = arg
            data = fnp._raw(fnp._tof(fnp.asarray(data))).reshape(-1)
            i, j = _ints(i), _ints(j)
            if not len(i) == len(j) == len(data):
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                shape = (max(i) + 1, max(j) + 1)
            for x, n in ((i, shape[0]), (j, shape[1])):
                if x and max(x) >= n:
                    raise ValueError('row/column index exceeds matrix dimensions')
                if x and min(x) < 0:
                    raise ValueError('negative row/column index found')
            return FSparse.triples(f, _shape2(shape), list(zip(i, j, data)))
        if len(arg) == 3:
            data, indices, indptr = arg
            data = fnp._tof(fnp.asarray(data)).copy()
            indices = _ints(indices)
            indptr = _ints(indptr)
            maj = 0 if f == 'csr' else 1
            if shape is None:
                n = len(indptr) - 1
                m = (max(indices) + 1) if indices else 0
                shape = (n, m) if maj == 0 else (m, n)
            shape = _shape2(shape)
            if len(indptr) != shape[maj] + 1:
                raise ValueError('index pointer size (%d) should be (%d)' % (len(indptr), shape[maj] + 1))
            if indptr[0] != 0:
                raise ValueError('index pointer should start with 0')
            if len(indices) != data.size:
                raise ValueError('indices and data should have the same size')
            if indptr[-1] > len(indices):
                raise ValueError('Last value of index pointer should be less than the size of index and data arrays')
            k = indptr[-1]
            if any(a > b for a, b in zip(indptr, indptr[1:])):
                raise Unsupported('index pointer not monotone')
            return FSparse(f, shape, _iarr(indptr), _iarr(indices[:k]), data.reshape(-1)[:k])
    a = fnp._tof(fnp.asarray(arg))
    if a.ndim == 1:
        a = a.reshape(1, -1)
    raw = fnp._raw(a)
    return FSparse.triples(f, a.shape, [(i, j, raw[i, j]) for i in range(a.shape[0]) for j in range(a.shape[1])
                                        if not _iszero(raw[i, j])])


def issparse(x): return isinstance(x, FSparse)
isspmatrix = issparse
def isspmatrix_csr(x): return isinstance(x, FSparse) and x.format == 'csr'
def isspmatrix_csc(x): return isinstance(x, FSparse) and x.format == 'csc'


def _coerce(b):
    return b if isinstance(b, FSparse) else _build('csr', b)


def vstack(blocks, format=None, dtype=None):
    blocks = [_coerce(b) for b in blocks]
    if len({b.shape[1] for b in blocks}) != 1:
        raise ValueError('incompatible dimensions for axis 1')
    off, trip = 0, []
    for b in blocks:
        trip += [(i + off, j, v) for i, j, v in b.items()]
        off += b.shape[0]
    return FSparse.triples('csc' if format == 'csc' else 'csr', (off, blocks[0].shape[1]), trip, sumdup=False, sort=False)


def hstack(blocks, format=None, dtype=None):
    blocks = [_coerce(b) for b in blocks]
    if len({b.shape[0] for b in blocks}) != 1:
        raise ValueError('incompatible dimensions for axis 0')
    off, trip = 0, []
    for b in blocks:
        trip += [(i, j + off, v) for i, j, v in b.items()]
        off += b.shape[1]
    return FSparse.triples('csc' if format == 'csc' else 'csr', (blocks[0].shape[0], off), trip, sumdup=False, sort=False)


def block_diag(mats, format=None, dtype=None):
    mats = [_coerce(b) for b in mats]
    r = c = 0
    trip = []
    for b in mats:
        trip += [(i + r, j + c, v) for i, j, v in b.items()]
        r += b.shape[0]
        c += b.shape[1]
    return FSparse.triples('csc' if format == 'csc' else 'csr', (r, c), trip, sumdup=False, sort=False)


def bmat(blocks, format=None, dtype=None):
    rows = []
    for row in blocks:
        if any(b is None for b in row):
            ws = [next((_coerce(r[j]).shape[1] for r in blocks if r[j] is not None), None) for j in range(len(row))]
            h = next((_coerce(b).shape[0] for b in row if b is not None), None)
            if h is None or None in ws:
                raise ValueError('blocks[%d,:] are all None' % len(rows))
            row = [FSparse.triples('csr', (h, w), []) if b is None else b for b, w in zip(row, ws)]
        rows.append(hstack(row))
    return vstack(rows, format)


def eye(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    return FSparse.triples('csc' if format == 'csc' else 'csr', (m, n),
                           [(i, i + k, S.ONE()) for i in range(m) if 0 <= i + k < n])


def identity(n, dtype='d', format=None): return eye(n, format=format)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (int, np.integer)):
        d = fnp._tof(fnp.asarray(diagonals)).reshape(-1)
        diagonals, offsets = [d], [offsets]
    diagonals = [fnp._raw(fnp._tof(fnp.asarray(d))).reshape(-1) for d in diagonals]
    if shape is None:
        n = len(diagonals[0]) + abs(int(offsets[0]))
        shape = (n, n)
    trip = []
    for d, k in zip(diagonals, offsets):
        k = int(k)
        for t in range(len(d)):
            i, j = (t, t + k) if k >= 0 else (t - k, t)
            if i < shape[0] and j < shape[1]:
                trip.append((i, j, d[t]))
    return FSparse.triples('csc' if format == 'csc' else 'csr', shape, trip)


def kron(A, B, format=None):
    A, B = _coerce(A), _coerce(B)
    trip = [(i * B.shape[0] + k, j * B.shape[1] + l, v * w) for i, j, v in A.items() for k, l, w in B.items()]
    return FSparse.triples('csr', (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), trip, sumdup=False)
