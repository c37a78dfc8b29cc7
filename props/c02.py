"""Composite matrices."""
import copy
import pickle

from symx import fsparse
from symx.harness import harness
from . import common as C


def roundtrip(ctx, M):
    """pickle in concrete mode; the same __getstate__/__setstate__ protocol
    through deepcopy in symbolic mode"""
    return copy.deepcopy(M) if ctx.symbolic else pickle.loads(pickle.dumps(M))


def L(M):
    return [list(r) for r in M]


class Mk:
    """builds a matrix object together with its dense meaning (rows)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def name(self, s):
        self.n += 1
        return '%s%d' % (s, self.n)

    def dense(self, m, n):
        A = self.ctx.mat(self.name('d'), m, n)
        D = L(A)
        return self.ctx.mod('linalg.numpy_matrix').NumpyMatrix(A), D

    def idense(self, m, n):
        A = self.ctx.ivec(self.name('i'), m * n, -4, 4).reshape(m, n)
        e = self.ctx.els(A)
        return self.ctx.mod('linalg.numpy_matrix').NumpyMatrix(A), [e[i * n:(i + 1) * n] for i in range(m)]

    def toep(self, n):
        t = self.ctx.vec(self.name('t'), n)
        return self.ctx.mod('linalg.toeplitz').Toeplitz(t), C.toep(list(t))

    def bttb(self, sizes):
        N = 1
        for s in sizes:
            N *= s
        t = self.ctx.vec(self.name('b'), N)
        return self.ctx.mod('linalg.bttb').BTTB(t, list(sizes)), C.bttb(list(t), list(sizes))

    def diag(self, n):
        v = self.ctx.vec(self.name('v'), n)
        return self.ctx.mod('linalg.diag').Diag(v), [[v[i] if i == j else 0 for j in range(n)] for i in range(n)]

    def ident(self, n):
        return self.ctx.mod('linalg.identity').Identity(n), C.eye(n)

    def wrap(self, m, n):
        A = self.ctx.mat(self.name('w'), m, n)
        return self.ctx.mod('linalg.matrix').Matrix.wrap((m, n), A.dot), L(A)

    def kron(self, a, b):
        return self.ctx.mod('linalg.kronecker').Kronecker(a[0], b[0]), C.kron(a[1], b[1])

    def bd(self, *ms):
        return self.ctx.mod('linalg.block_diag').BlockDiag([m[0] for m in ms]), C.bdiag(*[m[1] for m in ms])

    def sum(self, *ms):
        D = ms[0][1]
        for m in ms[1:]:
            D = C.madd(D, m[1])
        return self.ctx.mod('linalg.sum_matrix').SumMatrix([m[0] for m in ms]), D

    def comp(self, *ms):
        D = ms[0][1]
        for m in ms[1:]:
            D = C.mm(D, m[1])
        return self.ctx.mod('linalg.composition').Composition([m[0] for m in ms]), D

    def block(self, rows):
        """rows: symmetric 2-D list of pairs"""
        np = self.ctx.np
        d = len(rows)
        B = np.empty((d, d), dtype='object')
        for i in range(d):
            for j in range(d):
                B[i, j] = rows[i][j][0]
        m = len(rows[0][0][1])
        D = C.zeros(d * m, d * m)
        for i in range(d):
            for j in range(d):
                for a in range(m):
                    for b in range(m):
                        D[i * m + a][j * m + b] = rows[i][j][1][a][b]
        return self.ctx.mod('linalg.block_matrix').SymmSquareBlockMatrix(B), D

    def symblock(self, d, mk):
        rows = [[None] * d for _ in range(d)]
        for i in range(d):
            for j in range(i, d):
                rows[i][j] = rows[j][i] = mk()
        return self.block(rows)


def purity(ctx, M, D, label):
    """integer operands, scipy LinearOperator view, repeated and reordered use"""
    n = len(D[0])
    C.check_matrix(ctx, label, M, D)
    z = ctx.ivec('z', n, -4, 4)
    ctx.eq(label + ' integer operand', M.matvec(z), C.mv(D, ctx.els(z)))
    Z = ctx.ivec('Z', 2 * n, -4, 4).reshape(n, 2)
    e = ctx.els(Z)
    ctx.eq(label + ' integer matrix operand', M.matmat(Z), C.mm(D, [e[2 * i:2 * i + 2] for i in range(n)]))
    X = ctx.mat('X', n, 2)
    ctx.eq(label + ' one column', M.matmat(X[:, :1]), C.mm(D, [[r[0]] for r in X]))
    ctx.eq(label + ' transposed operand', M.matmat(ctx.np.array(X.T).T), C.mm(D, L(X)))
    ctx.eq(label + ' result of the first product kept', *_keep(ctx, M, D, n))


def _keep(ctx, M, D, n):
    x, y = ctx.vec('x', n), ctx.vec('y', n)
    a = M.matvec(x)
    M.matvec(y)
    M.as_numpy()
    return a, C.mv(D, list(x))


def leafs(k):
    return {
        'dense': lambda: k.dense(2, 2), 'rect': lambda: k.dense(3, 2), 'rect2': lambda: k.dense(2, 3),
        'idense': lambda: k.idense(3, 3), 'row': lambda: k.dense(1, 3), 'col': lambda: k.dense(3, 1),
        'diag1': lambda: k.diag(1), 'diag': lambda: k.diag(4), 'ident': lambda: k.ident(3), 'ident1': lambda: k.ident(1),
        'wrap': lambda: k.wrap(3, 2), 'wrapsq': lambda: k.wrap(3, 3),
        'kron': lambda: k.kron(k.dense(2, 2), k.dense(3, 3)),
        'kron_rect': lambda: k.kron(k.dense(2, 3), k.dense(3, 2)),
        'kron_rect2': lambda: k.kron(k.dense(3, 1), k.dense(2, 4)),
        'kron_1': lambda: k.kron(k.dense(1, 1), k.dense(2, 3)),
        'kron_1b': lambda: k.kron(k.dense(2, 3), k.dense(1, 1)),
        'kron_toep': lambda: k.kron(k.dense(2, 2), k.toep(3)),
        'kron_diag': lambda: k.kron(k.diag(3), k.bttb((2, 2))),
        'kron_ident': lambda: k.kron(k.ident(2), k.wrap(2, 2)),
        'kron_identr': lambda: k.kron(k.dense(2, 2), k.ident(3)),
        'bd': lambda: k.bd(k.dense(2, 2), k.dense(1, 1), k.toep(3)),
        'bd_rect': lambda: k.bd(k.dense(2, 1), k.dense(1, 3), k.wrap(2, 2)),
        'bd_rect2': lambda: k.bd(k.dense(1, 3), k.dense(4, 1)),
        'bd_one': lambda: k.bd(k.dense(2, 3)),
        'bd_same': lambda: k.bd(k.dense(2, 2), k.diag(2), k.ident(2), k.toep(2)),
        'sum': lambda: k.sum(k.dense(3, 3), k.toep(3), k.diag(3), k.ident(3)),
        'sum1': lambda: k.sum(k.toep(3)),
        'sum_rect': lambda: k.sum(k.dense(2, 3), k.wrap(2, 3)),
        'sum_twice': lambda: (lambda a: k.sum(a, a, k.ident(2)))(k.dense(2, 2)),
        'sum_ident': lambda: k.sum(k.ident(3), k.ident(3)),
        'comp': lambda: k.comp(k.dense(2, 3), k.toep(3), k.dense(3, 2)),
        'comp2': lambda: k.comp(k.dense(2, 3), k.dense(3, 4)),
        'comp_rect': lambda: k.comp(k.dense(4, 2), k.dense(2, 3), k.dense(3, 1)),
        'comp_ident': lambda: k.comp(k.ident(2), k.diag(2), k.ident(2)),
        'comp1': lambda: k.comp(k.dense(2, 3)),
        'block1': lambda: k.symblock(1, lambda: k.toep(3)),
        'block2': lambda: k.symblock(2, lambda: k.toep(2)),
        'block3': lambda: k.symblock(3, lambda: k.diag(2)),
        'block_ident': lambda: k.symblock(2, lambda: k.ident(2)),
        'block_bttb': lambda: k.symblock(2, lambda: k.bttb((2, 2))),
        'block_sum': lambda: k.symblock(2, lambda: k.sum(k.toep(2), k.diag(2))),
        'block_dense1': lambda: k.symblock(3, lambda: k.diag(1)),
        # nests
        'sum_kron_bd': lambda: k.sum(k.kron(k.dense(2, 2), k.toep(2)), k.bd(k.diag(1), k.toep(3)), k.ident(4)),
        'kron_kron': lambda: k.kron(k.kron(k.dense(2, 1), k.ident(2)), k.dense(1, 2)),
        'kron_kron2': lambda: k.kron(k.dense(2, 2), k.kron(k.dense(1, 2), k.diag(2))),
        'bd_bd': lambda: k.bd(k.bd(k.dense(1, 2), k.dense(2, 1)), k.comp(k.dense(1, 2), k.dense(2, 2))),
        'bd_kron': lambda: k.bd(k.kron(k.dense(1, 2), k.dense(2, 1)), k.sum(k.dense(2, 2), k.ident(2))),
        'comp_bd_block': lambda: k.comp(k.bd(k.dense(1, 2), k.dense(2, 2)), k.symblock(2, lambda: k.toep(2))),
        'comp_sum': lambda: k.comp(k.sum(k.toep(3), k.diag(3)), k.wrap(3, 3), k.kron(k.dense(3, 1), k.dense(1, 2))),
        'block_comp': lambda: k.symblock(2, lambda: k.comp(k.dense(2, 1), k.dense(1, 2))),
        'sum_block': lambda: k.sum(k.symblock(2, lambda: k.diag(2)), k.kron(k.dense(2, 2), k.ident(2))),
    }


def large(k):
    return {
        'dense': lambda: k.dense(13, 9), 'diag': lambda: k.diag(70), 'ident': lambda: k.ident(70), 'wrap': lambda: k.wrap(9, 13),
        'kron': lambda: k.kron(k.dense(6, 6), k.toep(7)), 'kron_rect': lambda: k.kron(k.dense(3, 9), k.dense(8, 2)),
        'kron_small': lambda: k.kron(k.ident(2), k.diag(33)), 'kron_left': lambda: k.kron(k.diag(33), k.dense(2, 2)),
        'kron3': lambda: k.kron(k.dense(2, 3), k.kron(k.dense(3, 2), k.dense(2, 2))),
        'bd': lambda: k.bd(k.dense(2, 3), k.dense(1, 1), k.toep(5), k.dense(4, 1), k.diag(6), k.ident(9), k.dense(1, 7)),
        'bd_many': lambda: k.bd(*[k.dense(1 + i % 2, 1 + i % 3) for i in range(18)]),
        'sum': lambda: k.sum(k.dense(9, 9), k.toep(9), k.diag(9), k.ident(9), k.bttb((3, 3)), k.kron(k.dense(3, 3), k.dense(3, 3)), k.toep(9)),
        'sum_many': lambda: k.sum(*[k.dense(2, 3) for i in range(17)]),
        'comp': lambda: k.comp(k.dense(2, 5), k.toep(5), k.diag(5), k.ident(5), k.dense(5, 3), k.dense(3, 4)),
        'comp_many': lambda: k.comp(*([k.diag(2) for i in range(9)] + [k.dense(2, 3)])),
        'block5': lambda: k.symblock(5, lambda: k.toep(3)), 'block2': lambda: k.symblock(2, lambda: k.toep(20)),
        'block9': lambda: k.symblock(9, lambda: k.diag(2)),
        'deep': lambda: k.sum(k.bd(k.comp(k.kron(k.dense(2, 1), k.toep(2)), k.dense(2, 4)), k.symblock(2, lambda: k.sum(k.toep(3), k.ident(3)))),
                              k.kron(k.bd(k.diag(2), k.dense(3, 3)), k.dense(2, 2))),
    }


@harness('C02', [dict(which=w) for w in large(None)], budget=90)
def larger(ctx, which):
    """larger sizes, more parts, deeper nestings"""
    M, D = large(Mk(ctx))[which]()
    C.check_matrix(ctx, which, M, D)


PICK = ['dense', 'diag', 'ident', 'kron_toep', 'bd', 'sum', 'comp', 'block2', 'block_bttb', 'sum_kron_bd', 'bd_kron',
        'kron_diag', 'sum_block']


@harness('C02', [dict(which=w) for w in leafs(None)], budget=90)
def algebra(ctx, which):
    """every composite and a set of nestings, arbitrary real contents, agree with the dense expression"""
    M, D = leafs(Mk(ctx))[which]()
    purity(ctx, M, D, which)


@harness('C02', [dict(which=w) for w in PICK], budget=60)
def pickled(ctx, which):
    """after use, a pickle round trip gives the same matrix, and the original still works"""
    M, D = leafs(Mk(ctx))[which]()
    n = len(D[0])
    x, X = ctx.vec('x', n), ctx.mat('X', n, 2)
    M.as_linear_operator().matvec(x)
    P = roundtrip(ctx, M)
    for lab, Q in (('copy', P), ('original', M)):
        ctx.eq(lab + ' vector', Q.matvec(x), C.mv(D, list(x)))
        ctx.eq(lab + ' matrix', Q.matmat(X), C.mm(D, L(X)))
        ctx.eq(lab + ' operator', Q.as_linear_operator().matmat(X), C.mm(D, L(X)))
        ctx.eq(lab + ' dense', Q.as_numpy(), D)


@harness('C02', [dict(m=m, n=n, kind=k) for m, n in ((2, 3), (3, 2), (1, 2), (2, 2), (4, 3)) for k in ('sparse', 'dense')] +
         [dict(m=m, n=n, kind=k, inner='dense') for m, n in ((2, 2), (2, 3), (3, 2)) for k in ('sparse', 'dense')],
         budget=60)
def ski(ctx, m, n, kind, inner='toep'):
    """W K W' with a sparse or dense W and a symmetric structured K, or an arbitrary square K"""
    sp = ctx.facade('scipy.sparse') if ctx.symbolic else __import__('scipy.sparse').sparse
    if ctx.symbolic:
        # forking on every entry being zero only at the smallest sizes
        fsparse.DROP[0] = m * n <= 4
    A = ctx.mat('A', m, n)
    k = Mk(ctx)
    if inner == 'toep':
        t, T = k.toep(n)
    else:
        G = ctx.mat('G', n, n)
        t, T = ctx.mod('linalg.numpy_matrix').NumpyMatrix(G), L(G)
    W = sp.csr_matrix(A) if kind == 'sparse' else A
    WT = W.transpose().tocsr() if kind == 'sparse' else A.T
    S = ctx.mod('approx.ski').SKI(t, W, WT)
    D = C.mm(C.mm(L(A), T), C.tr(L(A)))
    C.check_matrix(ctx, 'SKI', S, D)


@harness('C02', [{}])
def inputs_unchanged(ctx):
    """constructors keep what they are given and later products do not change it"""
    np = ctx.np
    v, t, A = ctx.vec('v', 3), ctx.vec('t', 3), ctx.mat('A', 3, 3)
    kv, kt, kA = np.array(v), np.array(t), np.array(A)
    ms = [ctx.mod('linalg.diag').Diag(v), ctx.mod('linalg.toeplitz').Toeplitz(t),
          ctx.mod('linalg.numpy_matrix').NumpyMatrix(A), ctx.mod('linalg.identity').Identity(3)]
    lst = list(ms)
    S = ctx.mod('linalg.sum_matrix').SumMatrix(ms)
    P = ctx.mod('linalg.composition').Composition(ms)
    B = ctx.mod('linalg.block_diag').BlockDiag(ms)
    x = ctx.vec('x', 3)
    for M in (S, P):
        M.matvec(x)
        M.matmat(np.array(A))
        M.as_numpy()
    B.matvec(np.concatenate([x, x, x, x]))
    B.as_numpy()
    ctx.eq('diag input', v, kv)
    ctx.eq('toeplitz input', t, kt)
    ctx.eq('dense input', A, kA)
    ctx.check('list of parts', len(ms) == 4 and all(a is b for a, b in zip(ms, lst)))
    D = [[kv[i] if i == j else 0 for j in range(3)] for i in range(3)]
    E = C.madd(C.madd(C.madd(D, C.toep(list(kt))), L(kA)), C.eye(3))
    ctx.eq('sum after use', S.matvec(x), C.mv(E, list(x)))
    ctx.eq('composition after use', P.matvec(x), C.mv(D, C.mv(C.toep(list(kt)), C.mv(L(kA), list(x)))))


@harness('C02', [{}])
def malformed(ctx):
    """shapes that make no matrix are rejected with ValueError"""
    k = Mk(ctx)
    np = ctx.np
    a, b = k.dense(2, 2)[0], k.dense(2, 3)[0]
    SM = ctx.mod('linalg.sum_matrix').SumMatrix
    ctx.raises('empty sum', ValueError, lambda: SM([]))
    ctx.raises('uneven sum', ValueError, lambda: SM([a, b]))
    NM = ctx.mod('linalg.numpy_matrix').NumpyMatrix
    ctx.raises('vector as dense matrix', ValueError, lambda: NM(ctx.vec('q', 3)))
    Dg = ctx.mod('linalg.diag').Diag
    ctx.raises('matrix as diagonal', ValueError, lambda: Dg(ctx.mat('q', 2, 2)))
    ctx.raises('empty diagonal', ValueError, lambda: Dg(np.array([])))
    ctx.raises('empty identity', ValueError, lambda: ctx.mod('linalg.identity').Identity(0))
    Mx = ctx.mod('linalg.matrix').Matrix
    ctx.raises('zero rows', ValueError, lambda: Mx(0, 3))
    ctx.raises('zero columns', ValueError, lambda: Mx(3, 0))
    SB = ctx.mod('linalg.block_matrix').SymmSquareBlockMatrix
    ctx.raises('ragged blocks', ValueError, lambda: SB([[a, a], [a]]))
    ctx.check('square', bool(a.is_square()) and not b.is_square())
