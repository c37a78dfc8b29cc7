from symx.harness import harness
from . import common as C

QS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17]


@harness('C01', [dict(n=n) for n in QS], [dict(n=n) for n in (11, 13, 15, 24, 31, 32, 33)], budget=90)
def toeplitz(ctx, n):
    """Toeplitz from an arbitrary real first row: vector, matrix, operator, dense views, repeated, row unchanged"""
    t = ctx.vec('t', n)
    keep = ctx.np.array(t)
    M = ctx.mod('linalg.toeplitz').Toeplitz(t)
    C.check_matrix(ctx, 'Toeplitz(%d)' % n, M, C.toep(list(t)), own=True, shares=False)
    ctx.eq('first row unchanged', t, keep)


@harness('C01', [dict(n=n) for n in (32, 33, 47, 64, 65, 100, 129, 256, 500)], [dict(n=n) for n in (127, 128, 200, 257, 512, 513, 1000, 1025)], budget=120)
def toeplitz_large(ctx, n):
    """larger Toeplitz: product with one arbitrary vector"""
    t = ctx.vec('t', n)
    M = ctx.mod('linalg.toeplitz').Toeplitz(t)
    C.check_matrix(ctx, 'Toeplitz(%d)' % n, M, C.toep(list(t)), full=False)


@harness('C01', [dict(sizes=s, u=u, v=v) for s in ([1], [4], [2, 3], [2, 2, 2]) for u, v in ((-40, 0), (0, -40), (-20, -20), (30, 10))])
def units(ctx, sizes, u, v):
    """rows and operands many orders of magnitude away from one: the products scale with them"""
    f = lambda e: ctx.frac(2**e, 1) if e >= 0 else ctx.frac(1, 2**-e)
    u, v = f(u), f(v)
    N = 1
    for s in sizes:
        N *= s
    t, x = ctx.vec('t', N, lo=-3, hi=3), ctx.vec('x', N, lo=-3, hi=3)
    want = C.mv(C.bttb(list(t), sizes), list(x))
    for B in [ctx.mod('linalg.bttb').BTTB(t * u, sizes)] + ([ctx.mod('linalg.toeplitz').Toeplitz(t * u)] if len(sizes) == 1 else []):
        ctx.eq('product', B.matvec(x * v) / (u * v), want)
        ctx.eq('matrix product', B.matmat((x * v).reshape(-1, 1)) / (u * v), [[w] for w in want])
        ctx.eq('dense view', B.as_numpy() / u, C.bttb(list(t), sizes))


@harness('C01', [dict(sizes=s) for s in ([1], [3], [2, 3])])
def row_changes_later(ctx, sizes):
    """all views stay those of one matrix when the caller goes on using the array the row was given in"""
    N = 1
    for s in sizes:
        N *= s
    for kind in ('bttb', 'toeplitz') if len(sizes) == 1 else ('bttb',):
        t = ctx.vec('t', N)
        e = ctx.els(t)
        B = ctx.mod('linalg.bttb').BTTB(t, sizes) if kind == 'bttb' else ctx.mod('linalg.toeplitz').Toeplitz(t)
        t[...] = ctx.vec('t2', N)
        x = ctx.vec('x', N)
        D = C.bttb(e, sizes)
        ctx.eq(kind + ' product', B.matvec(x), C.mv(D, list(x)))
        ctx.eq(kind + ' dense view', B.as_numpy(), D)
        ctx.eq(kind + ' matrix product', B.matmat(ctx.np.identity(N)), D)


@harness('C01', [dict(n=n) for n in (1, 2, 3, 5, 8)])
def toeplitz_int(ctx, n):
    """integer first row, integer operands"""
    t = ctx.ivec('t', n, -5, 5)
    x = ctx.ivec('x', n, -5, 5)
    M = ctx.mod('linalg.toeplitz').Toeplitz(t)
    D = C.toep([v for v in ctx.els(t)])
    ctx.eq('integer product', M.matvec(x), C.mv(D, ctx.els(x)))
    ctx.eq('integer dense', M.as_numpy(), D)
    z = ctx.vec('z', n)
    ctx.eq('integer row, real operand', M.matvec(z), C.mv(D, list(z)))
    X = ctx.ivec('X', n * 2, -5, 5).reshape(n, 2)
    ctx.eq('integer matrix operand', M.matmat(X), C.mm(D, [ctx.els(r) for r in X]))


SH = [(1,), (2,), (3,), (5,), (8,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (2, 5), (5, 2),
      (1, 1, 1), (2, 2, 2), (2, 1, 3), (1, 2, 3), (3, 2, 2), (2, 3, 4)]
SHT = [(4, 4), (5, 4), (6, 3), (3, 3, 3), (4, 2, 3), (2, 2, 2, 2), (1, 3, 1, 2), (9,), (16,), (5, 5)]


@harness('C01', [dict(sizes=list(s)) for s in SH], [dict(sizes=list(s)) for s in SHT], budget=90)
def bttb(ctx, sizes):
    """BTTB of order 1-4 from an arbitrary real first row"""
    N = 1
    for s in sizes:
        N *= s
    t = ctx.vec('t', N)
    keep = ctx.np.array(t)
    B = ctx.mod('linalg.bttb').BTTB(t, sizes)
    C.check_matrix(ctx, 'BTTB%s' % (sizes,), B, C.bttb(list(t), sizes), own=True, shares=False)
    ctx.eq('first row unchanged', t, keep)


@harness('C01', [dict(sizes=list(s)) for s in [(7, 5), (8, 8), (9, 4), (12, 3), (3, 17), (4, 4, 4), (5, 3, 2), (17, 17), (33, 9), (2, 65), (5, 6, 7)]],
         [dict(sizes=list(s)) for s in [(10, 10), (16, 5), (11, 9), (6, 6, 3), (3, 3, 3, 3), (32, 16), (25, 40), (8, 9, 10), (5, 5, 5, 5)]], budget=120)
def bttb_large(ctx, sizes):
    """larger BTTB: product with one arbitrary vector"""
    N = 1
    for s in sizes:
        N *= s
    t = ctx.vec('t', N)
    B = ctx.mod('linalg.bttb').BTTB(t, ctx.np.array(sizes))
    C.check_matrix(ctx, 'BTTB%s' % (sizes,), B, C.bttb(list(t), sizes), full=False)


@harness('C01', [dict(sizes=[3]), dict(sizes=[2, 3]), dict(sizes=[2, 2, 2])])
def bttb_int(ctx, sizes):
    """integer first row and operand, sizes given as list, tuple or array"""
    N = 1
    for s in sizes:
        N *= s
    t = ctx.ivec('t', N, -5, 5)
    x = ctx.ivec('x', N, -5, 5)
    D = C.bttb(ctx.els(t), sizes)
    for sz in (list(sizes), tuple(sizes), ctx.np.array(sizes)):
        B = ctx.mod('linalg.bttb').BTTB(t, sz)
        ctx.eq('integer product', B.matvec(x), C.mv(D, ctx.els(x)))
        ctx.eq('integer dense', B.as_numpy(), D)


@harness('C01', [{}])
def malformed(ctx):
    """rows that are not one-dimensional or empty, and sizes that do not match, are rejected"""
    T = ctx.mod('linalg.toeplitz').Toeplitz
    B = ctx.mod('linalg.bttb').BTTB
    A = ctx.mat('A', 2, 2)
    ctx.raises('2-D row', ValueError, lambda: T(A))
    ctx.raises('empty row', ValueError, lambda: T(ctx.np.array([])))
    ctx.raises('2-D row', ValueError, lambda: B(A, [2, 2]))
    ctx.raises('empty row', ValueError, lambda: B(ctx.np.array([]), [0]))
    t = ctx.vec('t', 4)
    ctx.raises('sizes mismatch', ValueError, lambda: B(t, [2, 3]))
    ctx.raises('sizes mismatch', ValueError, lambda: B(t, [3]))
