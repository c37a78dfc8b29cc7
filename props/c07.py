"""Multi-output interpolation."""
from symx.harness import harness
from . import common as C
from .c05 import grid, rows

# per output, per sample: a cell (arbitrary sample in [c, c+1]), ('=', k) exactly on a grid point,
# ('o',) below the grid
A = [
    [[1], [2]], [[1, 2], [1]], [[], [1]], [[1], []], [[1], [], [2]], [[], [], [1]], [[1], [], []], [[], [1], []],
    [['=2'], [1]], [[1], ['=2']], [['=0'], [], [1]], [['o'], [1]], [[1], ['o'], ['=3']], [[1]], [[0, '=1', 'o']],
    [['O'], [1]], [['=4'], ['O', 1], []],
    [['~3', '~12', '~20', '=1', '~-9', 1], [], ['~40', '~27'], ['~%d' % (5 * i) for i in range(12)], ['=4'], ['~1']],
    [['~%d' % (3 * i - 20) for i in range(25)] + [2], ['~8']],
    [[2, '=1'], [], ['=2', 1], []], [[], []], [['=1', '=2'], ['=0', '=3'], [1]], [[0], [3], [1], [2]],
]
B = [
    [['1,2'], ['2,1']], [['1,1'], [], ['2,2']], [[], ['1,1']], [['1,1'], []], [['=1,=2'], ['1,1']], [['1,1'], ['=1,1']],
    [['o,1'], ['1,1']], [['1,1'], ['O,2']],
    [['~3,~12', '~20,=1', '~-9,1'], [], ['~40,~27'], ['~%d,~%d' % (5 * i, 3 * i) for i in range(7)], ['=3,=4']], [['1,1', '=2,=2'], [], ['2,o']], [['2,3']],
]


def pos(ctx, name, c, strict=False):
    if isinstance(c, str) and c.startswith('='):
        return ctx.frac(int(c[1:]), 1)
    if c == 'o':
        return -1 - ctx.real(name, pos=True, hi=2)
    if c == 'O':
        return 5 + ctx.real(name, pos=True, hi=2)
    if isinstance(c, str) and c.startswith('~'):
        return ctx.frac(int(c[1:]), 7)
    c = int(c)
    u = ctx.real(name, lo=c, hi=c + 1)
    if strict:
        ctx.assume(u > c)
        ctx.assume(u < c + 1)
    return u


def blocks(ctx, W, each, n, m):
    D = len(each)
    R = rows(ctx, W, sum(len(e) for e in each), D * m)
    i = 0
    for a, e in enumerate(each):
        for r in e:
            ctx.eq('output %d' % a, R[i], [0] * (a * m) + list(r) + [0] * ((D - 1 - a) * m))
            i += 1


@harness('C07', [dict(spec=s) for s in A], fork_ite=True, floor_split=True, budget=120, max_paths=300)
def one_dim(ctx, spec):
    """1-D inputs, vectors and single columns, empty outputs, samples on grid points and outside"""
    m = 5
    g0, d, g = grid(ctx, m, fixed=True)
    I = ctx.mod('approx.interpolation')
    Xs, each = [], []
    for a, o in enumerate(spec):
        us = [pos(ctx, 'u%d_%d' % (a, i), c) for i, c in enumerate(o)]
        X = ctx.np.array([]) if not us else ctx.arr([g0 + d * u for u in us])
        Xs.append(X)
        each.append(rows(ctx, I.interp_cubic(g, X), len(us), m))
    keep = [ctx.np.array(X) for X in Xs]
    blocks(ctx, I.multi_interpolant(Xs, g), each, None, m)
    blocks(ctx, I.multi_interpolant([X.reshape(-1, 1) for X in Xs], g), each, None, m)
    for X, k in zip(Xs, keep):
        ctx.eq('inputs unchanged', X, k)


@harness('C07', [dict(spec=s) for s in B], fork_ite=True, floor_split=True, budget=150, max_paths=300)
def two_dim(ctx, spec):
    """2-D inputs"""
    mx, my = 4, 5
    gx0, dx, gx = grid(ctx, mx, 'x', fixed=True)
    gy0, dy, gy = grid(ctx, my, 'y', fixed=True)
    I = ctx.mod('approx.interpolation')
    Xs, each = [], []
    for a, o in enumerate(spec):
        pts = []
        for i, c in enumerate(o):
            cu, cv = c.split(',')
            pts.append([gx0 + dx * pos(ctx, 'u%d_%d' % (a, i), cu, True),
                        gy0 + dy * pos(ctx, 'v%d_%d' % (a, i), cv, True)])
        X = ctx.arr(pts) if pts else ctx.np.zeros((0, 2))
        Xs.append(X)
        each.append(rows(ctx, I.interp_bicubic(gx, gy, X), len(pts), mx * my))
    blocks(ctx, I.multi_interpolant(Xs, gx, gy), each, None, mx * my)


@harness('C07', [dict(spec=s) for s in ([[1], [2]], [[1, 2], [1]], [[1], [], [2]])], fork_ite=True, floor_split=True, budget=120, max_paths=300)
def again(ctx, spec):
    """the matrix does not depend on earlier calls, nor on what the same arrays held then"""
    m = 5
    g0, d, g = grid(ctx, m)
    I = ctx.mod('approx.interpolation')
    Xs, each, old = [], [], []
    for a, o in enumerate(spec):
        us = [pos(ctx, 'u%d_%d' % (a, i), c, True) for i, c in enumerate(o)]
        Xs.append(ctx.np.array([]) if not us else ctx.arr([g0 + d * u for u in us]))
        old.append(ctx.np.array([0.3 + a] * len(us)))
        each.append(rows(ctx, I.interp_cubic(g, Xs[-1]), len(us), m))
    W = C.reused(ctx, I.multi_interpolant, [old, ctx.np.arange(m) / 2], [Xs, g])
    blocks(ctx, W, each, None, m)
    blocks(ctx, I.multi_interpolant([X.reshape(-1, 1) for X in Xs], g), each, None, m)
