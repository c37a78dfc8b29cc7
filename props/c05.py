"""1-D cubic interpolation.  A sample is written grid[0] + delta * u with u an
arbitrary real, so that every real sample and every equispaced grid is covered."""
from symx.harness import harness
from . import common as C


def grid(ctx, m, tag='g', fixed=False):
    """equispaced increasing grid g0 + i*delta"""
    if fixed:
        g0, d = ctx.frac(-1, 2), ctx.frac(3, 4)
    else:
        g0 = ctx.real(tag + '0')
        d = ctx.real(tag + 'delta', pos=True)
    return g0, d, ctx.arr([g0 + d * i for i in range(m)])


def rows(ctx, W, n, m, label='W'):
    """dense rows of a returned sparse matrix"""
    ctx.check(label + ' shape', tuple(W.shape) == (n, m))
    e = ctx.els(W.toarray())
    return [e[i * m:(i + 1) * m] for i in range(n)]


def properties(ctx, row, u, m, label):
    """row: weights for a sample at position u (in cells) on a grid of m points"""
    ctx.eq(label + ' row sum', sum(row[1:], row[0]), 1)
    if ctx.decide(u < 0) or ctx.decide(u > m - 1):
        return
    for j in range(m):
        near = ctx.decide(u > j - 2) and ctx.decide(u < j + 2)
        if not near:
            ctx.eq(label + ' weight %d only near the sample' % j, row[j], 0)
    if ctx.decide(u >= 1) and ctx.decide(u <= m - 2):
        for d in (1, 2):
            ctx.eq(label + ' degree %d' % d, sum((row[j] * j ** d for j in range(m)), 0), u ** d)
    for j in range(m):
        if ctx.decide(u == j):
            ctx.eq(label + ' exact at grid point', row, [1 if i == j else 0 for i in range(m)])


@harness('C05', [dict(m=m) for m in (4, 5, 6, 7)], [dict(m=m) for m in (8, 9, 12)], fork_ite=True, floor_split=True, budget=120, max_paths=400)
def one_sample(ctx, m):
    """any sample on any equispaced grid"""
    g0, d, g = grid(ctx, m)
    u = ctx.real('u', lo=-4, hi=m + 4)
    s = ctx.arr([g0 + d * u])
    keep = ctx.np.array(s), ctx.np.array(g)
    W = ctx.mod('approx.interpolation').interp_cubic(g, s)
    properties(ctx, rows(ctx, W, 1, m)[0], u, m, 'sample')
    ctx.eq('samples unchanged', s, keep[0])
    ctx.eq('grid unchanged', g, keep[1])


@harness('C05', [dict(m=m, lo=a) for m in (12, 33, 70) for a in (-1, 0, m // 2, m - 3, m - 2)], fork_ite=True, floor_split=True, budget=120, max_paths=400)
def long_grid(ctx, m, lo):
    """any sample of one stretch of two cells of a longer grid"""
    g0, d, g = grid(ctx, m)
    u = ctx.real('u', lo=lo, hi=lo + 2)
    W = ctx.mod('approx.interpolation').interp_cubic(g, ctx.arr([g0 + d * u]))
    properties(ctx, rows(ctx, W, 1, m)[0], u, m, 'sample')


@harness('C05', [dict(m=m, side=s) for m in (4, 6) for s in (-1, 1)], fork_ite=True, budget=60)
def far_outside(ctx, m, side):
    """samples arbitrarily far outside"""
    g0, d, g = grid(ctx, m, fixed=True)
    f = ctx.real('far', lo=4)
    u = -f if side < 0 else m + f
    s = ctx.arr([g0 + d * u])
    W = ctx.mod('approx.interpolation').interp_cubic(g, s)
    r = rows(ctx, W, 1, m)[0]
    ctx.eq('row sum', sum(r[1:], r[0]), 1)
    ctx.eq('weight on the nearest end only', r, [1 if j == (0 if side < 0 else m - 1) else 0 for j in range(m)])


CELLS = [((0, 1), (2, 3)), ((1, 2), (1, 2)), ((2, 3), (0, 1)), ((-2, -1), (1, 2)), ((2, 3), (4, 6)), ((3, 4), (-3, 0)),
         ((4, 5), (4, 5)), ((0, 2), (3, 4))]


@harness('C05', [dict(m=5, cells=[list(c) for c in cc]) for cc in CELLS],
         [dict(m=5, cells=[[0, 4], [0, 4]]), dict(m=6, cells=[[0, 1], [2, 3], [4, 5]])], fork_ite=True, floor_split=True, budget=120, max_paths=600)
def independent(ctx, m, cells):
    """several samples at once give the rows they give alone"""
    g0, d, g = grid(ctx, m, fixed=True)
    us = [ctx.real('u%d' % i, lo=a, hi=b) for i, (a, b) in enumerate(cells)]
    f = ctx.mod('approx.interpolation').interp_cubic
    W = rows(ctx, f(g, ctx.arr([g0 + d * u for u in us])), len(us), m)
    for i, u in enumerate(us):
        r = rows(ctx, f(g, ctx.arr([g0 + d * u])), 1, m)[0]
        ctx.eq('row %d' % i, W[i], r)
        properties(ctx, W[i], u, m, 'sample %d' % i)


@harness('C05', [dict(m=m, n=n) for m, n in ((4, 3), (6, 2), (9, 4))], fork_ite=True, floor_split=True, budget=60, max_paths=300)
def integer_samples(ctx, m, n):
    """integer samples and grids"""
    np = ctx.np
    g = np.arange(m)
    s = ctx.ivec('s', 1, -3, m + 3)
    f = ctx.mod('approx.interpolation').interp_cubic
    W = rows(ctx, f(g, s), 1, m)
    properties(ctx, W[0], ctx.els(s)[0], m, 'integer sample')


@harness('C05', [{}])
def malformed(ctx):
    """malformed input is rejected, no samples give no rows"""
    np = ctx.np
    f = ctx.mod('approx.interpolation').interp_cubic
    g0, d, g = grid(ctx, 5)
    s = ctx.vec('s', 2)
    ctx.raises('grid not 1-D', ValueError, lambda: f(np.array([list(g), list(g)]), s))
    ctx.raises('grid not 1-D', ValueError, lambda: f(g.reshape(-1, 1), s))
    ctx.raises('samples not 1-D', ValueError, lambda: f(g, s.reshape(-1, 1)))
    ctx.raises('samples not 1-D', ValueError, lambda: f(g, s.reshape(1, -1)))
    for k in (1, 2, 3):
        ctx.raises('%d grid points' % k, ValueError, lambda: f(g[:k], s))
    ctx.check('no samples', tuple(f(g, np.array([])).shape) == (0, 5))
    ctx.check('one sample', tuple(f(g, g[1:2]).shape) == (1, 5))
    ctx.check('four points suffice', tuple(f(g[:4], g[1:2]).shape) == (1, 4))


@harness('C05', [dict(part=p) for p in range(3)], fork_ite=True, floor_split=True, budget=60)
def kernel(ctx, part):
    """the convolution kernel: Keys' cubic on [-2, 2], rejected outside"""
    x = ctx.real('x', lo=(-2, -1, 1)[part], hi=(-1, 1, 2)[part])
    f = ctx.mod('approx.interpolation').cubic_kernel
    a = ctx.abs(x)
    got = ctx.els(f(ctx.arr([x])))[0]
    if part == 1:
        want = (3 * a ** 3 - 5 * a ** 2) / 2 + 1
    else:
        want = (-a ** 3 + 5 * a ** 2) / 2 - 4 * a + 2
    ctx.eq('kernel', got, want)
    y = ctx.real('y', lo=2)
    ctx.assume(y > 2)
    ctx.raises('beyond support', ValueError, lambda: f(ctx.arr([x, y])))
    ctx.raises('beyond support', ValueError, lambda: f(ctx.arr([-y])))


@harness('C05', [dict(m=m, a=a) for m in (4, 6) for a in (-1, 1, m - 2)], fork_ite=True, floor_split=True, budget=100, max_paths=200)
def again(ctx, m, a):
    """weights do not depend on earlier calls, nor on what the same arrays held then"""
    g0, d, g = grid(ctx, m)
    u = ctx.real('u', lo=a, hi=a + 1)
    f = ctx.mod('approx.interpolation').interp_cubic
    og = ctx.np.array([float(i) / 2 for i in range(m)])
    W = C.reused(ctx, f, [og, ctx.np.array([0.75])], [g, ctx.arr([g0 + d * u])])
    properties(ctx, rows(ctx, W, 1, m)[0], u, m, 'sample')
    W.data[...] = 7
    properties(ctx, rows(ctx, f(g, ctx.arr([g0 + d * u])), 1, m)[0], u, m, 'sample again')
