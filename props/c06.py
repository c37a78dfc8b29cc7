"""2-D bicubic interpolation."""
from symx.harness import harness
from . import common as C
from .c05 import grid, rows


def properties(ctx, row, u, v, mx, my, label):
    ctx.eq(label + ' row sum', sum(row[1:], row[0]), 1)
    inx = ctx.decide(u >= 0) and ctx.decide(u <= mx - 1)
    iny = ctx.decide(v >= 0) and ctx.decide(v <= my - 1)
    if not (inx and iny):
        return
    nx = [i for i in range(mx) if ctx.decide(u > i - 2) and ctx.decide(u < i + 2)]
    ny = [j for j in range(my) if ctx.decide(v > j - 2) and ctx.decide(v < j + 2)]
    for i in range(mx):
        for j in range(my):
            if i not in nx or j not in ny:
                ctx.eq(label + ' weight only near the sample', row[i * my + j], 0)
    if ctx.decide(u >= 1) and ctx.decide(u <= mx - 2) and ctx.decide(v >= 1) and ctx.decide(v <= my - 2):
        for a in range(3):
            for b in range(3):
                got = sum((row[i * my + j] * (i ** a * j ** b) for i in nx for j in ny), 0)
                ctx.eq(label + ' x^%d y^%d' % (a, b), got, u ** a * v ** b)
    for i in nx:
        for j in ny:
            if ctx.decide(u == i) and ctx.decide(v == j):
                ctx.eq(label + ' exact at grid point', row, [1 if k == i * my + j else 0 for k in range(mx * my)])


def outer(ctx, f1, gx, gy, s, mx, my):
    """outer product of the two 1-D interpolation rows"""
    a = rows(ctx, f1(gx, s[:1]), 1, mx)[0]
    b = rows(ctx, f1(gy, s[1:]), 1, my)[0]
    return [p * q for p in a for q in b]


def one(ctx, mx, my, bu, bv, fixed=False):
    gx0, dx, gx = grid(ctx, mx, 'x', fixed)
    gy0, dy, gy = grid(ctx, my, 'y')
    u = ctx.real('u', lo=bu[0], hi=bu[1])
    v = ctx.real('v', lo=bv[0], hi=bv[1])
    s = ctx.arr([gx0 + dx * u, gy0 + dy * v])
    I = ctx.mod('approx.interpolation')
    X = s.reshape(1, 2)
    keep = ctx.np.array(X)
    row = rows(ctx, I.interp_bicubic(gx, gy, X), 1, mx * my)[0]
    properties(ctx, row, u, v, mx, my, 'sample')
    ctx.eq('outer product of 1-D rows', row, outer(ctx, I.interp_cubic, gx, gy, s, mx, my))
    ctx.eq('samples unchanged', X, keep)


def boxes(mx, my):
    xs = [(-3, 0), (0, 1), (1, mx - 2), (mx - 2, mx - 1), (mx - 1, mx + 3)]
    ys = [(-3, 0), (0, 1), (1, my - 2), (my - 2, my - 1), (my - 1, my + 3)]
    return [dict(mx=mx, my=my, bu=list(a), bv=list(b)) for a in xs for b in ys]


@harness('C06', boxes(4, 5), boxes(6, 4) + boxes(5, 7), fork_ite=True, floor_split=True, budget=150, max_paths=300)
def one_sample(ctx, mx, my, bu, bv):
    """any 2-D sample (domain split into boxes), grids of different sizes and spacings"""
    one(ctx, mx, my, bu, bv)


@harness('C06', [dict(mx=5, my=4, bu=[1, 3], bv=[1, 2]), dict(mx=4, my=6, bu=[1, 2], bv=[1, 4]),
                 dict(mx=7, my=4, bu=[4, 5], bv=[1, 2]), dict(mx=4, my=8, bu=[1, 2], bv=[5, 6]),
                 dict(mx=9, my=12, bu=[6, 7], bv=[4, 5]), dict(mx=12, my=9, bu=[0, 1], bv=[6, 7])], fork_ite=True, floor_split=True, budget=150,
         max_paths=300)
def interior(ctx, mx, my, bu, bv):
    """interior cells of other grid shapes"""
    one(ctx, mx, my, bu, bv)


BX = [[(1, 2, 2, 3), (2, 3, 1, 2)], [(2, 3, 2, 3), (0, 1, 3, 4)], [(-2, -1, 1, 2), (1, 2, 1, 2)],
      [(1, 2, 5, 6), (3, 4, -2, -1), (1, 2, 1, 2)]]


@harness('C06', [dict(bx=[list(b) for b in bb]) for bb in BX], fork_ite=True, floor_split=True, budget=150, max_paths=300)
def independent(ctx, bx):
    """several samples at once give the rows they give alone"""
    mx, my = 4, 5
    gx0, dx, gx = grid(ctx, mx, 'x', fixed=True)
    gy0, dy, gy = grid(ctx, my, 'y', fixed=True)
    I = ctx.mod('approx.interpolation')
    pts = []
    for i, (a, b, c, d) in enumerate(bx):
        u, v = ctx.real('u%d' % i, lo=a, hi=b), ctx.real('v%d' % i, lo=c, hi=d)
        # strictly inside the cell: the borders are the business of one_sample
        for w, p, q in ((u, a, b), (v, c, d)):
            ctx.assume(w > p)
            ctx.assume(w < q)
        pts.append([gx0 + dx * u, gy0 + dy * v])
    W = rows(ctx, I.interp_bicubic(gx, gy, ctx.arr(pts)), len(pts), mx * my)
    for i, p in enumerate(pts):
        ctx.eq('row %d' % i, W[i], rows(ctx, I.interp_bicubic(gx, gy, ctx.arr([p])), 1, mx * my)[0])
        ctx.eq('outer product %d' % i, W[i], outer(ctx, I.interp_cubic, gx, gy, ctx.arr(p), mx, my))


@harness('C06', [{}], fork_ite=True, floor_split=True, budget=100, max_paths=300)
def integer_samples(ctx):
    """integer samples on integer grids"""
    np = ctx.np
    s = ctx.ivec('s', 2, -1, 5)
    f = ctx.mod('approx.interpolation').interp_bicubic
    row = rows(ctx, f(np.arange(4), np.arange(5), s.reshape(1, 2)), 1, 20)[0]
    properties(ctx, row, ctx.els(s)[0], ctx.els(s)[1], 4, 5, 'integer sample')


@harness('C06', [{}])
def malformed(ctx):
    """malformed input is rejected, no samples give no rows"""
    np = ctx.np
    f = ctx.mod('approx.interpolation').interp_bicubic
    _, _, gx = grid(ctx, 4, 'x')
    _, _, gy = grid(ctx, 5, 'y')
    s = ctx.mat('s', 1, 2)
    ctx.raises('x grid not 1-D', ValueError, lambda: f(gx.reshape(-1, 1), gy, s))
    ctx.raises('y grid not 1-D', ValueError, lambda: f(gx, gy.reshape(1, -1), s))
    ctx.raises('short x grid', ValueError, lambda: f(gx[:3], gy, s))
    ctx.raises('short y grid', ValueError, lambda: f(gx, gy[:3], s))
    ctx.raises('samples 1-D', ValueError, lambda: f(gx, gy, s.reshape(-1)))
    ctx.raises('samples with 1 column', ValueError, lambda: f(gx, gy, s.reshape(2, 1)))
    ctx.raises('samples with 3 columns', ValueError, lambda: f(gx, gy, ctx.mat('z', 2, 3)))
    ctx.check('no samples', tuple(f(gx, gy, np.zeros((0, 2))).shape) == (0, 20))


@harness('C06', [dict(bu=[1, 2], bv=[2, 3]), dict(bu=[0, 1], bv=[5, 6])], fork_ite=True, floor_split=True, budget=150, max_paths=300)
def again(ctx, bu, bv):
    """weights do not depend on earlier calls, nor on what the same arrays held then"""
    mx, my = 4, 5
    gx0, dx, gx = grid(ctx, mx, 'x')
    gy0, dy, gy = grid(ctx, my, 'y')
    u, v = ctx.real('u', lo=bu[0], hi=bu[1]), ctx.real('v', lo=bv[0], hi=bv[1])
    for w, (p, q) in ((u, bu), (v, bv)):
        ctx.assume(w > p)
        ctx.assume(w < q)
    s = ctx.arr([gx0 + dx * u, gy0 + dy * v])
    I = ctx.mod('approx.interpolation')
    W = C.reused(ctx, I.interp_bicubic, [ctx.np.arange(mx) / 2, ctx.np.arange(my) / 4, ctx.np.array([[0.75, 0.3]])],
                 [gx, gy, s.reshape(1, 2)])
    ctx.eq('outer product of 1-D rows', rows(ctx, W, 1, mx * my)[0], outer(ctx, I.interp_cubic, gx, gy, s, mx, my))
