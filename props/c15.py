"""Prediction."""
from symx.harness import harness
from . import common as C
from .lmc import MIX, Solver
from .model import M, XS, ZS, points, split, num

MODES = ['on-the-fly', 'precompute', 'exact']
MX = ['lmc1', 'lmc2', 'slfm2', 'indep2', 'mix', 'ads', 'scaled', 'p2']


def test_points(m, lens):
    ctx = m.ctx
    return points(ctx, m.P, [ZS[m.P][d][:n] + XS[m.P][d][:max(0, n - len(ZS[m.P][d]))] for d, n in enumerate(lens)])


def compare(ctx, m, Z, zl, label=''):
    mean, var = m.model.predict(Z)
    lens = [len(z) for z in zl]
    wm, wv = m.raw(zl)
    ctx.check(label + 'one array per output', len(mean) == m.D and len(var) == m.D)
    for d in range(m.D):
        ctx.check(label + 'lengths', len(mean[d]) == lens[d] and len(var[d]) == lens[d])
    for d, (a, b) in enumerate(zip(split(wm, lens), split(wv, lens))):
        if lens[d]:
            ctx.eq(label + 'mean of output %d' % d, mean[d], a)
            ctx.eq(label + 'variance of output %d' % d, var[d], b)


@harness('C15', [dict(mix=x, mode=p) for x in MX for p in MODES if not (p == 'precompute' and x == 'ads')] +
         [dict(mix='mix3', mode=p) for p in MODES],
         [dict(mix=x, mode=p, m=2) for x in MX + ['mix3', 'ads_rev', 'lmc22', 'indep_idx'] for p in MODES
          if not (p == 'precompute' and x in ('ads', 'ads_rev'))], budget=150, weight=2, raw_timeout=1.0)
def raw(ctx, mix, mode, m=1):
    """mean and variance in each mode, arbitrary outputs and parameters"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode, m=m)
    Z, zl = test_points(mod, [1, 2, 1][:mod.D])
    compare(ctx, mod, Z, zl)


LG = [('lmc1', [6], [9]), ('lmc1', [14], [20]), ('indep2', [9, 2], [1, 17]), ('lmc2', [5, 3], [4, 6]), ('slfm2', [3, 4], [0, 7]), ('indep_idx', [2, 3, 4], [5, 1, 3]),
      ('ads', [3, 4], [2, 3])]


@harness('C15', [dict(mix=x, mode=p, n=n, t=t) for x, n, t in LG for p in MODES if not (p == 'precompute' and x == 'ads')],
         budget=150, weight=2, raw_timeout=1.0)
def more_points(ctx, mix, mode, n, t):
    """more training and test points"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode, lens=n)
    Z, zl = test_points(mod, t)
    compare(ctx, mod, Z, zl)


UNITS = {'tiny': (1, 2**20), 'huge': (2**10, 1)}


@harness('C15', [dict(mix=x, mode=p, unit=u) for x in ('lmc1', 'lmc2', 'slfm2') for p in MODES for u in UNITS], budget=150, weight=2,
         raw_timeout=1.0)
def units(ctx, mix, mode, unit):
    """covariances many orders of magnitude smaller or larger: no absolute threshold, floor or jitter shows"""
    Solver(ctx)
    u = ctx.frac(*UNITS[unit])
    m = M(ctx, mix, prediction=mode, unit=u, yunit=u)
    Z, zl = test_points(m, [1, 2, 1][:m.D])
    mean, var = m.model.predict(Z)
    lens = [len(z) for z in zl]
    wm, wv = m.raw(zl)
    for d, (a, b) in enumerate(zip(split(wm, lens), split(wv, lens))):
        ctx.eq('mean of output %d' % d, mean[d] / u, [v / u for v in a])
        ctx.eq('variance of output %d' % d, var[d] / (u * u), [v / (u * u) for v in b])


@harness('C15', [dict(mix=x, mode=p, lens=l) for p in MODES for x, l in
                 (('lmc2', [0, 1]), ('lmc2', [1, 0]), ('lmc2', [0, 0]), ('lmc1', [0]), ('indep_idx', [0, 2, 0]))],
         budget=100, raw_timeout=1.0)
def empty(ctx, mix, mode, lens):
    """outputs without test points"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode)
    Z, zl = test_points(mod, lens)
    compare(ctx, mod, Z, zl)


@harness('C15', [dict(mix=x, mode=p, how=h) for x, h in (('lmc2', 'same'), ('lmc1', 'held'), ('mix', 'held'), ('slfm2', 'close'), ('p2', 'same'),
                                                         ('lmc1', 'one'), ('indep2', 'swapped')) for p in MODES],
         budget=100, raw_timeout=1.0)
def at_training_inputs(ctx, mix, mode, how):
    """predictions at, or near, the training inputs themselves are of new observations there"""
    Solver(ctx)
    m = M(ctx, mix, prediction=mode)
    Z, zl = m.X, m.xl
    if how == 'held':
        Z = m.model.Xs
    elif how == 'close':
        zl = [[[v + ctx.frac(1, 5000) for v in r] for r in X] for X in zl]
        Z = [ctx.arr(X) * 1.0 for X in zl]
    elif how == 'one':
        Z, zl = [X[:1] for X in Z], [X[:1] for X in zl]
    elif how == 'swapped':
        Z, zl = Z[::-1], zl[::-1]
    compare(ctx, m, Z, zl)


@harness('C15', [dict(mode=p) for p in MODES], budget=100, raw_timeout=1.0)
def subset_of_dims(ctx, mode):
    """all kernels on one proper subset of the input dimensions"""
    Solver(ctx)
    mod = M(ctx, None, prediction=mode, spec=dict(D=2, P=2, lmc=[('rbf', 1, [1])], slfm=[('matern', [1])]))
    Z, zl = test_points(mod, [1, 1])
    compare(ctx, mod, Z, zl)


@harness('C15', [dict(mode='precompute')], budget=60)
def split_rejected(ctx, mode):
    """precompute mode is refused for split kernels"""
    Solver(ctx)
    mod = M(ctx, 'ads', prediction=mode)
    Z, zl = test_points(mod, [1, 1])
    ctx.raises('split kernels', ValueError, lambda: mod.model.predict(Z))


@harness('C15', [dict(mode=p, d=d) for p in MODES for d in (0, 1)], budget=200, floor_split=True, max_paths=60, raw_timeout=1.0)
def anywhere(ctx, mode, d):
    """a test point anywhere in the range of the data (symbolic location)"""
    Solver(ctx)
    mod = M(ctx, 'lmc2', prediction=mode)
    z = ctx.real('z', lo=0, hi=1)
    zl = [[], []]
    zl[d] = [[z]]
    Z = [ctx.arr(a) * 1.0 if a else ctx.np.zeros((0, 1)) for a in zl]
    compare(ctx, mod, Z, zl)


@harness('C15', [dict(mode=p) for p in MODES], budget=100, raw_timeout=1.0)
def one_dimensional_inputs(ctx, mode):
    """predict() accepts flat arrays for one input dimension and leaves its arguments alone"""
    Solver(ctx)
    mod = M(ctx, 'lmc2', prediction=mode)
    Z, zl = test_points(mod, [1, 2])
    flat = [z.reshape(-1) for z in Z]
    keep = [ctx.np.array(z) for z in flat]
    mean, var = mod.model.predict(flat)
    wm, wv = mod.raw(zl)
    ctx.eq('mean', [v for a in mean for v in ctx.els(a)], wm)
    ctx.eq('variance', [v for a in var for v in ctx.els(a)], wv)
    for a, b in zip(flat, keep):
        ctx.eq('inputs unchanged', a, b)


@harness('C15', [dict(mode=p, order=o) for p in MODES for o in ('rev', 'rot')], budget=100, raw_timeout=1.0)
def workers(ctx, mode, order):
    """any execution order of the parallel tasks"""
    from .c14 import ShufflePool
    Solver(ctx)
    mod = M(ctx, 'lmc2', prediction=mode)
    mod.model._pool = ctx.mod('util.inline_pool').InlinePool(ShufflePool(order))
    Z, zl = test_points(mod, [2, 2])
    compare(ctx, mod, Z, zl)


@harness('C15', [dict(mode=p, mix=x) for p in ('on-the-fly', 'precompute') for x in ('lmc1', 'lmc2')], budget=100)
def clipping(ctx, mode, mix):
    """whatever the linear solver returns, the variance is the prior one minus the explained one, but never negative"""
    S = Solver(ctx)
    mod = M(ctx, mix, prediction=mode)
    Z, zl = test_points(mod, [1, 1][:mod.D])
    mod.model.predict(Z)           # settles everything that does not depend on the solves below
    n = sum(mod.lens)
    free = []

    def solve(K, y, verbose=False, minres=True, tol=1e-4):
        x = ctx.vec('sol%d' % len(free), n, lo=-50, hi=50)
        free.append((ctx.els(y), ctx.els(x)))
        return (x, 1, 0.0) if verbose else x
    ctx.mod('approx.iterative').Iterative.solve = staticmethod(solve)
    mod.F.fk.noise = ctx.arr(mod.F.noise)      # a (void) change: everything is computed anew
    del free[:]
    var = mod.model.predict(Z)[1]
    nat = mod.native()
    own = mod.own([len(z) for z in zl])
    if mode == 'precompute':
        (axes, W, U), = mod.parts().values()
        XU = C.mm(W, U)
        ctx.check('one solve per grid point', len(free) == len(U))
        nu = [sum((XU[i][u] * free[u][1][i] for i in range(n)), 0) for u in range(len(U))]
        ex = C.mv(mod.W(axes, list(mod.parts())[0], zl), nu)
    else:
        ks = mod.F.K(zl, mod.xl)
        ctx.check('one solve per test point', len(free) == len(ks))
        ex = [sum((k[i] * x[i] for i in range(n)), 0) for k, (_, x) in zip(ks, free)]
    want = [nat[d] + mod.F.noise[d] - e for d, e in zip(own, ex)]
    ctx.eq('variance', [v for a in var for v in ctx.els(a)], [ctx.max([v, 0 * v]) for v in want])
