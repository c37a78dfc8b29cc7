"""Output normalization and quantiles."""
from symx.harness import harness
from .c15 import UNITS, test_points
from .lmc import Solver, outs
from .model import M, points, split, XS, ZS

MODES = ['on-the-fly', 'precompute', 'exact']


@harness('C17', [dict(n=n) for n in (2, 3, 4, 5, 12)], [dict(n=n) for n in (6, 8, 25)], budget=60)
def norm_object(ctx, n):
    """standardization by mean and population standard deviation, and its inverse"""
    N = ctx.mod('util.normalizer').Norm()
    ctx.check('not scaled yet', not N.scaled())
    ctx.raises('unscaled', AttributeError, lambda: N.normalize(ctx.arr([1.0] * n)))
    Y = ctx.vec('Y', n)
    ctx.assume(Y[0] + 1 <= Y[1])
    e = ctx.els(Y)
    N.scale_by(Y)
    ctx.check('scaled', N.scaled())
    mu = sum(e, 0) / n
    sd = ctx.sqrt(sum(((v - mu) * (v - mu) for v in e), 0) / n)
    Z = N.normalize(Y)
    ctx.eq('caller\'s data', Y, e)
    ctx.eq('normalized', Z, [(v - mu) / sd for v in e])
    ctx.eq('mean zero', sum(ctx.els(Z), 0), 0)
    ctx.eq('variance one', sum((v * v for v in ctx.els(Z)), 0), n)
    ctx.eq('inverse', N.inverse_mean(Z), e)
    w = ctx.vec('w', 3, lo=-5, hi=5)
    we = ctx.els(w)
    ctx.eq('inverse mean', N.inverse_mean(w), [v * sd + mu for v in we])
    ctx.eq('inverse variance', N.inverse_variance(w), [v * sd * sd for v in we])
    ctx.eq('argument', w, we)
    T = ctx.mat('T', 2, 2, lo=-5, hi=5)
    ctx.eq('inverse of a table', N.inverse_mean(T), [[T[i, j] * sd + mu for j in range(2)] for i in range(2)])
    e2 = ctx.vec('Y2', 2)
    ctx.assume(e2[0] + 1 <= e2[1])
    N.scale_by(e2)
    f = ctx.els(e2)
    ctx.eq('rescaled', N.normalize(e2), [(v - (f[0] + f[1]) / 2) / ((f[1] - f[0]) / 2) for v in f])


def expect(ctx, mod, zl, quant=None):
    lens = [len(z) for z in zl]
    wm, wv = mod.raw(zl)
    M_, V_ = split(wm, lens), split(wv, lens)
    mean = [[a * mod.norm[d][1] + mod.norm[d][0] for a in M_[d]] for d in range(mod.D)]
    var = [[a * mod.norm[d][1] * mod.norm[d][1] for a in V_[d]] for d in range(mod.D)]
    if quant is None:
        return mean, var
    return [[[m + s * mod.norm[d][1] * ctx.uf('normppf', q / 100) for q in quant]
             for m, s in zip(mean[d], [ctx.sqrt(v) for v in V_[d]])] for d in range(mod.D)]


@harness('C17', [dict(mix=x, mode=p, norm=n) for x in ('lmc1', 'lmc2') for p in MODES for n in (0, 1)],
         [dict(mix=x, mode=p, norm=1) for x in ('slfm2', 'mix', 'indep_idx', 'p2') for p in MODES], budget=120, raw_timeout=1.0, weight=2)
def predict(ctx, mix, mode, norm):
    """reported means and variances are those of the data as given"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode, normalize=bool(norm))
    keep = [ctx.els(Y) for Y in mod.Y]
    Z, zl = test_points(mod, [2, 1, 1][:mod.D])
    mean, var = mod.model.predict(Z)
    wm, wv = expect(ctx, mod, zl)
    for d in range(mod.D):
        ctx.eq('mean of output %d' % d, mean[d], wm[d])
        ctx.eq('variance of output %d' % d, var[d], wv[d])
    for Y, k in zip(mod.Y, keep):
        ctx.eq('caller\'s outputs unchanged', Y, k)


@harness('C17', [dict(mix=x, mode=p, n=n, t=t) for x, n, t in (('lmc1', [7], [9]), ('lmc2', [3, 5], [4, 2]), ('indep_idx', [2, 4, 3], [5, 0, 3]))
                 for p in MODES], budget=120, raw_timeout=0.5, weight=2)
def more_points(ctx, mix, mode, n, t):
    """more points, unequal numbers of them"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode, normalize=True, lens=n)
    Z, zl = test_points(mod, t)
    mean, var = mod.model.predict(Z)
    wm, wv = expect(ctx, mod, zl)
    qs = mod.model.predict_quantiles(Z, [5, 75])
    wq = expect(ctx, mod, zl, [ctx.frac(5, 1), ctx.frac(75, 1)])
    for d in range(mod.D):
        if t[d]:
            ctx.eq('mean of output %d' % d, mean[d], wm[d])
            ctx.eq('variance of output %d' % d, var[d], wv[d])
            ctx.eq('quantiles of output %d' % d, qs[d], wq[d])


@harness('C17', [dict(mix=x, mode=p, norm=n, lens=l) for x, l in (('lmc1', [2]), ('lmc2', [1, 1]), ('lmc2', [0, 2]))
                 for p in MODES for n in (0, 1) if not (x == 'lmc2' and p == 'precompute' and n == 0)],
         [dict(mix=x, mode='on-the-fly', norm=1, lens=l) for x, l in (('mix', [2, 1]), ('indep_idx', [1, 0, 2]))],
         budget=120, raw_timeout=1.0, weight=2)
def quantiles(ctx, mix, mode, norm, lens):
    """any quantiles strictly between 0 and 100, in any order"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode, normalize=bool(norm))
    Z, zl = test_points(mod, lens)
    q = [ctx.real('q%d' % i, lo=1, hi=99) for i in range(3)]
    got = mod.model.predict_quantiles(Z, tuple(q))
    want = expect(ctx, mod, zl, q)
    ctx.check('one table per output', len(got) == mod.D)
    for d in range(mod.D):
        ctx.check('shape', tuple(int(s) for s in got[d].shape) == (lens[d], 3))
        if lens[d]:
            ctx.eq('quantiles of output %d' % d, got[d], want[d])


@harness('C17', [dict(mix=x, norm=n, unit=u, mode=p) for x, n, p in (('lmc1', 1, 'on-the-fly'), ('lmc1', 0, 'on-the-fly'), ('lmc2', 1, 'exact'),
                                                                      ('lmc2', 0, 'precompute')) for u in UNITS],
         budget=120, raw_timeout=1.0, weight=2)
def units(ctx, mix, norm, unit, mode):
    """data in units many orders of magnitude away from one"""
    Solver(ctx)
    u = ctx.frac(*UNITS[unit])
    mod = M(ctx, mix, prediction=mode, normalize=bool(norm), unit=1 if norm else u, yunit=u)
    Z, zl = test_points(mod, [2, 1][:mod.D])
    mean, var = mod.model.predict(Z)
    wm, wv = expect(ctx, mod, zl)
    qs = mod.model.predict_quantiles(Z, [5, 75])
    wq = expect(ctx, mod, zl, [ctx.frac(5, 1), ctx.frac(75, 1)])
    for d in range(mod.D):
        ctx.eq('mean of output %d' % d, mean[d] / u, [v / u for v in wm[d]])
        ctx.eq('variance of output %d' % d, var[d] / (u * u), [v / (u * u) for v in wv[d]])
        ctx.eq('quantiles of output %d' % d, qs[d] / u, [[v / u for v in r] for r in wq[d]])


@harness('C17', [dict(qs=q) for q in (None, (50,), (2.5, 97.5), (10, 90, 50, 25))], budget=60)
def quantile_tables(ctx, qs):
    """default and listed quantiles, the median being the mean"""
    Solver(ctx)
    mod = M(ctx, 'lmc1', prediction='exact', normalize=True)
    Z, zl = test_points(mod, [2])
    got = mod.model.predict_quantiles(Z) if qs is None else mod.model.predict_quantiles(Z, list(qs))
    qs = (2.5, 97.5) if qs is None else qs
    want = expect(ctx, mod, zl, [ctx.frac(int(q * 10), 10) for q in qs])
    ctx.eq('quantiles', got[0], want[0])


@harness('C17', [dict(mix=x, mode=p, sign=s) for x, p in (('lmc1', 'on-the-fly'), ('lmc1', 'precompute'), ('lmc1', 'exact')) for s in (1, -1)],
         [dict(mix='lmc2', mode=p, sign=s) for p in MODES for s in (1, -1)], budget=120, raw_timeout=1.0, weight=2)
def affine(ctx, mix, mode, sign):
    """rescaled and shifted outputs give rescaled and shifted predictions"""
    Solver(ctx)
    mod = M(ctx, mix, prediction=mode, normalize=True)
    a = [sign * ctx.real('a%d' % d, lo=ctx.frac(1, 4), hi=4) for d in range(mod.D)]
    b = [ctx.real('b%d' % d, lo=-3, hi=3) for d in range(mod.D)]
    Y2 = [ctx.arr([a[d] * v + b[d] for v in ctx.els(Y)]) for d, Y in enumerate(mod.Y)]
    mod2 = M(ctx, mix, prediction=mode, normalize=True, ys=Y2)
    Z, zl = test_points(mod, [1, 1, 1][:mod.D])
    m1, v1 = mod.model.predict(Z)
    m2, v2 = mod2.model.predict(Z)
    for d in range(mod.D):
        ctx.eq('mean', m2[d], [a[d] * v + b[d] for v in ctx.els(m1[d])])
        ctx.eq('variance', v2[d], [a[d] * a[d] * v for v in ctx.els(v1[d])])


@harness('C17', [dict(mix='lmc2', norm=n) for n in (0, 1)], budget=60)
def data_kept(ctx, mix, norm):
    """neither building nor predicting changes the arrays handed in"""
    Solver(ctx)
    mod = M(ctx, mix, normalize=bool(norm))
    ctx.eq('inputs', [v for X in mod.X for v in ctx.els(X)], [v for X in mod.xl for r in X for v in r])
    y = mod.y()
    ctx.eq('model outputs', [v for Y in mod.model.Ys for v in ctx.els(Y)], y)
    for Y in mod.model.Ys:
        if norm:
            ctx.eq('standardized mean', sum(ctx.els(Y), 0), 0)
            ctx.eq('standardized variance', sum((v * v for v in ctx.els(Y)), 0), len(ctx.els(Y)))
    Z, zl = test_points(mod, [1, 1])
    mod.model.predict(Z)
    mod.model.predict_quantiles(Z)
    ctx.eq('test inputs', [v for X in Z for v in ctx.els(X)], [v for X in zl for r in X for v in r])
    ctx.eq('model outputs after', [v for Y in mod.model.Ys for v in ctx.els(Y)], y)
