"""Log likelihood."""
from symx.harness import harness
from . import common as C
from .lmc import MIX, Solver
from .model import M
from .c15 import UNITS


@harness('C25', [dict(mix=m, normalize=z) for m in ('lmc2', 'slfm2', 'mix', 'indep2', 'ads', 'lmc1', 'p2') for z in (0, 1)],
         [dict(mix=m, normalize=z) for m in ('mix3', 'ads_rev', 'scaled', 'lmc22', 'indep_idx') for z in (0, 1)],
         budget=100, weight=2)
def loglik(ctx, mix, normalize):
    """log likelihood, determinant and quadratic terms, for arbitrary outputs and parameters"""
    Solver(ctx)
    m = M(ctx, mix, normalize=bool(normalize))
    y = m.y()
    ctx.eq('stacked outputs', [v for Y in m.model.Ys for v in ctx.els(Y)], y)
    K = m.K()
    ctx.eq('log determinant', m.model.log_det_K(), ctx.logdet(ctx.arr(K)))
    V = m.inv(m.Kt(m.parts()))
    n = len(y)
    qd = sum((y[i] * V[i][j] * y[j] for i in range(n) for j in range(n)), 0)
    ctx.eq('quadratic term', m.model.normal_quadratic(), qd)
    ctx.eq('log likelihood', m.model.log_likelihood(), m.loglik())
    ctx.eq('log likelihood again', m.model.log_likelihood(), m.loglik())
    ctx.eq('covariance', m.model.K(), K)
    ctx.check('no critical log', not any(l == 'critical' for l, _ in ctx.logs))


@harness('C25', [dict(mix=m, n=n, normalize=z) for m, n in (('lmc1', [12]), ('lmc2', [5, 4]), ('indep_idx', [2, 6, 3]), ('ads', [3, 4]))
                 for z in (0, 1)], budget=100, weight=2)
def more_points(ctx, mix, n, normalize):
    """the same with more points, unequal numbers of them"""
    Solver(ctx)
    m = M(ctx, mix, normalize=bool(normalize), lens=n)
    ctx.eq('stacked outputs', [v for Y in m.model.Ys for v in ctx.els(Y)], m.y())
    ctx.eq('log determinant', m.model.log_det_K(), ctx.logdet(ctx.arr(m.K())))
    ctx.eq('covariance', m.model.K(), m.K())
    want = m.loglik()
    ctx.eq('log likelihood', m.model.log_likelihood(), want)
    ctx.eq('log likelihood again', m.model.log_likelihood(), want)


@harness('C25', [dict(mix=x, unit=u) for x in ('lmc1', 'lmc2', 'slfm2') for u in UNITS], budget=100)
def units(ctx, mix, unit):
    """covariances many orders of magnitude smaller or larger"""
    Solver(ctx)
    u = ctx.frac(*UNITS[unit])
    m = M(ctx, mix, unit=u)
    K = m.K()
    ctx.eq('covariance', m.model.K() / (u * u), [[v / (u * u) for v in r] for r in K])
    ctx.eq('log determinant', m.model.log_det_K(), ctx.logdet(ctx.arr(K)))
    y = m.y()
    n = len(y)
    V = m.inv(m.Kt(m.parts()))
    ctx.eq('quadratic term', m.model.normal_quadratic() * (u * u), sum((y[i] * V[i][j] * y[j] for i in range(n) for j in range(n)), 0) * (u * u))
    ctx.eq('log likelihood', m.model.log_likelihood() * (u * u), m.loglik() * (u * u))


@harness('C25', [dict(mix=m) for m in ('lmc2', 'mix')], budget=100)
def recorded(ctx, mix):
    """with metrics on, the recorded log likelihood is the reported one, and recording changes nothing"""
    Solver(ctx)
    m = M(ctx, mix, metrics=True)
    want = m.loglik()
    ctx.check('recorded once', len(m.model.metrics.log_likely) == 1)
    ctx.eq('recorded', m.model.metrics.log_likely[0], want)
    ctx.eq('log likelihood', m.model.log_likelihood(), want)


@harness('C25', [dict(mix=m, step=s) for m in ('lmc2', 'mix') for s in ('noise', 'kernel', 'coreg')], budget=100)
def after_change(ctx, mix, step):
    """log likelihood of the current parameters after a change"""
    Solver(ctx)
    m = M(ctx, mix)
    ctx.eq('before', m.model.log_likelihood(), m.loglik())
    fk = m.F.fk
    if step == 'noise':
        m.F.noise = [v + 1 for v in m.F.noise]
        fk.noise = ctx.arr(m.F.noise)
    elif step == 'coreg':
        e = m.F.q[0]
        e['A'] = [[v + 1 for v in r] for r in e['A']]
        fk.coreg_vecs = [ctx.arr(e['A'])]
    else:
        e = m.F.q[0]
        g = ctx.real('newg', lo=ctx.frac(1, 4), hi=3)
        e['k'].inv_lengthscale[:] = g
        e['f'] = lambda d: ctx.exp(-g * d * d / 2)
    ctx.eq('after', m.model.log_likelihood(), m.loglik())
