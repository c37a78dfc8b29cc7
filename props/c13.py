"""Likelihood gradients.

Lemma used by the symbolic oracle (matrix calculus): for symmetric positive
definite K(t), d/dt [-(y'K^-1 y + log det K)/2] = (a'K'a - tr(K^-1 K'))/2 with
a = K^-1 y.  K' is obtained by symbolic differentiation of the documented
covariance, entry by entry.  Concrete replays differentiate the log likelihood
itself numerically."""
from symx.harness import harness
from . import common as C
from . import c12
from .lmc import FK, MIX, Solver, pts, outs, asrows, quad


def dmat(ctx, make, name):
    """entrywise derivative of the matrix make() in the named input"""
    if ctx.symbolic:
        from symx import sym as S
        K = make()
        return [[S.diff(S.lift(v), S.W.vars[name]) for v in r] for r in K]
    raise AssertionError


def compare(ctx, F, L, makeK, y, probes=None, only=None, u=1):
    """all reported gradients against the derivatives of the documented covariance"""
    cv, cd, kg, ng = (L.coreg_vec_gradients(), L.coreg_diags_gradients(), L.kernel_gradients(), L.noise_gradient())
    Q = len(F.q)
    ctx.check('one gradient per kernel', len(cv) == Q and len(cd) == Q and len(kg) == Q)
    if ctx.symbolic:
        K = makeK()
        n = len(K)
        V = asrows(ctx, ctx.inv(ctx.arr(K)))
        al = C.mv(V, y)
    ctx.eq('alpha', [v * u for v in ctx.els(L.alpha())], [v * u for v in al] if ctx.symbolic else
           list(u * ctx.np.linalg.solve(ctx.np.array(makeK(), dtype=float), ctx.np.array(y, dtype=float))))

    def want(name):
        if ctx.symbolic:
            dK = dmat(ctx, makeK, name)
            qf = sum((al[i] * dK[i][j] * al[j] for i in range(n) for j in range(n)), 0)
            if probes is None:
                t = sum((V[i][j] * dK[j][i] for i in range(n) for j in range(n)), 0)
            else:
                t = 0
                for r in probes:
                    t = t + sum((C.mv(V, r)[i] * dK[i][j] * r[j] for i in range(n) for j in range(n)), 0)
                t = t / len(probes)
            return (qf - t) / 2
        np = ctx.np

        def ll():
            Kc = np.array(makeK(), dtype=float)
            return -0.5 * (np.dot(y, np.linalg.solve(Kc, y)) + np.linalg.slogdet(Kc)[1])
        if probes is None:
            return ctx.deriv(ll, [name])[0]
        K0 = np.array(makeK(), dtype=float)
        a0 = np.linalg.solve(K0, y)
        inv = [np.linalg.solve(K0, np.array(r, dtype=float)) for r in probes]

        def est():
            Kc = np.array(makeK(), dtype=float)
            return 0.5 * (a0.dot(Kc).dot(a0) - sum(v.dot(Kc).dot(np.array(r, dtype=float))
                                                   for v, r in zip(inv, probes)) / len(probes))
        return ctx.deriv(est, [name])[0]
    for q, e in enumerate(F.q):
        if e['an']:
            for i, row in enumerate(e['an']):
                for d, nm in enumerate(row):
                    if only is None or nm in only:
                        ctx.eq('vector %s' % nm, cv[q][i, d] * u, want(nm))
        if e['kn']:
            for d, nm in enumerate(e['kn']):
                if only is None or nm in only:
                    ctx.eq('diagonal %s' % nm, cd[q][d] * u * u, want(nm))
        ctx.check('kernel %d: one entry per hyperparameter' % q, len(kg[q]) == len(e['names']))
        for j, nm in enumerate(e['names']):
            ctx.eq('kernel %s' % nm, kg[q][j], want(nm))
    for d, nm in enumerate(F.noise_names):
        ctx.eq('noise %d' % d, ng[d] * u * u, want(nm))


EX = ['lmc1', 'lmc2', 'lmc22', 'slfm2', 'indep2', 'indep1', 'indep_idx', 'mix', 'mix3', 'scaled', 'ads', 'p2', 'ads_rev']


def noisy(F, K, lens):
    own = [d for d, n in enumerate(lens) for _ in range(n)]
    return [[v + F.noise[own[i]] if i == j else v for j, v in enumerate(r)] for i, r in enumerate(K)]


@harness('C13', [dict(mix=m) for m in EX], [dict(mix=m, big=1) for m in EX], budget=100, tol=1e-5, weight=2)
def exact(ctx, mix, big=0):
    """exact likelihood, arbitrary points, outputs and parameters"""
    spec = MIX[mix]
    D = spec['D']
    lens = [2, 1, 1][:D] if big or D == 1 else [1, 1, 1][:D] if D > 1 and mix not in ('lmc2', 'slfm2') else [2, 1]
    F = FK(ctx, spec)
    X, xl = pts(ctx, 'x', lens, F.P)
    Y, y = outs(ctx, 'y', lens)

    def makeK():
        f = FK(ctx, spec) if not ctx.symbolic else F
        return noisy(f, f.K(xl), lens)
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood(F.fk, X, Y)
    compare(ctx, F, L, makeK, y)


@harness('C13', [dict(mix=x, lens=l) for x, l in (('lmc1', [5]), ('lmc2', [3, 2]), ('slfm2', [1, 4]), ('indep_idx', [2, 3, 1]), ('ads', [2, 2]),
                                                ('indep_idx', [2, 0, 2]), ('lmc2', [0, 3]), ('slfm2', [3, 0]))],
         budget=100, tol=1e-5, weight=2)
def exact_more_points(ctx, mix, lens):
    """exact likelihood with more points"""
    spec = MIX[mix]
    F = FK(ctx, spec)
    X, xl = pts(ctx, 'x', lens, F.P)
    Y, y = outs(ctx, 'y', lens)

    def makeK():
        f = FK(ctx, spec) if not ctx.symbolic else F
        return noisy(f, f.K(xl), lens)
    compare(ctx, F, ctx.mod('lmc.likelihood').ExactLMCLikelihood(F.fk, X, Y), makeK, y)


@harness('C13', [dict(mix=m, e=e) for m in ('lmc1', 'lmc2', 'slfm2') for e in (-20, 10)], budget=100, tol=1e-5, weight=2)
def units(ctx, mix, e):
    """exact likelihood of outputs and covariances many orders of magnitude away from one"""
    u = ctx.frac(2**e, 1) if e >= 0 else ctx.frac(1, 2**-e)
    spec = MIX[mix]
    lens = [2, 1][:spec['D']]
    F = FK(ctx, spec, unit=u)
    X, xl = pts(ctx, 'x', lens, F.P)
    Y, y = outs(ctx, 'y', lens)
    Y, y = [v * u for v in Y], [v * u for v in y]

    def makeK():
        f = FK(ctx, spec, unit=u) if not ctx.symbolic else F
        return noisy(f, f.K(xl), lens)
    compare(ctx, F, ctx.mod('lmc.likelihood').ExactLMCLikelihood(F.fk, X, Y), makeK, y, u=u)


AP = ['lmc1', 'lmc2', 'lmc22', 'slfm2', 'indep2', 'mix', 'scaled', 'ads', 'p2', 'ad_each', 'indep_idx']


@harness('C13', [dict(mix=m, nit=2) for m in AP] + [dict(mix=m, nit=1) for m in ('lmc2', 'mix')] +
         [dict(mix=m, nit=5, big=1) for m in ('lmc2', 'slfm2', 'indep_idx', 'ads', 'mix')] +
         [dict(mix='lmc2', nit=2, lens=[0, 2]), dict(mix='slfm2', nit=2, lens=[2, 0]), dict(mix='indep_idx', nit=2, lens=[1, 0, 1])],
         [dict(mix=m, nit=3, big=1) for m in AP], budget=100, tol=1e-5, weight=3, raw_timeout=0.6)
def approx(ctx, mix, nit, big=0, lens=None):
    """approximate likelihood with exact solves: the same expression for the interpolated covariance, with probe averages"""
    spec = c12.G[mix]
    D = spec['D']
    lens = lens or ([2, 1, 1][:D] if big or D == 1 else [1] * D)
    F, dists, interp, W = c12.setup(ctx, spec, lens)
    Y, y = outs(ctx, 'y', lens)
    sol = Solver(ctx)

    def makeK():
        if ctx.symbolic:
            return c12.full(F, ctx, dists, W, lens)
        f, d_, _, w_ = c12.setup(ctx, spec, lens)
        return c12.full(f, ctx, d_, w_, lens)
    K, _ = ctx.mod('lmc.grid_kernel').gen_grid_kernel(F.fk, dists, interp, lens)
    pool = ctx.mod('util.inline_pool').InlinePool(None)
    sv = ctx.mod('lmc.stochastic_deriv').StochasticDerivService(None, pool, nit, 1e-4)
    L = ctx.mod('lmc.likelihood').ApproxLMCLikelihood(F.fk, K, dists, interp, Y, sv)
    bs = [b for _, b, _ in sol.calls]
    probes = [b for b in bs if not same(ctx, b, y)]
    ctx.check('one solve per probe', len(probes) == nit)
    compare(ctx, F, L, makeK, y, probes=probes)


def same(ctx, a, b):
    if ctx.symbolic:
        from symx import sym as S
        return len(a) == len(b) and all((S.lift(x) - S.lift(y)).poly == {} for x, y in zip(a, b))
    return len(a) == len(b) and ctx.np.allclose(a, b, rtol=1e-9, atol=1e-12)


class _G:
    def __init__(self, *a): self.v = a
    def coreg_vec_gradients(self): return self.v[0]
    def coreg_diags_gradients(self): return self.v[1]
    def kernel_gradients(self): return self.v[2]
    def noise_gradient(self): return self.v[3]


@harness('C13', [dict(mix=m) for m in EX], budget=60)
def stored(ctx, mix):
    """each component is stored on the parameter it belongs to; values stay; nothing lands on another parameter"""
    F = FK(ctx, MIX[mix])
    D = F.D
    g1 = [ctx.mat('ga%d' % q, len(e['A']), D) for q, e in enumerate(F.q)]
    g2 = [ctx.vec('gk%d' % q, D) for q, e in enumerate(F.q)]
    g3 = [list(ctx.vec('gp%d' % q, len(e['names']))) if e['names'] else [] for q, e in enumerate(F.q)]
    g4 = ctx.vec('gn', D)
    fk = F.fk
    fk.update_gradient(_G(g1, g2, g3, g4))
    want = {}
    for q, e in enumerate(F.q):
        if e['an']:
            for i, r in enumerate(e['an']):
                for d, nm in enumerate(r):
                    want[nm] = g1[q][i, d]
        if e['kn']:
            for d, nm in enumerate(e['kn']):
                want[nm] = g2[q][d]
        for j, nm in enumerate(e['names']):
            want[nm] = g3[q][j]
    for d, nm in enumerate(F.noise_names):
        want[nm] = g4[d]
    seen = 0
    vals, grads = ctx.els(fk.param_array), ctx.els(fk.gradient)
    ctx.check('free parameters', len(vals) == len(want) and len(grads) == len(want))
    # identify each slot of the parameter vector by probing: raise one named parameter's value
    for nm in want:
        hit = slot(ctx, vals, nm)
        ctx.check('slot of %s' % nm, hit is not None)
        ctx.eq('gradient of %s' % nm, grads[hit], want[nm])
        seen += 1
    F2 = F
    for q in range(len(F2.q)):
        ctx.eq('vectors %d unchanged' % q, fk.coreg_vecs[q], F2.q[q]['A'])
        ctx.eq('diagonal %d unchanged' % q, fk.coreg_diags[q], F2.q[q]['kap'])


def slot(ctx, vals, nm):
    """index of the entry of the parameter vector holding the named input"""
    v = ctx.real(nm)
    for i, x in enumerate(vals):
        if ctx.symbolic:
            if x is v or (x - v).poly == {}:
                return i
        elif abs(x - v) < 1e-12:
            return i
    return None
