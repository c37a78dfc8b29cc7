"""Exact LMC covariance."""
from symx.harness import harness
from . import common as C
from .lmc import FK, MIX, pts, outs


def lens_for(D, i=0):
    return [[2, 1, 1, 2][(d + i) % 4] for d in range(D)]


@harness('C11', [dict(mix=m) for m in MIX], [dict(mix=m, i=1) for m in MIX], budget=60)
def cross(ctx, mix, i=0):
    """K(X, Z) for arbitrary points, all parameters arbitrary"""
    F = FK(ctx, MIX[mix])
    X, xl = pts(ctx, 'x', lens_for(F.D, i), F.P)
    Z, zl = pts(ctx, 'z', lens_for(F.D, i + 1), F.P)
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood
    keep = [ctx.np.array(a) for a in X + Z]
    K = L.kernel_from_indices(X, Z, F.fk)
    ctx.eq('cross covariance', K, F.K(xl, zl))
    ctx.eq('transposed', L.kernel_from_indices(Z, X, F.fk), C.tr(F.K(xl, zl)))
    ctx.eq('again', L.kernel_from_indices(X, Z, F.fk), F.K(xl, zl))
    for a, b in zip(X + Z, keep):
        ctx.eq('points unchanged', a, b)


LARGE = {
    'lmc_d5': dict(D=5, lmc=[('rbf', 3, None), ('matern', 1, None)], slfm=[('rbf', None)], indep=[('rbf', None)], index=[3]),
    'slfm_d4': dict(D=4, slfm=[('rbf', None), ('periodic', None), ('matern', None)], indep=[('rbf', None)] * 4),
    'p4': dict(D=2, P=4, lmc=[('rbf', 1, [3, 1]), ('rbf', 2, None)], slfm=[('rbf', [2])]),
    'one': dict(D=1, lmc=[('rbf', 2, None)], slfm=[('matern', None)]),
}


@harness('C11', [dict(mix=x, n=n, t=t) for x, n, t in (('lmc_d5', [3, 0, 2, 5, 1], [1, 4, 0, 2, 2]), ('slfm_d4', [1, 4, 2, 3], [3, 0, 5, 1]),
                                                       ('p4', [3, 5], [4, 2]), ('one', [12], [17]))], budget=100)
def large(ctx, mix, n, t):
    """more outputs, kernels, dimensions and points"""
    F = FK(ctx, LARGE[mix])
    X, xl = pts(ctx, 'x', n, F.P)
    Z, zl = pts(ctx, 'z', t, F.P)
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood
    ctx.eq('cross covariance', L.kernel_from_indices(X, Z, F.fk), F.K(xl, zl))
    ctx.eq('transposed', L.kernel_from_indices(Z, X, F.fk), C.tr(F.K(xl, zl)))
    Y, y = outs(ctx, 'y', n)
    K = F.K(xl)
    own = [d for d, k in enumerate(n) for _ in range(k)]
    ctx.eq('training covariance', L(F.fk, X, Y).K,
           [[K[i][j] + (F.noise[own[i]] if i == j else 0) for j in range(len(own))] for i in range(len(own))])


@harness('C11', [dict(mix=m, lens=l) for m in ('lmc2', 'mix', 'ads', 'indep2') for l in ([0, 2], [2, 0])] +
         [dict(mix='mix3', lens=[1, 0, 2]), dict(mix='indep_idx', lens=[0, 0, 1])], budget=60)
def empty_outputs(ctx, mix, lens):
    """outputs without points contribute nothing and shift nothing"""
    F = FK(ctx, MIX[mix])
    X, xl = pts(ctx, 'x', lens, F.P)
    Z, zl = pts(ctx, 'z', [1] * F.D, F.P)
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood
    ctx.eq('cross covariance', L.kernel_from_indices(X, Z, F.fk), F.K(xl, zl))
    ctx.eq('transposed', L.kernel_from_indices(Z, X, F.fk), F.K(zl, xl))


@harness('C11', [dict(mix=m) for m in MIX] + [dict(mix=m, lens=l) for m, l in (('lmc1', [1]), ('mix', [0, 1]), ('slfm2', [1, 0]))],
         [dict(mix=m, i=1) for m in MIX], budget=60)
def training(ctx, mix, i=0, lens=None):
    """training covariance = covariance + noise of the output on the diagonal; symmetric"""
    F = FK(ctx, MIX[mix])
    lens = lens or lens_for(F.D, i)
    X, xl = pts(ctx, 'x', lens, F.P)
    Y, y = outs(ctx, 'y', lens)
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood(F.fk, X, Y)
    own = [d for d, n in enumerate(lens) for _ in range(n)]
    want = F.K(xl)
    for i_, d in enumerate(own):
        want[i_][i_] = want[i_][i_] + F.noise[d]
    ctx.eq('training covariance', L.K, want)
    ctx.eq('symmetric', ctx.np.array(L.K).T, L.K)
    ctx.eq('observations', L.y, y)


@harness('C11', [dict(mix=m, e=e) for m in ('lmc2', 'slfm2', 'lmc22', 'p2') for e in (-20, 10)], budget=60)
def units(ctx, mix, e):
    """covariances many orders of magnitude away from one: no floor, threshold or jitter shows"""
    u = ctx.frac(2**e, 1) if e >= 0 else ctx.frac(1, 2**-e)
    F = FK(ctx, MIX[mix], unit=u)
    lens = lens_for(F.D)
    X, xl = pts(ctx, 'x', lens, F.P)
    Y, y = outs(ctx, 'y', lens)
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood
    own = [d for d, n in enumerate(lens) for _ in range(n)]
    want = F.K(xl)
    ctx.eq('covariance', L.kernel_from_indices(X, X, F.fk) / (u * u), [[v / (u * u) for v in r] for r in want])
    for i, d in enumerate(own):
        want[i][i] = want[i][i] + F.noise[d]
    ctx.eq('training covariance', L(F.fk, X, Y).K / (u * u), [[v / (u * u) for v in r] for r in want])


@harness('C11', [dict(mix=m) for m in MIX], budget=60)
def coregionalization(ctx, mix):
    """B_q of the documented form for each kind of kernel; per active dimension too; parameters readable back"""
    F = FK(ctx, MIX[mix])
    fk = F.fk
    Q = len(F.q)
    ctx.check('kernel count', fk.Q == Q)
    B = fk.coreg_mats()
    ctx.check('one matrix per kernel', len(B) == Q)
    for q in range(Q):
        ctx.eq('B%d' % q, B[q], F.B(q))
    act = F.active()
    ctx.check('active dimension sets', set(fk.active_dims.keys()) == set(act.keys()))
    tot = 0
    for ad, qs in act.items():
        ctx.check('kernels of %r' % (ad,), list(fk.active_dims[ad]) == qs)
        Bs = fk.coreg_mats(ad)
        ctx.check('count of %r' % (ad,), len(Bs) == len(qs))
        for b, q in zip(Bs, qs):
            ctx.eq('B of %r, kernel %d' % (ad, q), b, F.B(q))
        ctx.check('total rank of %r' % (ad,), int(fk.total_rank(ad)) == sum(
            len(F.q[q]['A']) for q in qs if F.q[q]['kind'] != 'indep'))
        for kind, cnt in (('lmc', fk.num_lmc), ('slfm', fk.num_slfm), ('indep', fk.num_indep)):
            ctx.check('number of %s kernels in %r' % (kind, ad), cnt[ad] == sum(F.q[q]['kind'] == kind for q in qs))
        r = ctx.vec('r', 2, nonneg=True)
        v = fk.eval_kernels_fixed_dim(r, ad)
        ctx.eq('kernels of %r evaluated' % (ad,), v, [[F.q[q]['f'](d) for d in list(r)] for q in qs])
        tot += len(qs)
    for q in range(Q):
        ctx.check('active dimensions of %d' % q, tuple(fk.get_active_dims(q)) == F.q[q]['ad'])
    dd = {ad: ctx.vec('s%d' % i, 2, nonneg=True) for i, ad in enumerate(act)}
    ev = fk.eval_kernels(dd)
    for q in range(Q):
        ctx.eq('kernel %d at its own distances' % q, ev[q], [F.q[q]['f'](d) for d in list(dd[F.q[q]['ad']])])
    ctx.eq('noise', fk.noise, F.noise)
    for q in range(Q):
        ctx.eq('vectors %d' % q, fk.coreg_vecs[q], F.q[q]['A'])
        ctx.eq('diagonal %d' % q, fk.coreg_diags[q], F.q[q]['kap'])


@harness('C11', [dict(mix=m) for m in ('lmc2', 'mix', 'ads', 'indep_idx', 'slfm2')], budget=60)
def follows_parameters(ctx, mix):
    """after changing every parameter in place, the covariance is that of the new parameters"""
    F = FK(ctx, MIX[mix])
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood
    X, xl = pts(ctx, 'x', [1] * F.D, F.P)
    ctx.eq('before', L.kernel_from_indices(X, X, F.fk), F.K(xl))
    for q, e in enumerate(F.q):
        if e['kind'] != 'indep':
            e['A'] = [[v + 1 for v in r] for r in e['A']]
        if e['kind'] == 'lmc':
            e['kap'] = [v * 2 for v in e['kap']]
    F.noise = [v + 1 for v in F.noise]
    F.push()
    ctx.eq('after', L.kernel_from_indices(X, X, F.fk), F.K(xl))
    ctx.eq('noise', F.fk.noise, F.noise)


@harness('C11', [dict()], budget=60)
def defaults(ctx):
    """kernels given without parameters changes: fresh model has kappa 1 (LMC), 0 (SLFM), e_d (independent)"""
    from .c09 import build
    ks = [build(ctx, 'rbf', 'k%d' % i, name='k%d' % i)[0] for i in range(4)]
    fk = ctx.mod('lmc.functional_kernel').FunctionalKernel(
        D=2, lmc_kernels=ks[:1], lmc_ranks=[2], slfm_kernels=ks[1:2], indep_gp=ks[2:])
    fk.set_input_dim(1)
    ctx.eq('lmc diagonal', fk.coreg_diags[0], [1, 1])
    ctx.eq('slfm diagonal', fk.coreg_diags[1], [0, 0])
    ctx.eq('independent diagonals', fk.coreg_diags[2], [1, 0])
    ctx.eq('independent diagonals', fk.coreg_diags[3], [0, 1])
    ctx.eq('independent vectors', fk.coreg_vecs[2], [[0, 0]])
    ctx.check('shapes', [tuple(v.shape) for v in fk.coreg_vecs] == [(2, 2), (1, 2), (1, 2), (1, 2)])
    fixed = [p for p in fk.flattened_parameters]
    ctx.check('free parameters', sum(int(p.size) for p in fixed) == 4 + 4 + 2 + 2 + 2)


@harness('C11', [dict(mix=m) for m in ('lmc2', 'mix', 'ads', 'indep_idx', 'slfm2', 'p2') if m in MIX], budget=60)
def again(ctx, mix):
    """as many points on both sides; earlier calls and what the same arrays held then do not matter; nor do results"""
    F = FK(ctx, MIX[mix])
    L = ctx.mod('lmc.likelihood').ExactLMCLikelihood
    lens = lens_for(F.D)
    X, xl = pts(ctx, 'x', lens, F.P)
    Z, zl = pts(ctx, 'z', lens, F.P)
    ctx.eq('as many points', L.kernel_from_indices(X, Z, F.fk), F.K(xl, zl))
    V, vl = pts(ctx, 'v', lens, F.P)
    f = lambda a, b: L.kernel_from_indices(a, b, F.fk)
    K = C.reused(ctx, f, [V, X], [X, Z])
    ctx.eq('after other points', K, F.K(xl, zl))
    K[...] = 0
    ctx.eq('after a result was overwritten', f(X, Z), F.K(xl, zl))
    ctx.eq('same points', f(X, X), F.K(xl, xl))
