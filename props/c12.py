"""Grid-kernel representations."""
from symx.harness import harness
from . import common as C
from .lmc import FK, MIX

GRID = {1: [2], 2: [2, 2], 3: [2, 2]}


def setup(ctx, spec, lens, m1=2, blockdiag=True, tag='', unit=1):
    """functional kernel, arbitrary grid distances and arbitrary interpolation matrices per active-dimension set"""
    if ctx.symbolic:
        from symx import fsparse
        fsparse.DROP[0] = False
    sp = ctx.facade('scipy.sparse') if ctx.symbolic else __import__('scipy.sparse').sparse
    F = FK(ctx, spec, tag, unit=unit)
    dists, interp, W = {}, {}, {}
    n = sum(lens)
    for i, ad in enumerate(F.active()):
        shape = (m1,) if len(ad) == 1 else (2,) * len(ad)
        m = 1
        for s in shape:
            m *= s
        r = ctx.vec('%sr%d' % (tag, i), m, nonneg=True)
        dists[ad] = r.reshape(shape)
        D = F.D
        rows = C.zeros(n, D * m)
        k = 0
        for d, ln in enumerate(lens):
            for _ in range(ln):
                for j in range(D * m):
                    if not blockdiag or d * m <= j < d * m + m:
                        rows[k][j] = ctx.real('%sw%d_%d_%d' % (tag, i, k, j), lo=-2, hi=2)
                k += 1
        A = ctx.arr(rows) if n else ctx.np.zeros((0, D * m))
        w = sp.csr_matrix(A)
        interp[ad] = (w, w.transpose().tocsr())
        W[ad] = rows
    return F, dists, interp, W


def gridK(F, ctx, dists, ad, qs=None):
    """sum over q of B_q kron K_q on the grid"""
    shape = tuple(int(s) for s in dists[ad].shape)
    els = ctx.els(dists[ad])
    tot = None
    for q in (F.active()[ad] if qs is None else qs):
        t = C.kron(F.B(q), C.bttb([F.q[q]['f'](d) for d in els], shape))
        tot = t if tot is None else C.madd(tot, t)
    return tot


def full(F, ctx, dists, W, lens):
    n = sum(lens)
    own = [d for d, k in enumerate(lens) for _ in range(k)]
    K = [[F.noise[own[i]] if i == j else 0 for j in range(n)] for i in range(n)]
    for ad in F.active():
        K = C.madd(K, C.mm(C.mm(W[ad], gridK(F, ctx, dists, ad)), C.tr(W[ad])))
    return K


G = dict(MIX)
G.update({
    'slfm_d3': dict(D=3, slfm=[('rbf', None), ('matern', None)]),
    'slfm_d3x1': dict(D=3, slfm=[('rbf', None)]),
    'indep_d3': dict(D=3, indep=[('rbf', None), ('matern', None), ('rbf', None)]),
    'lmc_d3r1': dict(D=3, lmc=[('rbf', 1, None), ('matern', 1, None)]),
    'lmc_d3r3': dict(D=3, lmc=[('rbf', 3, None), ('matern', 2, None), ('rbf', 3, None)]),
    'indep_d4': dict(D=4, indep=[('rbf', None), ('matern', None), ('rbf', None)], index=[3, 0, 2]),
    'mix_d4': dict(D=4, lmc=[('rbf', 1, None)], slfm=[('matern', None)], indep=[('rbf', None)], index=[2]),
    'slfm_d5': dict(D=5, slfm=[('rbf', None), ('matern', None)]),
    'lmc_d5': dict(D=5, lmc=[('rbf', 2, None)], indep=[('rbf', None)] * 5),
    'ad_slfm': dict(D=3, P=2, slfm=[('rbf', [0]), ('rbf', [1])], indep=[('matern', [1])]),
    'ad_indep': dict(D=3, P=2, slfm=[('rbf', [0])], indep=[('matern', [1])]),
    'ad_each': dict(D=2, P=2, lmc=[('rbf', 1, [0])], slfm=[('rbf', [1])], indep=[('rbf', [0, 1])]),
    'ad_inter': dict(D=3, P=2, lmc=[('rbf', 1, [0]), ('rbf', 2, [1])], slfm=[('matern', [0]), ('rbf', [1])],
                     indep=[('matern', [0]), ('matern', [1])], index=[2, 1]),
})


def lens_for(D):
    return [2, 1, 1, 1, 2][:D]


@harness('C12', [dict(mix=m) for m in G], [dict(mix=m, m1=3) for m in G], budget=100, weight=2)
def operator(ctx, mix, m1=2):
    """the covariance operator, for arbitrary parameters, grid distances, weights and operand"""
    spec = G[mix]
    lens = lens_for(spec['D'])
    F, dists, interp, W = setup(ctx, spec, lens, m1)
    gk = ctx.mod('lmc.grid_kernel')
    K, parts = gk.gen_grid_kernel(F.fk, dists, interp, lens)
    want = full(F, ctx, dists, W, lens)
    n = sum(lens)
    ctx.check('shape', tuple(int(s) for s in K.shape) == (n, n))
    x = ctx.vec('x', n)
    keep = ctx.np.array(x)
    ctx.eq('product', K.matvec(x), C.mv(want, list(x)))
    ctx.eq('operand unchanged', x, keep)
    ctx.check('parts', set(parts.keys()) == set(F.active().keys()))
    for ad in F.active():
        g = parts[ad].grid_K
        y = ctx.vec('y', int(g.shape[1]))
        ctx.eq('on the grid, %r' % (ad,), g.matvec(y), C.mv(gridK(F, ctx, dists, ad), list(y)))


@harness('C12', [dict(mix=m, e=e) for m in ('lmc1', 'lmc22', 'slfm_d3', 'lmc_d3r1', 'p2') for e in (-20, 10)], budget=60)
def units(ctx, mix, e):
    """covariances many orders of magnitude away from one: no floor, threshold or jitter shows"""
    u = ctx.frac(2**e, 1) if e >= 0 else ctx.frac(1, 2**-e)
    spec = G[mix]
    lens = lens_for(spec['D'])
    F, dists, interp, W = setup(ctx, spec, lens, unit=u)
    K, _ = ctx.mod('lmc.grid_kernel').gen_grid_kernel(F.fk, dists, interp, lens)
    x = ctx.vec('x', sum(lens), lo=-3, hi=3)
    ctx.eq('product', K.matvec(x) / (u * u), [v / (u * u) for v in C.mv(full(F, ctx, dists, W, lens), list(x))])


TY = ['lmc1', 'lmc2', 'lmc22', 'slfm2', 'slfm1', 'indep2', 'indep_idx', 'mix', 'p2', 'slfm_d3', 'scaled']


@harness('C12', [dict(mix=m, ktype=t) for m in TY for t in ('sum', 'bt', 'slfm')] +
         [dict(mix=m, ktype=t, which=w) for m in ('ads', 'ad_each', 'ad_inter') for t in ('sum', 'bt', 'slfm') for w in (0, 1)],
         [dict(mix=m, ktype=t, m1=3) for m in TY for t in ('sum', 'bt', 'slfm')], budget=60)
def representation(ctx, mix, ktype, m1=2, which=0):
    """each representation of each mix, arbitrary contents"""
    spec = G[mix]
    lens = lens_for(spec['D'])
    F, dists, interp, W = setup(ctx, spec, lens, m1)
    ad = list(F.active())[which]
    w, wt = interp[ad]
    M = ctx.mod('lmc.grid_kernel').GridKernel(F.fk, dists[ad], w, wt, ktype, ad)
    GK = gridK(F, ctx, dists, ad)
    want = C.mm(C.mm(W[ad], GK), C.tr(W[ad]))
    x = ctx.vec('x', sum(lens))
    ctx.eq('product', M.matvec(x), C.mv(want, list(x)))
    y = ctx.vec('y', len(GK))
    ctx.eq('grid product', M.grid_K.matvec(y), C.mv(GK, list(y)))
    ctx.eq('product again', M.matvec(x), C.mv(want, list(x)))


@harness('C12', [dict(mix=m) for m in ('lmc2', 'slfm2', 'mix', 'ad_each')], budget=60)
def dense_view(ctx, mix):
    """dense view and linear operator of the covariance operator"""
    spec = G[mix]
    lens = [1] * spec['D']
    F, dists, interp, W = setup(ctx, spec, lens)
    K, _ = ctx.mod('lmc.grid_kernel').gen_grid_kernel(F.fk, dists, interp, lens)
    want = full(F, ctx, dists, W, lens)
    ctx.eq('dense', K.as_numpy(), want)
    x = ctx.vec('x', len(want))
    ctx.eq('operator', K.as_linear_operator().matvec(x), C.mv(want, list(x)))


@harness('C12', [dict(mix=m, lens=l) for m in ('lmc2', 'mix', 'slfm1') for l in ([0, 2], [2, 0])] +
         [dict(mix='mix3', lens=[1, 0, 2])], budget=60)
def empty_outputs(ctx, mix, lens):
    """outputs without points"""
    F, dists, interp, W = setup(ctx, G[mix], lens)
    K, _ = ctx.mod('lmc.grid_kernel').gen_grid_kernel(F.fk, dists, interp, lens)
    x = ctx.vec('x', sum(lens))
    ctx.eq('product', K.matvec(x), C.mv(full(F, ctx, dists, W, lens), list(x)))


@harness('C12', [dict(mix=m) for m in ('lmc22', 'slfm2', 'slfm1', 'indep2', 'mix', 'ad_each')], budget=60)
def again(ctx, mix):
    """operators made before and after the parameters change, from the same kernel object"""
    spec = G[mix]
    lens = lens_for(spec['D'])
    np = ctx.np
    F, dists, interp, W = setup(ctx, spec, lens)
    gk = ctx.mod('lmc.grid_kernel')
    fk, n = F.fk, sum(lens)
    x = ctx.vec('x', n)
    for k in range(2):
        for e in F.q:
            if e['kind'] != 'indep':
                e['A'] = [[(r + 1) * (d - 2 * k) for d in range(F.D)] for r in range(len(e['A']))]
            if e['kind'] == 'lmc':
                e['kap'] = [k + 1 + d for d in range(F.D)]
        F.noise = [k + 1] * F.D
        fk.coreg_vecs = [np.array([[float(v) for v in r] for r in e['A']]) for e in F.q if e['kind'] != 'indep']
        fk.coreg_diags = [np.array([float(v) for v in e['kap']]) for e in F.q if e['kind'] == 'lmc']
        fk.noise = np.array([float(v) for v in F.noise])
        gk.gen_grid_kernel(fk, dists, interp, lens)[0].matvec(np.ones(n))
    for q, e in enumerate(F.q):
        if e['kind'] != 'indep':
            e['A'] = [[ctx.real('b%d_%d_%d' % (q, r, d), lo=-3, hi=3) for d in range(F.D)] for r in range(len(e['A']))]
        if e['kind'] == 'lmc':
            e['kap'] = [ctx.real('c%d_%d' % (q, d), pos=True) for d in range(F.D)]
    F.noise = [ctx.real('m%d' % d, lo=ctx.frac(1, 100), hi=4) for d in range(F.D)]
    F.push()
    K, _ = gk.gen_grid_kernel(fk, dists, interp, lens)
    want = C.mv(full(F, ctx, dists, W, lens), list(x))
    ctx.eq('product after a change', K.matvec(x), want)
    # the same dictionaries with other grid distances
    new = {}
    for i, ad in enumerate(dists):
        old = dists[ad]
        new[ad] = ctx.vec('s%d' % i, int(old.size), nonneg=True).reshape(old.shape)
    dists.update(new)
    K2, _ = gk.gen_grid_kernel(fk, dists, interp, lens)
    ctx.eq('product with other distances', K2.matvec(x), C.mv(full(F, ctx, dists, W, lens), list(x)))
    ctx.eq('earlier operator', K.matvec(x), want)
