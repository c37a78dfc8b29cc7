"""Kernel gradients."""
from symx.harness import harness
from . import common as C
from .c09 import ALL, KINDS, build, dists, _formula


@harness('C10', [dict(kind=k, n=n) for k in ALL for n in (1, 2, 12)], budget=60, tol=1e-5)
def gradient(ctx, kind, n):
    """reported gradient = derivative of the value, entry per hyperparameter"""
    k, names, f = build(ctx, kind)
    r = ctx.vec('r', n, nonneg=True)
    keep = ctx.np.array(r)
    G = list(k.kernel_gradient(r))
    ctx.check('one entry per hyperparameter', len(G) == len(names))
    ctx.eq('distances unchanged', r, keep)
    ctx.eq('value after a gradient', ctx.els(k.from_dist(r)), [f(d) for d in list(r)])
    for nm_i, g in enumerate(G):
        ctx.check('entry shape', tuple(g.shape) == (n,))
        e = ctx.els(g)
        for i in range(n):
            def val(i=i):
                kk, _, _ = build(ctx, kind)
                return ctx.els(kk.from_dist(ctx.vec('r', n, nonneg=True)))[i]
            want = ctx.deriv(val, [names[nm_i]])[0]
            ctx.eq('derivative %d at %d' % (nm_i, i), e[i], want)
            # and of the documented formula
            want2 = ctx.deriv(lambda i=i: build(ctx, kind)[2](ctx.real('r_%d' % i, nonneg=True)), [names[nm_i]])[0]
            ctx.eq('formula derivative %d at %d' % (nm_i, i), e[i], want2)
    G2 = list(k.kernel_gradient(r))
    for a, b in zip(G, G2):
        ctx.eq('gradient repeatable', a, ctx.els(b))


@harness('C10', [dict(kind=k) for k in ALL], budget=60, tol=1e-5)
def again(ctx, kind):
    """gradients follow any one hyperparameter and the contents of the distance array; results are the caller's"""
    k, names, f = build(ctx, kind)
    leaves = list(k.flattened_parameters)
    r = ctx.vec('r', 2, nonneg=True)
    R = ctx.np.array(r)

    fresh = lambda vals, D: [ctx.els(g) for g in make(ctx, kind, vals).kernel_gradient(ctx.np.array(D))]
    k.kernel_gradient(R)
    vals = [ctx.real(n) for n in names]
    for i, n in enumerate(names):
        vals[i] = ctx.real(n + '_new', lo=ctx.frac(1, 50), pos=True)
        leaves[i][:] = vals[i]
        for a, b in zip(k.kernel_gradient(R), fresh(vals, r)):
            ctx.eq('gradient after %s changed' % n, ctx.els(a), b)
    s = ctx.vec('s', 2, nonneg=True)
    R[...] = s
    for a, b in zip(k.kernel_gradient(R), fresh(vals, s)):
        ctx.eq('gradient after the distances changed', ctx.els(a), b)
        a[...] = 7
    for a, b in zip(k.kernel_gradient(R), fresh(vals, s)):
        ctx.eq('gradient after a result was overwritten', ctx.els(a), b)


def make(ctx, kind, vals):
    k = build(ctx, kind, 'fresh')[0]
    for p, v in zip(list(k.flattened_parameters), vals):
        p[:] = v
    return k


@harness('C10', [dict(kind=k) for k in ALL], budget=60, tol=1e-5)
def matrix_shape(ctx, kind):
    """gradients at an array of distances of another shape, and of integers"""
    k, names, f = build(ctx, kind)
    r = ctx.vec('r', 4, nonneg=True)
    flat = [ctx.els(g) for g in k.kernel_gradient(r)]
    two = list(k.kernel_gradient(r.reshape(2, 2)))
    ctx.check('entries', len(two) == len(names))
    for a, b in zip(flat, two):
        ctx.check('shape', tuple(b.shape) == (2, 2))
        ctx.eq('same entries', ctx.els(b), a)
    z = ctx.ivec('z', 2, 0, 5)
    fl = [ctx.els(g) for g in k.kernel_gradient(ctx.arr(ctx.els(z)))]
    iz = [ctx.els(g) for g in k.kernel_gradient(z)]
    for a, b in zip(fl, iz):
        ctx.eq('integer distances', b, a)


@harness('C10', [dict(kind=k) for k in ALL], budget=60)
def update(ctx, kind):
    """a gradient vector handed back is stored on the hyperparameter each component belongs to"""
    k, names, f = build(ctx, kind)
    n = len(names)
    g = ctx.vec('g', n) if n else ctx.np.zeros(0)
    keep = ctx.np.array(g)
    k.update_gradient(g)
    if n:
        ctx.eq('gradient vector unchanged', g, keep)
        leaves = list(k.flattened_parameters)
        ctx.check('leaves', len(leaves) == n)
        # match each leaf by its value symbol: names are in gradient order
        for i, nm in enumerate(names):
            p = _leaf(k, nm)
            ctx.eq('component %s' % nm, ctx.els(p.gradient), [list(g)[i]])
        h = ctx.vec('h', n)
        k.update_gradient(h)
        for i, nm in enumerate(names):
            ctx.eq('overwritten component %s' % nm, ctx.els(_leaf(k, nm).gradient), [list(h)[i]])
        ctx.eq('values untouched', [ctx.els(_leaf(k, nm))[0] for nm in names], [ctx.real(nm) for nm in names])


def _leaf(k, nm):
    if nm.startswith('scale'):
        chain = []
        while hasattr(k, 'k'):
            chain.append(k)
            k = k.k
        return chain[len(chain) - int(nm[5:])].scale
    while hasattr(k, 'k'):
        k = k.k
    return {'gamma': lambda: k.inv_lengthscale, 'period': lambda: k.period}[nm]()
