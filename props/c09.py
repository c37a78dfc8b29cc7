"""Kernel values."""
from symx.harness import harness
from . import common as C

KINDS = ['rbf', 'matern', 'periodic', 'identity']


def build(ctx, kind, tag='', name=None, ad=None):
    """(kernel, hyperparameter names in gradient order, formula)"""
    nm = {'name': name} if name else {}
    if ad is not None:
        nm['active_dims'] = ad if not isinstance(ad, list) else list(ad)
    if kind == 'rbf':
        g = ctx.real(tag + 'gamma', pos=True)
        return ctx.mod('kern.rbf').RBF(inv_lengthscale=g, **nm), [tag + 'gamma'], lambda d: ctx.exp(-g * d * d / 2)
    if kind == 'matern':
        g = ctx.real(tag + 'gamma', pos=True)

        def f(d):
            s = d * g * ctx.sqrt(3)
            return (1 + s) * ctx.exp(-s)
        return ctx.mod('kern.matern32').Matern32(inv_lengthscale=g, **nm), [tag + 'gamma'], f
    if kind == 'periodic':
        g = ctx.real(tag + 'gamma', pos=True)
        T = ctx.real(tag + 'period', lo=ctx.frac(1, 50), pos=True)

        def f(d):
            s = ctx.sin(ctx.pi * d / T)
            return ctx.exp(-g * s * s / 2)
        return (ctx.mod('kern.std_periodic').StdPeriodic(inv_lengthscale=g, period=T, **nm),
                [tag + 'gamma', tag + 'period'], f)
    if kind == 'identity':
        return ctx.mod('kern.identity').Identity(**nm), [], lambda d: ctx.ite(d == 0, 1, 0)
    if kind.startswith('scaled_'):
        k, names, f = build(ctx, kind[7:], tag, name, ad)
        sc = ctx.mod('kern.scaled').Scaled(k)
        nm = '%sscale%d' % (tag, kind.count('scaled_'))
        s = ctx.real(nm, pos=True)
        sc.scale[:] = s
        return sc, names + [nm], lambda d: s * f(d)
    raise ValueError(kind)


ALL = KINDS + ['scaled_' + k for k in KINDS] + ['scaled_scaled_rbf']
SHAPES = [(1,), (3,), (2, 2), (0,), (2, 1, 2), (40,), (9, 7)]


def dists(ctx, shape, kind):
    n = 1
    for s in shape:
        n *= s
    v = ctx.vec('r', n, nonneg=True) if n else ctx.np.zeros(0)
    return v.reshape(shape), list(v)


@harness('C09', [dict(kind=k, shape=list(s)) for k in ALL for s in SHAPES if (s != (0,) or k in KINDS) and (len(s) != 2 and s[0] < 9 or 'identity' not in k or s == (2, 2))], budget=60,
         max_paths=300)
def value(ctx, kind, shape):
    """elementwise formula, arbitrary distances and hyperparameters, any shape; distances unchanged; repeatable"""
    k, names, f = build(ctx, kind)
    R, els = dists(ctx, shape, kind)
    keep = ctx.np.array(R)
    got = k.from_dist(R)
    ctx.check('shape', tuple(got.shape) == tuple(shape))
    if els:
        ctx.eq('value', ctx.els(got), [f(d) for d in els])
        ctx.eq('value again', ctx.els(k.from_dist(R)), [f(d) for d in els])
    ctx.eq('distances unchanged', R, keep)


@harness('C09', [dict(kind=k) for k in ALL], budget=60)
def integer_distances(ctx, kind):
    """integer distances give the value of the equal real ones"""
    k, names, f = build(ctx, kind)
    r = ctx.ivec('r', 2, 0, 6)
    ctx.eq('value', ctx.els(k.from_dist(r)), [f(d) for d in ctx.els(r)])


@harness('C09', [dict(kind=k) for k in ALL], budget=60)
def zero_and_range(ctx, kind):
    """1 (times the scale) at zero distance, also for a scalar zero; never outside [0, 1] for unscaled kernels"""
    k, names, f = build(ctx, kind)
    v0 = ctx.els(k.from_dist(ctx.const([0.0])))
    sc = 1
    j = k
    while kind.startswith('scaled_'):
        sc = sc * ctx.els(j.scale)[0]
        j = j.k
        kind = kind[7:]
    ctx.eq('at zero', v0, [sc])
    ctx.eq('at a scalar zero', ctx.els(k.from_dist(0)), [sc])
    if j is k:
        d = ctx.real('r', nonneg=True)
        v = ctx.els(k.from_dist(ctx.arr([d])))[0]
        ctx.check('at least 0', v >= 0)
        ctx.check('at most 1', v <= 1 + (0 if ctx.symbolic else 1e-12))


@harness('C09', [dict(kind=k) for k in ALL], budget=60)
def parameters(ctx, kind):
    """every hyperparameter is linked and positive, and changing it changes the value accordingly"""
    k, names, f = build(ctx, kind)
    ctx.check('number of linked parameters', int(k.size) == len(names))
    want = [ctx.real(n) for n in names]
    if names:
        ctx.eq('linked values', ctx.els(k.param_array), want)
        idx = sorted(int(i) for c, ii in k.constraints.items() if type(c).__name__ == 'Logexp' for i in ii)
        ctx.check('all constrained positive', idx == list(range(len(names))))
        # change every parameter through the parameter array
        new = [ctx.real(n + '_new', lo=ctx.frac(1, 50), pos=True) for n in names]
        ps = list(k.flattened_parameters)
        ctx.check('one leaf per hyperparameter', len(ps) == len(names))
        d = ctx.real('r', nonneg=True)
        for p, v in zip(ps, new):
            p[:] = v
        ctx.eq('linked values after the change', ctx.els(k.param_array), new)
        g2 = _formula(ctx, kind, new)
        ctx.eq('value after the change', ctx.els(k.from_dist(ctx.arr([d]))), [g2(d)])


@harness('C09', [dict(kind=k) for k in ALL], budget=60, max_paths=300)
def again(ctx, kind):
    """values follow any one hyperparameter and the contents of the distance array; results are the caller's"""
    k, names, f = build(ctx, kind)
    r = ctx.vec('r', 2, nonneg=True)
    R = ctx.np.array(r)
    old = k.from_dist(R)
    vals = [ctx.real(n) for n in names]
    leaves = list(k.flattened_parameters)
    for i, n in enumerate(names):
        vals[i] = ctx.real(n + '_new', lo=ctx.frac(1, 50), pos=True)
        leaves[i][:] = vals[i]
        g = _formula(ctx, kind, list(vals))
        ctx.eq('value after %s changed' % n, ctx.els(k.from_dist(R)), [g(d) for d in list(r)])
    ctx.eq('earlier value kept', ctx.els(old), [f(d) for d in list(r)])
    s = ctx.vec('s', 2, nonneg=True)
    R[...] = s
    g = _formula(ctx, kind, list(vals))
    new = k.from_dist(R)
    ctx.eq('value after the distances changed', ctx.els(new), [g(d) for d in list(s)])
    new[...] = 7
    ctx.eq('value after a result was overwritten', ctx.els(k.from_dist(R)), [g(d) for d in list(s)])
    ctx.eq('distances kept', R, s)


def _formula(ctx, kind, v):
    if kind.startswith('scaled_'):
        f = _formula(ctx, kind[7:], v[:-1])
        return lambda d: v[-1] * f(d)
    if kind == 'rbf':
        return lambda d: ctx.exp(-v[0] * d * d / 2)
    if kind == 'matern':
        return lambda d: (1 + d * v[0] * ctx.sqrt(3)) * ctx.exp(-d * v[0] * ctx.sqrt(3))
    if kind == 'periodic':
        return lambda d: ctx.exp(-v[0] * ctx.sin(ctx.pi * d / v[1]) ** 2 / 2)
    return lambda d: ctx.ite(d == 0, 1, 0)


@harness('C09', [{}])
def defaults(ctx):
    """documented defaults and names, active dimensions kept"""
    d = ctx.real('r', nonneg=True)
    for kind, mod, cls, n in (('rbf', 'kern.rbf', 'RBF', 1), ('matern', 'kern.matern32', 'Matern32', 1),
                              ('periodic', 'kern.std_periodic', 'StdPeriodic', 2), ('identity', 'kern.identity', 'Identity', 0)):
        c = getattr(ctx.mod(mod), cls)
        k = c()
        ctx.eq(kind + ' default', ctx.els(k.from_dist(ctx.arr([d]))), [_formula(ctx, kind, [1] * n)(d)])
        ctx.check(kind + ' all dimensions by default', k.active_dims is None)
        k2 = c(active_dims=[0, 2], name='abc')
        ctx.check(kind + ' active dims', list(k2.active_dims) == [0, 2] and k2.name == 'abc')
        s = ctx.mod('kern.scaled').Scaled(k2)
        ctx.check(kind + ' scaled active dims', list(s.active_dims) == [0, 2])
        ctx.eq(kind + ' default scale', ctx.els(s.from_dist(ctx.arr([d]))), [_formula(ctx, kind, [1] * n)(d)])
