"""Mean functions."""
from symx.harness import harness
from .c16 import pick


def inputs(ctx, D, hi=3):
    if D > 3:
        return [ctx.vec('x%d_' % d, (5 * d + 3) % 9) for d in range(D)]
    return [ctx.vec('x%d_' % d, pick(ctx, 'len%d' % d, list(range(hi + 1)))) for d in range(D)]


def same(ctx, label, got, want):
    """lists of arrays"""
    ctx.check(label + ': number of outputs', len(got) == len(want))
    for g, w in zip(got, want):
        ctx.check(label + ': length', tuple(g.shape) == (len(w),))
        ctx.eq(label, g, w)


@harness('C23', [dict(D=D, given=g) for D in (1, 2, 3, 9) for g in (True, False)], budget=100, max_paths=300)
def constant(ctx, D, given):
    """evaluation, gradients, and gradients handed back, before and after the offsets move"""
    C = ctx.mod('mean.constant').Constant
    Xs = inputs(ctx, D, 3 if D < 3 else 2)
    xs = [ctx.els(X) for X in Xs]
    if given:
        c = ctx.els(ctx.vec('c', D))
        c0 = ctx.arr(c) * 1.0
        m = C(1, D, c0)
        ctx.eq('argument', c0, c)
    else:
        c = [0] * D
        m = C(1, D)
    for step in ('', 'after a move: '):
        if step:
            c = ctx.els(ctx.vec('d', D))
            m.c[:] = ctx.arr(c) * 1.0
        same(ctx, step + 'evaluation', m.f(Xs), [[v] * len(x) for v, x in zip(c, xs)])
        G = m.mean_gradient(Xs)
        ctx.check(step + 'gradient per offset', len(G) == D)
        for i, g in enumerate(G):
            same(ctx, step + 'gradient %d' % i, g, [[1 if i == j else 0] * len(x) for j, x in enumerate(xs)])
    g = ctx.els(ctx.vec('g', D))
    m.update_gradient(ctx.arr(g) * 1.0)
    ctx.eq('gradient stored', m.c.gradient, g)
    ctx.eq('offsets kept', m.c, c)
    for X, x in zip(Xs, xs):
        ctx.eq('inputs kept', X, x)


@harness('C23', [dict(D=D) for D in (1, 2, 3, 9)], budget=100, max_paths=300)
def zero(ctx, D):
    Z = ctx.mod('mean.zero').Zero
    Xs = inputs(ctx, D, 2)
    m = Z(1, D)
    same(ctx, 'evaluation', m.f(Xs), [[0] * len(X) for X in Xs])
    ctx.check('no parameters, no gradients', len(m.mean_gradient(Xs)) == 0)
    m.update_gradient(ctx.np.zeros(0))
    same(ctx, 'evaluation', m.f(Xs), [[0] * len(X) for X in Xs])


@harness('C23', [dict(D=D, kind=k) for D in (1, 2, 3) for k in ('constant', 'zero')], budget=100, max_paths=300)
def rejected(ctx, D, kind):
    """wrong number of inputs, wrong dimensions"""
    M = ctx.mod('mean.' + kind)
    m = (M.Constant if kind == 'constant' else M.Zero)(1, D)
    n = pick(ctx, 'n', list(range(5)))
    shapes = [pick(ctx, 's%d' % i, [(2,), (2, 1), (0, 2)]) if i in (0, n - 1) else (2,) for i in range(n)]
    Xs = [ctx.np.zeros(s) for s in shapes]
    if n != D or any(len(s) != 1 for s in shapes):
        ctx.raises('inputs', ValueError, lambda: m.f(Xs))
    else:
        m.f(Xs)


@harness('C23', [dict(D=D) for D in (1, 2, 3)], budget=60)
def initial_offsets(ctx, D):
    C = ctx.mod('mean.constant').Constant
    n = pick(ctx, 'n', list(range(5)))
    c = ctx.vec('c', n)
    if n == D:
        ctx.eq('offsets', C(1, D, c).c, ctx.els(c))
    else:
        ctx.raises('offsets', ValueError, lambda: C(1, D, c))


@harness('C23', [dict(D=D) for D in (1, 2, 3)], budget=60)
def in_model(ctx, D):
    """gradients reach the offsets of a model in order, with other parameters around"""
    Model = ctx.mod('parameterization.model').Model
    Param = ctx.mod('parameterization.param').Param
    C = ctx.mod('mean.constant').Constant
    Xs = [ctx.vec('x%d_' % d, d + 1) for d in range(D)]
    ts = [ctx.els(ctx.vec('t%d_' % d, d + 1)) for d in range(D)]
    c = ctx.els(ctx.vec('c', D))
    mean = C(1, D, ctx.arr(c) * 1.0)

    class TM(Model):
        def __init__(self):
            super().__init__('toy')
            self.p = Param('p', ctx.np.ones(2))
            self.link_parameter(self.p)
            self.link_parameter(mean)

        def log_likelihood(self):
            return -sum((((f - ctx.arr(t)) ** 2).sum() / 2 for f, t in zip(mean.f(Xs), ts)), 0)

        def parameters_changed(self):
            self.p.gradient = ctx.np.zeros(2)
            fs = mean.f(Xs)
            mean.update_gradient(ctx.arr([sum(((ctx.arr(t) - f).dot(g) for f, t, g in zip(fs, ts, G)), 0)
                                          for G in mean.mean_gradient(Xs)]) * 1.0)
    m = TM()
    ctx.eq('gradient', m.objective_function_gradients(), [0, 0] + [sum((v - t for t in ts[d]), 0) for d, v in enumerate(c)])
