"""Priors."""
from symx.harness import harness
from .c16 import pick

KINDS = ['none', 'gauss', 'gamma', 'invgamma', 'laplace', 'ev']


def prior(ctx, kind, tag, u=1):
    """(prior, log density, its derivative); u: the unit of the argument"""
    P = ctx.mod('parameterization.priors')
    q = ctx.frac
    if kind == 'gauss':
        mu, var = ctx.real(tag + 'mu', lo=-2, hi=2) * u, ctx.real(tag + 'var', lo=q(1, 4), hi=3) * u * u
        return (P.Gaussian(mu, var), lambda x: -(x - mu) * (x - mu) / (2 * var) - ctx.log(2 * ctx.pi * var) / 2,
                lambda x: -(x - mu) / var)
    if kind == 'laplace':
        b = ctx.real(tag + 'b', lo=q(1, 4), hi=3) * u
        return P.HalfLaplace(b), lambda x: -x / b - ctx.log(b), lambda x: -1 / b
    if kind == 'ev':
        E, V = ctx.real(tag + 'E', lo=q(1, 4), hi=3) * u, ctx.real(tag + 'V', lo=q(1, 4), hi=3) * u * u
        a, b = E * E / V, E / V
        p = P.Gamma.from_EV(E, V)
    else:
        a, b = ctx.real(tag + 'a', lo=q(1, 4), hi=3), ctx.real(tag + 'b', lo=q(1, 4), hi=3) * (u if kind == 'invgamma' else 1 / u)
        p = (P.Gamma if kind == 'gamma' else P.InverseGamma)(a, b)
    c = a * ctx.log(b) - ctx.uf('gammaln', a)
    if kind == 'invgamma':
        return p, lambda x: c - (a + 1) * ctx.log(x) - b / x, lambda x: -(a + 1) / x + b / (x * x)
    return p, lambda x: c + (a - 1) * ctx.log(x) - b * x, lambda x: (a - 1) / x - b


@harness('C18', [dict(kind=k, n=n) for k in KINDS[1:] for n in (0, 1, 3)], budget=60)
def density(ctx, kind, n):
    """log density and derivative of each prior, at a scalar (n=0) or an array"""
    p, f, g = prior(ctx, kind, '')
    if n:
        x = ctx.vec('x', n, lo=ctx.frac(1, 8), hi=5)
        e = ctx.els(x)
        ctx.eq('log density', p.lnpdf(x), [f(v) for v in e])
        d = p.lnpdf_grad(x)
        ctx.eq('derivative', d + 0 * x, [g(v) for v in e])
        ctx.eq('argument', x, e)
    else:
        x = ctx.real('x', lo=ctx.frac(1, 8), hi=5)
        ctx.eq('log density', p.lnpdf(x), f(x))
        ctx.eq('derivative', p.lnpdf_grad(x), g(x))
        if ctx.symbolic:
            ctx.eq('derivative of the log density', p.lnpdf_grad(x), ctx.deriv(f(x), 'x')[0])
    ctx.check('domain', p.domain == ('real' if kind == 'gauss' else 'positive'))


@harness('C18', [dict(kind=k, e=e) for k in KINDS[1:] for e in (-20, 20)], budget=60)
def units(ctx, kind, e):
    """arguments and hyperparameters many orders of magnitude away from one"""
    u = ctx.frac(2**e, 1) if e >= 0 else ctx.frac(1, 2**-e)
    p, f, g = prior(ctx, kind, '', u)
    x = ctx.real('x', lo=ctx.frac(1, 8), hi=5) * u
    ctx.eq('log density', p.lnpdf(x), f(x))
    ctx.eq('derivative', p.lnpdf_grad(x) * u, g(x) * u)


@harness('C18', [dict()], budget=60)
def gaussian_variance(ctx):
    """a Gaussian prior needs a positive variance"""
    P = ctx.mod('parameterization.priors')
    v = ctx.real('v', lo=-3, hi=3)
    if v <= 0:
        ctx.raises('non-positive variance', ValueError, lambda: P.Gaussian(0, v))
    else:
        P.Gaussian(0, v)


class Toy:
    """a model with a known log likelihood over three parameters (the last one constrained from the start)"""

    def __init__(self, ctx, lens=(2, 1, 2)):
        self.ctx = ctx
        Model = ctx.mod('parameterization.model').Model
        Param = ctx.mod('parameterization.param').Param
        Logexp = ctx.mod('kern.rbf').Logexp
        self.vals = [[ctx.real('v%d_%d' % (i, j), lo=ctx.frac(1, 8), hi=3) for j in range(n)] for i, n in enumerate(lens)]
        self.c = [[ctx.real('c%d_%d' % (i, j), lo=-2, hi=2) for j in range(n)] for i, n in enumerate(lens)]
        toy = self

        class TM(Model):
            def __init__(self):
                super().__init__('toy')
                self.ps = []
                for i, v in enumerate(toy.vals):
                    p = Param('p%d' % i, ctx.arr(v), Logexp() if i == len(toy.vals) - 1 else None)
                    self.ps.append(p)
                    self.link_parameter(p)

            def log_likelihood(self):
                return sum((c * v * v for p, cs in zip(self.ps, toy.c) for v, c in zip(ctx.els(p), cs)), 0)

            def parameters_changed(self):
                for p, cs in zip(self.ps, toy.c):
                    p.gradient = ctx.arr([2 * c * v for v, c in zip(ctx.els(p), cs)])
        self.m = TM()
        self.pri = [None] * len(lens)
        self.con = [False] * (len(lens) - 1) + [True]

    def set(self, i, kind, tag):
        if kind == 'none':
            return
        if kind == 'unset':
            self.m.ps[i].unset_prior()
            self.pri[i] = None
            return
        p, f, g = prior(self.ctx, kind, tag)
        self.m.ps[i].set_prior(p)
        self.pri[i] = (f, g)
        self.con[i] = self.con[i] or kind != 'gauss'

    def check(self, label=''):
        ctx = self.ctx
        L, G = 0, []
        for i, (vs, cs) in enumerate(zip(self.vals, self.c)):
            for v, c in zip(vs, cs):
                L = L + c * v * v
                g = 2 * c * v
                if self.pri[i]:
                    L = L + self.pri[i][0](v)
                    g = g + self.pri[i][1](v)
                    if self.con[i]:
                        L = L + ctx.log(ctx.exp(v) - 1) - v
                        g = g + 1 / (ctx.exp(v) - 1)
                G.append(-g)
        ctx.eq(label + 'objective', self.m.objective_function(), -L)
        ctx.eq(label + 'gradient', self.m.objective_function_gradients(), G)
        ctx.eq(label + 'parameters untouched', self.m.param_array, [v for vs in self.vals for v in vs])
        ctx.eq(label + 'likelihood with prior', self.m.log_likelihood_with_prior(), L)


@harness('C18', [dict(first=k) for k in KINDS], budget=150, max_paths=200, weight=2)
def objective(ctx, first):
    """any assignment of priors to three parameters, set in either order"""
    t = Toy(ctx)
    ks = [first, pick(ctx, 'k1', KINDS[:5]), pick(ctx, 'k2', [k for k in KINDS if k != 'gauss'])]
    for i in pick(ctx, 'order', [(0, 1, 2), (2, 0, 1)]):
        t.set(i, ks[i], 'q%d' % i)
    t.check()


@harness('C18', [dict(first=k) for k in ('gauss', 'gamma', 'invgamma', 'laplace')], budget=150, max_paths=200, weight=2)
def replacing(ctx, first):
    """setting, replacing and removing priors changes exactly their terms"""
    t = Toy(ctx)
    t.set(0, first, 'a')
    t.set(2, pick(ctx, 'other', ['none', 'gamma', 'invgamma']), 'o')
    t.check('before: ')
    k = pick(ctx, 'then', ['unset'] + (['gauss'] if first == 'gauss' else []) + ['gamma', 'laplace'])
    t.set(pick(ctx, 'where', [0, 1]), k, 'b')
    t.check('after: ')
    t.set(2, pick(ctx, 'last', ['unset', 'gamma']), 'c')
    t.check('last: ')


@harness('C18', [dict(kind=k) for k in ('gauss', 'gamma', 'invgamma', 'laplace')], budget=60)
def shared_prior(ctx, kind):
    """one prior object on several parameters counts once for each"""
    t = Toy(ctx)
    p, f, g = prior(ctx, kind, 's')
    t.m.ps[0].set_prior(p)
    t.m.ps[1].set_prior(p)
    t.pri[0] = t.pri[1] = (f, g)
    t.con[0] = t.con[1] = kind != 'gauss'
    t.check()
    t.m.ps[0].unset_prior()
    t.pri[0] = None
    t.check('one removed: ')


@harness('C18', [dict(kind=k) for k in ('gauss', 'gamma', 'invgamma')], budget=60)
def after_moves(ctx, kind):
    """the terms follow the current parameter values"""
    t = Toy(ctx)
    t.set(0, kind, 'a')
    t.set(2, 'gamma', 'b')
    t.check()
    for i in (0, 2):
        t.vals[i] = [ctx.real('w%d_%d' % (i, j), lo=ctx.frac(1, 8), hi=3) for j in range(len(t.vals[i]))]
        t.m.ps[i][:] = ctx.arr(t.vals[i])
        t.check('after moving %d: ' % i)
