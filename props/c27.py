"""Recorded metrics and optimization of a whole model."""
import itertools
from symx.harness import harness
from .c14 import tape
from .lmc import Solver, leaf
from .model import M

SERIES = ['iterations', 'grad_norms', 'grad_error', 'solv_error', 'log_likely']


class Noted(Solver):
    """exact solutions, reported with arbitrary iteration counts and residuals"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.batch = []

    def solve(self, K, y, verbose=False, minres=True, tol=1e-4):
        x = super().solve(K, y, False, minres, tol)
        if not verbose:
            return x
        k = len(self.batch)
        c = self.ctx.real('count%d' % k, lo=1, hi=9)
        e = self.ctx.real('residual%d' % k, lo=0, hi=2)
        self.batch.append((c, e))
        return x, c, e


def lengths(m):
    return [len(getattr(m, s)) for s in SERIES]


class Gradients:
    """arbitrary gradients, of the right shapes, for the approximate and the exact likelihood"""

    def __init__(self, ctx):
        self.ctx, self.now = ctx, {}
        L = ctx.mod('lmc.likelihood')
        for cls, kind in ((L.ApproxLMCLikelihood, 'approx'), (L.ExactLMCLikelihood, 'exact')):
            for name in ('coreg_vec_gradients', 'coreg_diags_gradients', 'kernel_gradients', 'noise_gradient'):
                setattr(cls, name, self.method(kind, name))

    def new(self, step):
        self.now, self.step = {}, step

    def method(self, kind, name):
        ctx = self.ctx

        def get(lik):
            fk = lik.functional_kernel
            if (kind, name) not in self.now:
                k = [0]

                def real():
                    k[0] += 1
                    if kind == 'exact' and name == 'noise_gradient' and k[0] == 1:
                        return ctx.real('%s_%s_%s_%d' % (self.step, kind, name, k[0]), lo=1, hi=5)
                    return ctx.real('%s_%s_%s_%d' % (self.step, kind, name, k[0]), lo=-5, hi=5)
                D = fk.D
                if name == 'coreg_vec_gradients':
                    v = [[[real() for _ in range(D)] for _ in range(len(a))] for a in fk.coreg_vecs]
                elif name == 'coreg_diags_gradients':
                    v = [[real() for _ in range(D)] for _ in range(fk.Q)]
                elif name == 'kernel_gradients':
                    v = [[real() for _ in g] for g in lik.materialized_grads]
                else:
                    v = [real() for _ in range(D)]
                self.now[kind, name] = v
            v = self.now[kind, name]
            if name == 'noise_gradient':
                return ctx.arr(v)
            if name == 'kernel_gradients':
                return [list(r) for r in v]
            return [ctx.arr(r) for r in v]
        return get

    def flat(self, kind):
        def go(v):
            return [x for e in v for x in go(e)] if isinstance(v, list) else [v]
        names = ('coreg_vec_gradients', 'coreg_diags_gradients', 'kernel_gradients', 'noise_gradient')
        return [x for n in names for x in go(self.now[kind, n])]


def describes(ctx, m, S, G, i, label):
    """entry i of every series is that of the current parameters; S.batch holds the solves of this step"""
    met = m.model.metrics
    n = len(S.batch)
    ctx.eq(label + ': mean iterations', met.iterations[i], sum((c for c, _ in S.batch), 0) / n)
    ctx.eq(label + ': mean residual', met.solv_error[i], sum((e for _, e in S.batch), 0) / n)
    if G is not None:
        ap, ex = G.flat('approx'), G.flat('exact')
        big = lambda v: ctx.max([ctx.abs(x) for x in v])
        ctx.eq(label + ': gradient norm', met.grad_norms[i], big(ap))
        ctx.eq(label + ': gradient error', met.grad_error[i] * big(ex), big([a - b for a, b in zip(ap, ex)]))
    ctx.eq(label + ': log likelihood', met.log_likely[i], m.model.log_likelihood())
    ctx.eq(label + ': documented log likelihood', met.log_likely[i], m.loglik())


@harness('C27', [dict(mix=x, trace=t) for x, t in (('lmc1', 1), ('lmc1', 2), ('slfm1', 1), ('indep1', 1))],
         [dict(mix=x, trace=t) for x, t in (('lmc2', 1), ('lmc2', 3), ('slfm2', 1), ('mix', 1))], budget=150, raw_timeout=1.0)
def step(ctx, mix, trace):
    """one entry per series for the construction and for each parameter change"""
    S, G = Noted(ctx), Gradients(ctx)
    tape(ctx, itertools.repeat(1))
    G.new('a')
    m = M(ctx, mix, metrics=True, trace=trace)
    ctx.eq('entries after construction', lengths(m.model.metrics), [1] * 5)
    ctx.eq('solves', len(S.batch), 1 + trace)
    describes(ctx, m, S, G, 0, 'construction')
    S.batch = []
    G.new('b')
    m.F.noise = [v + 1 for v in m.F.noise]
    m.F.fk.noise = ctx.arr(m.F.noise)
    ctx.eq('entries after a change', lengths(m.model.metrics), [2] * 5)
    describes(ctx, m, S, G, 1, 'change')
    before = lengths(m.model.metrics)
    m.model.log_likelihood()
    m.model.K()
    ctx.eq('queries record nothing', lengths(m.model.metrics), before)


@harness('C27', [dict(mix=x) for x in ('lmc1', 'lmc2', 'slfm1')], budget=100, raw_timeout=1.0)
def off(ctx, mix):
    """recording changes neither gradients nor likelihood, and is off by default"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    m = M(ctx, mix, metrics=False)
    ctx.check('nothing recorded', m.model.metrics is None)
    g, l = ctx.els(ctx.np.array(m.model.gradient)), m.model.log_likelihood()
    n = M(ctx, mix, metrics=True)
    ctx.eq('gradient', ctx.els(ctx.np.array(n.model.gradient)), g)
    ctx.eq('log likelihood', n.model.log_likelihood(), l)


def optimizer(ctx, steps, log):
    """moves to the given points one after another, asking for objective and gradient at each"""
    class O(ctx.facade('paramz.optimization').Optimizer):
        def opt(self, x, f_fp=None, f=None, fp=None):
            for s in steps:
                p = ctx.arr(ctx.els(x)) * 1.0
                for i, d in s:
                    p[i] = p[i] + d
                log.append((ctx.els(p), ctx.els(ctx.np.array(fp(p)))))
                x = p
            self.x_opt = x
    return O()


@harness('C27', [dict(mix='slfm1', runs=r) for r in (1, 2)], budget=150, raw_timeout=1.0)
def optimized(ctx, mix, runs):
    """each optimization starts series of its own, one entry per step; the model ends at the optimizer's result"""
    S, G = Noted(ctx), Gradients(ctx)
    G.new('g')
    tape(ctx, itertools.repeat(1))
    m = M(ctx, mix, metrics=True)
    vec = leaf(ctx, m.F.fk, m.F.fk.coreg_vecs[0])
    for p in m.F.fk.flattened_parameters:      # only the (unconstrained) coregionalization vector moves
        if p is not vec:
            p.constrain_fixed()
    old = [m.model.metrics]
    kept = [lengths(old[0])]
    for r in range(runs):
        log = []
        d = ctx.real('d%d' % r, lo=ctx.frac(-1, 2), hi=ctx.frac(1, 2))
        S.batch = []
        m.model.optimize(optimizer=optimizer(ctx, [[(0, d)]], log))
        ctx.check('own series', all(m.model.metrics is not o for o in old))
        for o, k in zip(old, kept):
            ctx.eq('earlier series untouched', lengths(o), k)
        n = lengths(m.model.metrics)
        ctx.check('as many entries in every series', len(set(n)) == 1 and n[0] >= 1)
        S.batch = S.batch[-2:]
        e = m.F.q[0]
        e['A'] = [[e['A'][0][0] + d] + list(e['A'][0][1:])]
        ctx.eq('parameters', ctx.els(ctx.np.array(m.F.fk.coreg_vecs[0])), e['A'][0])
        describes(ctx, m, S, None, -1, 'run %d' % r)
        old.append(m.model.metrics)
        kept.append(n)
