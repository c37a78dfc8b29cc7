"""The adapter to GPy."""
import types
from symx.harness import harness
from .c16 import pick


class P:
    """a parameter of a GPy kernel"""

    def __init__(self, v):
        self.v, self.fixed = v, False

    def constrain_fixed(self, value=None, *a, **k):
        if value is not None:
            self.v = value
        self.fixed = True

    fix = constrain_fixed

    def __getitem__(self, i):
        return self.v


def fake(ctx):
    """GPy as far as the adapter uses it: kernels by their documented formulas, a model which is an arbitrary linear
    function of the input and of the output index"""
    class Kern:
        def __init__(self, input_dim, variance=1., lengthscale=None, ARD=False, active_dims=None, name='k', period=None, **kw):
            self.input_dim, self.name, self.active_dims = input_dim, name, active_dims
            self.variance, self.lengthscale, self.period = P(variance), P(lengthscale), P(period)
            if kw:
                raise TypeError('unexpected %s' % sorted(kw))

        def __add__(self, o):
            return Sum([self, o])

    class RBF(Kern):
        def at(self, r):
            return self.variance.v * ctx.exp(-r * r / (2 * self.lengthscale.v * self.lengthscale.v))

    class Matern32(Kern):
        def at(self, r):
            s = ctx.sqrt(3) * r / self.lengthscale.v
            return self.variance.v * (1 + s) * ctx.exp(-s)

    class StdPeriodic(Kern):
        def __init__(self, input_dim, variance=1., period=None, lengthscale=None, **kw):
            super().__init__(input_dim, variance=variance, period=period, lengthscale=lengthscale, **kw)

        def at(self, r):
            s = ctx.sin(ctx.pi * r / self.period.v)
            return self.variance.v * ctx.exp(-s * s / (2 * self.lengthscale.v * self.lengthscale.v))

    class ICMK(Kern):
        def __init__(self, kernel, rank, outputs, input_dim, name):
            self.kernel, self.rank, self.outputs, self.input_dim, self.name = kernel, rank, outputs, input_dim, name
            self.parts = [self]

    class Sum(Kern):
        def __init__(self, parts):
            self.parts = [q for p in parts for q in p.parts]
            self.name = 'sum'

    def ICM(input_dim, num_outputs, kernel, W_rank=1, W=None, kappa=None, name='ICM'):
        return ICMK(kernel, W_rank, num_outputs, input_dim, name)

    class Model:
        def __init__(self, X_list, Y_list, kernel=None, num_inducing=None, **kw):
            self.X, self.Y, self.kernel, self.num_inducing = X_list, Y_list, kernel, num_inducing
            self.optimized = None
            self.asked = []

        def log_likelihood(self):
            return ctx.real('ll')

        def optimize(self, **kw):
            self.optimized = kw

        def _rows(self, X, Y_metadata):
            n, w = X.shape
            ix = Y_metadata['output_index']
            ctx.check('metadata shape', tuple(ix.shape) == (n, 1))
            out = []
            for i in range(n):
                d = int(ix[i, 0])
                ctx.eq('output index of a test point', X[i, w - 1], d)
                out.append(value(ctx, [X[i, j] for j in range(w - 1)], d))
            return out

        def predict(self, X, full_cov=False, Y_metadata=None, **kw):
            r = self._rows(X, Y_metadata)
            return column(ctx, [a for a, _ in r]), column(ctx, [b for _, b in r])

        def predict_quantiles(self, X, quantiles=(2.5, 97.5), Y_metadata=None, **kw):
            r = self._rows(X, Y_metadata)
            return [column(ctx, [a + q * b for a, b in r]) for q in quantiles]

    class Dense(Model):
        pass

    class Sparse(Model):
        pass
    G = types.ModuleType('GPy')
    for n in ('kern', 'models', 'util'):
        setattr(G, n, types.ModuleType('GPy.' + n))
        ctx.stub('GPy.' + n, getattr(G, n))
    G.util.multioutput = types.ModuleType('GPy.util.multioutput')
    ctx.stub('GPy.util.multioutput', G.util.multioutput)
    ctx.stub('GPy', G)
    G.kern.RBF, G.kern.Matern32, G.kern.StdPeriodic = RBF, Matern32, StdPeriodic
    G.util.multioutput.ICM = ICM
    G.models.GPCoregionalizedRegression, G.models.SparseGPCoregionalizedRegression = Dense, Sparse
    return G


def column(ctx, v):
    np = ctx.np
    out = np.zeros((len(v), 1))
    for i, x in enumerate(v):
        out[i, 0] = x
    return out


def value(ctx, x, d):
    """mean and variance of the stand-in at a point of output d"""
    a = ctx.real('mu%d' % d) + sum((ctx.real('slope%d' % j) * v for j, v in enumerate(x)), 0)
    return a, ctx.real('var%d' % d) + x[0] * x[0]


KINDS = ['rbf', 'matern', 'periodic']


def kernel(ctx, kind, tag):
    q = ctx.frac
    l = ctx.real(tag + 'l', lo=q(1, 4), hi=4)
    if kind == 'rbf':
        return ctx.mod('kern.rbf').RBF(l, name=tag + 'k')
    if kind == 'matern':
        return ctx.mod('kern.matern32').Matern32(l, name=tag + 'k')
    return ctx.mod('kern.std_periodic').StdPeriodic(l, ctx.real(tag + 'p', lo=q(1, 4), hi=4), name=tag + 'k')


def same_kernel(ctx, label, k, g, r):
    ctx.eq(label + ': variance', g.variance.v, 1)
    ctx.check(label + ': variance fixed', g.variance.fixed)
    ctx.eq(label + ': covariance', g.at(r), ctx.els(k.from_dist(ctx.arr([r]) * 1.0))[0])
    ctx.check(label + ': name', g.name == k.name)


@harness('C24', [dict(kind=k, moved=m) for k in KINDS for m in (False, True)], budget=100)
def kernels(ctx, kind, moved):
    """the kernel handed over, also after its parameters moved"""
    fake(ctx)
    k = kernel(ctx, kind, 'a')
    if moved:
        k.inv_lengthscale[:] = ctx.real('l2', lo=ctx.frac(1, 4), hi=4)
        if kind == 'periodic':
            k.period[:] = ctx.real('p2', lo=ctx.frac(1, 4), hi=4)
    same_kernel(ctx, kind, k, k.to_gpy(), ctx.real('r', lo=0, hi=5))


@harness('C24', [dict(kind=k) for k in KINDS], budget=100)
def kernels_in_gpy(ctx, kind):
    """the formulas the stand-ins use are GPy's (replays use GPy itself)"""
    if ctx.symbolic:
        fake(ctx)
    k = kernel(ctx, kind, 'a')
    r = ctx.real('r', lo=0, hi=5)
    g = k.to_gpy()
    if ctx.symbolic:
        got = g.at(r)
    else:
        ctx.check('fixed', g.variance.is_fixed)
        got = float(g.K(ctx.np.zeros((1, 1)), ctx.np.full((1, 1), r))[0, 0])
    ctx.eq('covariance', got, ctx.els(k.from_dist(ctx.arr([r]) * 1.0))[0])


def model(ctx, D, dim, kinds, ranks, sparse, lens):
    fake(ctx)
    np = ctx.np
    G = ctx.mod('models.gpy_lmc').GPyLMC
    Xs, Ys = [], []
    for d in range(D):
        X = ctx.vec('x%d_' % d, lens[d] * dim)
        Xs.append(X if dim == 1 else X.reshape(lens[d], dim))
        y = ctx.vec('y%d_' % d, lens[d], lo=-3, hi=3)
        ctx.assume(y[0] != y[1])
        Ys.append(y)
    ks = [kernel(ctx, k, 'k%d' % i) for i, k in enumerate(kinds)]
    kw = dict(sparse=sparse) if sparse is not None else {}
    m = G(Xs, Ys, ks, ranks, **kw)
    g = m.gpy_model
    ctx.check('inputs', [tuple(X.shape) for X in g.X] == [(n, dim) for n in lens])
    ctx.check('outputs', [tuple(Y.shape) for Y in g.Y] == [(n, 1) for n in lens])
    for d in range(D):
        ctx.eq('training inputs', g.X[d].reshape(-1), Xs[d].reshape(-1))
        ctx.eq('training outputs', g.Y[d].reshape(-1), Ys[d])
    ctx.check('inference', type(g).__name__ == ('Sparse' if sparse else 'Dense') and (not sparse or g.num_inducing == sparse))
    parts = g.kernel.parts
    ctx.check('one term per kernel', len(parts) == len(ks))
    r = ctx.real('r', lo=0, hi=5)
    for k, p, rank in zip(ks, parts, ranks):
        same_kernel(ctx, 'term', k, p.kernel, r)
        ctx.check('rank', p.rank == rank)
        ctx.check('number of outputs', p.outputs == D)
    return m, parts


def predictions(ctx, m, D, dim, hi=2, ns=None, tag='z'):
    ns = ns or [pick(ctx, 'n%d' % d, list(range(hi + 1))) for d in range(D)]
    Zs, zl = [], []
    for d, n in enumerate(ns):
        z = [[ctx.real('%s%d_%d_%d' % (tag, d, i, j)) for j in range(dim)] for i in range(n)]
        Z = ctx.np.zeros((n, dim))
        for i in range(n):
            for j in range(dim):
                Z[i, j] = z[i][j]
        Zs.append(Z.reshape(-1) if dim == 1 else Z)
        zl.append(z)
    mu, var = m.predict(Zs)
    ctx.check('outputs predicted', (len(mu), len(var)) == (D, D))
    qs = pick(ctx, tag + 'quantiles', [(ctx.frac(5, 2), 50), (5, 50, 95), (30,), None])
    Q = m.predict_quantiles(Zs) if qs is None else m.predict_quantiles(Zs, qs)
    if qs is None:
        qs = (ctx.frac(5, 2), ctx.frac(195, 2))
    ctx.check('outputs predicted', len(Q) == D)
    for d in range(D):
        want = [value(ctx, z, d) for z in zl[d]]
        ctx.check('length', tuple(mu[d].shape) == tuple(var[d].shape) == (ns[d],) and tuple(Q[d].shape) == (ns[d], len(qs)))
        ctx.eq('mean', mu[d], [a for a, _ in want])
        ctx.eq('variance', var[d], [b for _, b in want])
        for i, (a, b) in enumerate(want):
            ctx.eq('quantiles', Q[d][i], [a + q * b for q in qs])
    return Zs, mu, var, Q


@harness('C24', [dict(D=D, kinds=k, sparse=s) for D, k, s in (
    (1, ['rbf'], None), (1, ['matern', 'rbf'], 3), (2, ['rbf'], 0), (2, ['rbf', 'periodic'], 2),
    (2, ['matern', 'rbf', 'periodic'], None), (3, ['periodic', 'periodic'], None))], budget=200, max_paths=300)
def adapter(ctx, D, kinds, sparse):
    """what is handed over, and what comes back"""
    m, parts = model(ctx, D, 1, kinds, [1 + i % 3 for i in range(len(kinds))], sparse, [2, 3, 2][:D])
    ctx.check('output index column', all(p.input_dim == 1 for p in parts))
    predictions(ctx, m, D, 1, 2 if D < 3 else 1)
    ctx.eq('log likelihood', m.log_likelihood(), ctx.real('ll'))
    m.optimize(max_iters=7, messages=False)
    ctx.check('optimization options', m.gpy_model.optimized == dict(max_iters=7, messages=False))


@harness('C24', [dict(D=1, ns=[9]), dict(D=2, ns=[3, 8]), dict(D=5, ns=[2, 0, 7, 1, 4])], budget=100, max_paths=100)
def more_points(ctx, D, ns):
    """more outputs and points, several predictions of one model, results overwritten by the caller, points changed in place"""
    m, parts = model(ctx, D, 1, ['rbf', 'matern'], [1, 2], None, [2, 5, 3, 2, 4][:D])
    Zs, mu, var, Q = predictions(ctx, m, D, 1, ns=ns)
    for a in list(mu) + list(var) + list(Q):
        a[...] = 0
    predictions(ctx, m, D, 1, ns=ns, tag='w')
    predictions(ctx, m, D, 1, ns=ns[::-1], tag='v')
    new = [[ctx.real('u%d_%d' % (d, i)) for i in range(n)] for d, n in enumerate(ns)]
    for Z, z in zip(Zs, new):
        for i, v in enumerate(z):
            Z[i] = v
    mu, var = m.predict(Zs)
    for d in range(D):
        ctx.eq('mean after the points changed', mu[d], [value(ctx, [v], d)[0] for v in new[d]])
        ctx.eq('variance after the points changed', var[d], [value(ctx, [v], d)[1] for v in new[d]])


@harness('C24', [dict(D=2)], budget=100, max_paths=300)
def two_dimensional(ctx, D):
    """inputs with two columns"""
    m, parts = model(ctx, D, 2, ['rbf'], [1], None, [2, 2])
    predictions(ctx, m, D, 2, 1)
    ctx.check('output index column', all(p.input_dim == 2 for p in parts))
