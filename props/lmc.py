"""Multi-output kernels with symbolic parameters, and what they mean."""
from . import common as C
from .c09 import build


class FK:
    """A FunctionalKernel under test plus its documented meaning.

    spec: dict(D=, P=, lmc=[(kind, rank, ad)], slfm=[(kind, ad)], indep=[(kind, ad)], index=[..] or None)
    kinds: those of c09.build, or 'uf' for an arbitrary function of the distance and one hyperparameter."""

    def __init__(self, ctx, spec, tag='', names=None, setdim=True, unit=1):
        self.ctx = ctx
        self.unit = u = unit      # coregionalization vectors in this unit, variances in its square
        self.spec = spec
        D, P = spec['D'], spec.get('P', 1)
        self.D, self.P = D, P
        self.q = []        # dict(kernel, f, ad, names, A rows, kappa)
        lmc, slfm, indep = spec.get('lmc', []), spec.get('slfm', []), spec.get('indep', [])
        idx = spec.get('index')
        self.kernels = []

        def mk(kind, ad, q):
            t = '%sk%d' % (tag, q)
            if kind == 'uf':
                k, nm, f = ufkern(ctx, t)
                if ad is not None:
                    k.active_dims = ad if not isinstance(ad, list) else list(ad)
            else:
                k, nm, f = build(ctx, kind, t, name=t, ad=ad)
            self.kernels.append(k)
            return k, nm, f, tuple(sorted(ad)) if ad is not None else tuple(range(P))
        q = 0
        for kind, rank, ad in lmc:
            k, nm, f, ad = mk(kind, ad, q)
            A = [[u * ctx.real('%sa%d_%d_%d' % (tag, q, r, d), lo=-3, hi=3) for d in range(D)] for r in range(rank)]
            kap = [u * u * ctx.real('%skap%d_%d' % (tag, q, d), pos=True) for d in range(D)]
            self.q.append(dict(kind='lmc', k=k, f=f, ad=ad, names=nm, A=A, kap=kap,
                               an=[['%sa%d_%d_%d' % (tag, q, r, d) for d in range(D)] for r in range(rank)],
                               kn=['%skap%d_%d' % (tag, q, d) for d in range(D)]))
            q += 1
        for kind, ad in slfm:
            k, nm, f, ad = mk(kind, ad, q)
            A = [[u * ctx.real('%sa%d_0_%d' % (tag, q, d), lo=-3, hi=3) for d in range(D)]]
            self.q.append(dict(kind='slfm', k=k, f=f, ad=ad, names=nm, A=A, kap=[0] * D,
                               an=[['%sa%d_0_%d' % (tag, q, d) for d in range(D)]], kn=None))
            q += 1
        for i, (kind, ad) in enumerate(indep):
            k, nm, f, ad = mk(kind, ad, q)
            d = idx[i] if idx else i
            self.q.append(dict(kind='indep', k=k, f=f, ad=ad, names=nm, A=[[0] * D],
                               kap=[1 if e == d else 0 for e in range(D)], an=None, kn=None))
            q += 1
        self.noise = [u * u * ctx.real('%snoise_%d' % (tag, d), lo=ctx.frac(1, 100), hi=4) for d in range(D)]
        self.noise_names = ['%snoise_%d' % (tag, d) for d in range(D)]
        kw = dict(D=D, lmc_kernels=self.kernels[:len(lmc)], lmc_ranks=[r for _, r, _ in lmc],
                  slfm_kernels=self.kernels[len(lmc):len(lmc) + len(slfm)],
                  indep_gp=self.kernels[len(lmc) + len(slfm):])
        if idx:
            kw['indep_gp_index'] = list(idx)
        self.fk = ctx.mod('lmc.functional_kernel').FunctionalKernel(**kw)
        if setdim:
            self.fk.set_input_dim(P)
        self.push()

    def push(self):
        ctx = self.ctx
        self.fk.coreg_vecs = [ctx.arr(e['A']) for e in self.q if e['kind'] != 'indep']
        self.fk.coreg_diags = [ctx.arr(e['kap']) for e in self.q if e['kind'] == 'lmc']
        self.fk.noise = ctx.arr(self.noise)

    def B(self, q):
        e = self.q[q]
        D = self.D
        return [[sum((a[i] * a[j] for a in e['A']), 0) + (e['kap'][i] if i == j else 0) for j in range(D)]
                for i in range(D)]

    def active(self):
        out = {}
        for q, e in enumerate(self.q):
            out.setdefault(e['ad'], []).append(q)
        return out

    def cov(self, a, x, b, z):
        """covariance between point x of output a and point z of output b"""
        tot = 0
        for q, e in enumerate(self.q):
            tot = tot + self.B(q)[a][b] * e['f'](euclid(self.ctx, x, z, e['ad']))
        return tot

    def K(self, Xs, Zs=None):
        Zs = Xs if Zs is None else Zs
        return [[self.cov(a, x, b, z) for b, Z in enumerate(Zs) for z in Z] for a, X in enumerate(Xs) for x in X]

    def param_names(self):
        out = []
        for e in self.q:
            out += e['names']
        return out


def leaf(ctx, fk, values):
    """the parameter holding exactly these values"""
    want = ctx.els(values)
    for p in fk.flattened_parameters:
        e = ctx.els(p)
        if len(e) == len(want) and all((a - b).poly == {} if ctx.symbolic else a == b for a, b in zip(e, want)):
            return p
    return None


def euclid(ctx, x, z, ad):
    if len(ad) == 1:
        return ctx.abs(x[ad[0]] - z[ad[0]])
    return ctx.sqrt(sum(((x[d] - z[d]) * (x[d] - z[d]) for d in ad), 0))


def ufkern(ctx, tag):
    """an arbitrary stationary kernel with one positive hyperparameter"""
    SK = ctx.mod('kern.stationary_kern').StationaryKern
    Param = ctx.mod('parameterization.param').Param
    th = ctx.real(tag + 'theta', lo=ctx.frac(1, 4), hi=3)
    fn = lambda d, t: ctx.uf('k_' + tag, d, t)

    class K(SK):
        def __init__(self):
            super().__init__(tag)
            self.theta = Param('theta', ctx.arr([th]))
            self.link_parameter(self.theta)

        def _map(self, g, dists):
            a = ctx.np.asarray(dists)
            return ctx.arr([g(d) for d in ctx.els(a)]).reshape(a.shape)

        def from_dist(self, dists):
            t = ctx.els(self.theta)[0]
            return self._map(lambda d: fn(d, t), dists)

        def kernel_gradient(self, dists):
            t = ctx.els(self.theta)[0]
            return [self._map(lambda d: ctx.uf('d1_k_' + tag, d, t), dists)]

        def update_gradient(self, grad):
            self.theta.gradient = grad
    return K(), [tag + 'theta'], lambda d: fn(d, th)


def pts(ctx, name, lens, P, lo=-2, hi=2):
    """one (n_d, P) array per output, and the points as lists"""
    arrs, lst = [], []
    for d, n in enumerate(lens):
        if n:
            X = ctx.mat('%s%d' % (name, d), n, P, lo=lo, hi=hi)
        else:
            X = ctx.np.zeros((0, P))
        arrs.append(X)
        lst.append([[X[i, p] for p in range(P)] for i in range(n)])
    return arrs, lst


def outs(ctx, name, lens, lo=-3, hi=3):
    arrs = [ctx.vec('%s%d' % (name, d), n, lo=lo, hi=hi) if n else ctx.np.zeros(0) for d, n in enumerate(lens)]
    return arrs, [v for a in arrs for v in list(a)]


MIX = {
    'lmc1': dict(D=1, lmc=[('rbf', 1, None)]),
    'lmc2': dict(D=2, lmc=[('rbf', 2, None)]),
    'lmc22': dict(D=2, lmc=[('rbf', 1, None), ('matern', 2, None)]),
    'slfm2': dict(D=2, slfm=[('rbf', None), ('periodic', None)]),
    'slfm1': dict(D=2, slfm=[('rbf', None)]),
    'indep2': dict(D=2, indep=[('rbf', None), ('matern', None)]),
    'indep1': dict(D=2, indep=[('rbf', None)]),
    'indep_idx': dict(D=3, indep=[('rbf', None), ('identity', None)], index=[2, 0]),
    'indep_same': dict(D=2, indep=[('rbf', None), ('matern', None)], index=[1, 1]),
    'mix': dict(D=2, lmc=[('rbf', 1, None)], slfm=[('matern', None)], indep=[('rbf', None), ('matern', None)]),
    'mix3': dict(D=3, lmc=[('rbf', 2, None)], slfm=[('rbf', None)], indep=[('matern', None)], index=[1]),
    'scaled': dict(D=2, lmc=[('scaled_rbf', 1, None)], slfm=[('scaled_identity', None)]),
    'p2': dict(D=2, P=2, lmc=[('rbf', 1, None)], slfm=[('matern', None)]),
    'ads': dict(D=2, P=2, lmc=[('rbf', 1, [0])], slfm=[('rbf', [1])], indep=[('rbf', None)], index=[1]),
    'ads_rev': dict(D=2, P=2, lmc=[('rbf', 1, [1, 0]), ('rbf', 1, [0])], slfm=[('matern', [1])]),
    'ads_tuple': dict(D=2, P=3, lmc=[('rbf', 1, (2, 0))], slfm=[('rbf', (1,)), ('rbf', (0, 2))], indep=[('rbf', (2,))]),
    'ads_scaled': dict(D=2, P=2, lmc=[('scaled_rbf', 1, [1]), ('periodic', 1, [0])], slfm=[('scaled_scaled_rbf', [0])],
                       indep=[('identity', [1]), ('matern', [0])]),
    'uf': dict(D=2, P=2, lmc=[('uf', 1, [0])], slfm=[('uf', [1])], indep=[('uf', None)], index=[0]),
}


class Solver:
    """Stands in for the iterative solver: the exact solution K^-1 y (contract; the solver itself is C19)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []
        It = ctx.mod('approx.iterative').Iterative
        It.solve = staticmethod(self.solve)

    def dense(self, K):
        np = self.ctx.np
        n = int(K.shape[0])
        cols = []
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1
            cols.append(self.ctx.els(K.matvec(e)))
        D = [[cols[j][i] for j in range(n)] for i in range(n)]
        return D

    def solve(self, K, y, verbose=False, minres=True, tol=1e-4):
        ctx = self.ctx
        V = ctx.inv(ctx.arr(self.dense(K)))
        b = ctx.els(y)
        self.calls.append((K, b, tol))
        x = ctx.arr(C.mv([[V[i, j] for j in range(len(b))] for i in range(len(b))], b))
        return (x, 1, 0.0) if verbose else x


def quad(V, a, b):
    n = len(a)
    return sum((a[i] * V[i][j] * b[j] for i in range(n) for j in range(n)), 0)


def asrows(ctx, V):
    n, m = int(V.shape[0]), int(V.shape[1])
    return [[V[i, j] for j in range(m)] for i in range(n)]
