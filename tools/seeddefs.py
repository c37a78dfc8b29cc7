"""Planted changes: where, what, and a demonstration."""
LLGP = 'runlmc/models/interpolated_llgp.py'
MGP = 'runlmc/models/multigp.py'
INT = 'runlmc/approx/interpolation.py'
MODEL = '''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.kern.rbf import RBF
def model(**kw):
    fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.0)], lmc_ranks=[1])
    fk.coreg_vecs = [np.array([[1.0, 0.5]])]
    X = [np.linspace(0, 1, 6), np.linspace(0.05, 0.95, 5)]
    Y = [np.sin(3 * X[0]), 2 * np.cos(2 * X[1])]
    kw.setdefault('max_procs', 1)
    return InterpolatedLLGP(X, Y, functional_kernel=fk, **kw), fk
Z = [np.array([0.3, 0.7]), np.array([0.5])]
'''
SEEDS = {
    's01-stale-prior-variance': dict(
        property='C16', needs='predict, then change a parameter, then predict again on the same model',
        breaks='predictive variances keep using the prior variance of the old parameters',
        edits=[(LLGP, "        self._native_variance.cache_clear()\n", "")],
        demo=MODEL + '''
m, fk = model()
m.predict(Z)
fk.noise = np.array([0.7, 0.9])
v = m.predict(Z)[1]
m2, fk2 = model()
fk2.noise = np.array([0.7, 0.9])
w = m2.predict(Z)[1]
assert all(np.allclose(a, b, atol=1e-3) for a, b in zip(v, w)), (v, w)
'''),
    's03-quantile-order': dict(
        property='C17', needs='quantiles requested in non-increasing order',
        breaks='the columns of the quantile table come back sorted, not in the order asked for',
        edits=[(MGP, "        quantiles = np.fromiter(quantiles, dtype=float)\n",
                "        quantiles = np.unique(np.fromiter(quantiles, dtype=float))\n")],
        demo=MODEL + '''
m, fk = model()
q = m.predict_quantiles(Z, (97.5, 2.5))
assert (q[0][:, 0] > q[0][:, 1]).all(), q
assert m.predict_quantiles(Z, (50, 50))[0].shape == (2, 2)
'''),
    's04-scaled-gradient': dict(
        property='C10', needs='a scaled kernel whose scale is not one',
        breaks='gradients of a scaled kernel with respect to the inner hyperparameters miss the scale',
        edits=[('runlmc/kern/scaled.py', "        grad = [self.scale * g for g in self.k.kernel_gradient(dists)]\n",
                "        grad = list(self.k.kernel_gradient(dists))\n")],
        demo='''
from runlmc.kern.rbf import RBF
from runlmc.kern.scaled import Scaled
d = np.array([0.3, 1.0])
def f(g):
    k = Scaled(RBF(g)); k.scale[:] = 3.0
    return k
num = (f(1.0 + 1e-6).from_dist(d) - f(1.0 - 1e-6).from_dist(d)) / 2e-6
assert np.allclose(num, f(1.0).kernel_gradient(d)[0], atol=1e-5)
'''),
    's05-diag-part-dropped': dict(
        property='C12', needs='a low-rank mixture with independent kernels but no LMC kernel on the grid',
        breaks='the diagonal part of the grid covariance is left out',
        edits=[('runlmc/lmc/grid_kernel.py', "    if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:\n",
                "    if fk.num_lmc[active_dim] == 0:\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.grid_kernel import gen_grid_kernel
from runlmc.kern.rbf import RBF
import scipy.sparse
D, m = 4, 5
fk = FunctionalKernel(D=D, lmc_kernels=[], lmc_ranks=[], slfm_kernels=[RBF(1.0)], indep_gp=[RBF(2.0)] * 1)
fk.set_input_dim(1)
W = scipy.sparse.identity(D * m, format='csr')
d = np.arange(m) / 3.0
K, _ = gen_grid_kernel(fk, {(0,): d}, {(0,): (W, W)}, [m] * D)
from scipy.linalg import toeplitz
E = sum(np.kron(B, toeplitz(k)) for B, k in zip(fk.coreg_mats(), fk.eval_kernels({(0,): d}))) + 0.1 * np.eye(D * m)
x = np.random.randn(D * m)
assert np.allclose(K.matvec(x), E.dot(x)), np.abs(K.matvec(x) - E.dot(x)).max()
'''),
    's07-grid-upper-bound': dict(
        property='C08', needs='an upper bound supplied by the user that is below some input',
        breaks='the grid no longer covers the inputs with two points to spare',
        edits=[(INT, "    hi = (min_hi if hi is None else np.maximum(hi, min_hi)).astype(float)\n",
                "    hi = (min_hi if hi is None else np.asarray(hi)).astype(float)\n")],
        demo='''
from runlmc.approx.interpolation import autogrid
g, = autogrid([np.array([[0.0], [1.0]])], None, np.array([0.5]), np.array([6]))
assert (g > 1).sum() >= 2 and (g < 0).sum() >= 2, g
'''),
    's08-negative-variance': dict(
        property='C15', needs='a point whose approximate explained variance exceeds its prior variance',
        breaks='negative variances are reflected instead of clipped at zero',
        edits=[(LLGP, "        var[var < 0] = 0\n", "        var = np.fabs(var)\n")],
        demo=MODEL + '''
m, fk = model(normalize=False, m=3)
fk.noise = np.array([1e-3, 1e-3])
m._var_predict_on_the_fly = lambda *a: np.full(3, 1e6)
v = np.concatenate(m.predict(Z)[1])
assert (v == 0).all(), v
'''),
    's10-and-convergence': dict(
        property='C19', needs='a solver that reports success with a residual above the tolerance, or failure with a small one',
        breaks='only solves failing both ways are reported',
        edits=[('runlmc/approx/iterative.py', "        if error > tol or succ != 0:\n", "        if error > tol and succ != 0:\n")],
        demo='''
import logging
from runlmc.approx import iterative
from runlmc.linalg.diag import Diag
seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r)
iterative._LOG.addHandler(H())
# scipy's relative stopping rule accepts this solution; its residual is far above the tolerance
K, y = Diag(np.array([1.0, 2.0, 3.0])), 1e12 * np.array([1.0, 1.0, 1.0])
y = y * np.pi
x, _, err = iterative.Iterative.solve(K, y, verbose=True, tol=1e-14)
true = np.linalg.norm(y - K.matvec(x))
assert (true > 1e-14) == bool(seen), (true, seen)
'''),
    's11-relative-early-stop': dict(
        property='C19', needs='more than 100 iterations with a right-hand side of large norm',
        breaks='early termination compares with a relative tolerance, the result is above the absolute one',
        edits=[('runlmc/approx/iterative.py', "                if reconstruction < tol:\n",
                "                if reconstruction < tol * max(la.norm(y), 1):\n")],
        demo='''
from runlmc.approx.iterative import Iterative
from runlmc.linalg.diag import Diag
n = 400
K = Diag(np.linspace(1, 3000, n))
y = 1e2 * np.ones(n)
x, it, err = Iterative.solve(K, y, verbose=True, tol=1e-3)
assert err <= 1e-3, (it, err)
'''),
    's12-drops-persist': dict(
        property='C20', needs='one optimizer object used for two optimizations',
        breaks='drops used up in the first run are missing in the second',
        edits=[('runlmc/models/optimization.py', "                permitted_drops -= 1\n",
                "                permitted_drops -= 1\n                self.kwargs['permitted_drops'] = max(permitted_drops, 1)\n")],
        demo='''
from runlmc.models.optimization import AdaDelta
opt = AdaDelta(max_it=20, permitted_drops=5)
counts = []
for _ in range(2):
    calls = []
    def fp(x):
        calls.append(1)
        return np.ones(2) * (1.0 if len(calls) == 1 else 1e-3)
    opt.opt(np.zeros(2), fp=fp)
    counts.append(len(calls))
assert counts[0] == counts[1], counts
'''),
    's13-drop-after-recovery': dict(
        property='C20', needs='gradient norms that drop, recover, and drop again',
        breaks='a recovery resets the count of drops, so the run goes on too long',
        edits=[('runlmc/models/optimization.py',
                "                permitted_drops -= 1\n",
                "                permitted_drops -= 1\n            elif grad_norm >= rolling_max:\n                permitted_drops = self.kwargs['permitted_drops']\n")],
        demo='''
from runlmc.models.optimization import AdaDelta
calls = []
def fp(x):
    calls.append(1)
    return np.ones(2) * (1e-3 if len(calls) % 2 == 0 else 1.0)
AdaDelta(max_it=50, permitted_drops=3).opt(np.zeros(2), fp=fp)
assert len(calls) == 6, len(calls)
'''),
    's15-rank-zero': dict(
        property='C22', needs='an LMC rank of zero', breaks='a kernel specification with rank zero is accepted',
        edits=[('runlmc/lmc/functional_kernel.py', "        if not all(map(lambda rank: rank > 0, lmc_ranks)):\n",
                "        if any(map(lambda rank: rank < 0, lmc_ranks)):\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.rbf import RBF
try:
    FunctionalKernel(D=2, lmc_kernels=[RBF(1.0)], lmc_ranks=[0])
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    's16-mixed-dims': dict(
        property='C22', needs='one-dimensional (vector) inputs mixed with two-column ones for another output',
        breaks='inputs of different dimension are accepted',
        edits=[(MGP, "        dims = set(X.shape[1] for X in Xs if X.ndim > 1)\n        if not dims:\n            dims = {1}\n",
                "        dims = {X.shape[-1] for X in Xs if X.ndim > 1} or {1}\n"),
               (MGP, "        Xs = [X.reshape(-1, 1) if X.ndim == 1 else X for X in Xs]\n",
                "        Xs = [X.reshape(-1, self.input_dim) if X.ndim == 1 else X for X in Xs]\n")],
        demo='''
from runlmc.models.multigp import MultiGP
X = [np.random.rand(4, 2), np.random.rand(4)]
Y = [np.random.rand(4), np.random.rand(4)]
try:
    MultiGP(X, Y)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    's17-zero-mean-unchecked': dict(
        property='C23', needs='evaluating the zero mean at inputs for the wrong number of outputs',
        breaks='the zero mean accepts malformed inputs',
        edits=[('runlmc/mean/zero.py', "        self._validate_inputs(Xs)\n        return [np.zeros(len(X)) for X in Xs]\n", "        return [np.zeros(len(X)) for X in Xs]\n")],
        demo='''
from runlmc.mean.zero import Zero
try:
    Zero(1, 2).f([np.zeros(3)])
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    's20-loglik-outputs': dict(
        property='C25', needs='any model: the additive constant is wrong',
        breaks='the normalizing constant counts outputs instead of observations',
        edits=[(LLGP, "        nll += len(self.y) * np.log(2 * np.pi)\n", "        nll += len(self.Ys) * np.log(2 * np.pi)\n")],
        demo=MODEL + '''
m, fk = model(normalize=False)
K, y = m.K(), np.hstack(m.Ys)
e = -0.5 * (np.linalg.slogdet(K)[1] + y.dot(np.linalg.solve(K, y)) + len(y) * np.log(2 * np.pi))
assert abs(m.log_likelihood() - e) < 0.5, (m.log_likelihood(), e)
'''),
    's22-ski-first-interpolant': dict(
        property='C13', needs='kernels on different active dimensions (a split kernel)',
        breaks='gradients of every kernel use the interpolation of the first active-dimension set',
        edits=[('runlmc/lmc/likelihood.py', "        interp = self.interpolants[ad]\n        return SKI(X, *interp)\n",
                "        interp = self.interpolants[ad]\n        for other in self.interpolants.values():\n"
                "            if other[0].shape == interp[0].shape:\n                interp = other\n                break\n        return SKI(X, *interp)\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.0, active_dims=[0]), RBF(1.0, active_dims=[1])], lmc_ranks=[1, 1])
X = [np.random.rand(8, 2), np.random.rand(8, 2)]
Y = [x[:, 0] + np.sin(4 * x[:, 1]) for x in X]
m = InterpolatedLLGP(X, Y, functional_kernel=fk, max_procs=1, m=[8, 8])
W0 = m.interpolants[(0,)][0].toarray()
W1 = m.interpolants[(1,)][0].toarray()
got = m.kernel._dKdt_from_dAdt(np.ones((2, 2)), 1)
x = np.random.rand(16)
K = m.kernel.materialized_kernels[1].as_numpy()
assert np.allclose(got.matvec(x), W1.dot(np.kron(np.ones((2, 2)), K)).dot(W1.T.dot(x)))
'''),
    's23-nu-not-cleared': dict(
        property='C16', needs='precompute mode: predict, change a parameter, predict again',
        breaks='the precomputed variances of the old parameters are used',
        edits=[(LLGP, "        self._precomputed_nu.cache_clear()\n", "")],
        demo=MODEL + '''
m, fk = model(prediction='precompute')
m.predict(Z)
fk.noise = np.array([0.7, 0.9])
v = m.predict(Z)[1]
m2, fk2 = model(prediction='precompute')
fk2.noise = np.array([0.7, 0.9])
w = m2.predict(Z)[1]
assert all(np.allclose(a, b, atol=1e-3) for a, b in zip(v, w)), (v, w)
'''),
    's24-coreg-inplace': dict(
        property='C13', needs='more than one use of the same kernel matrix',
        breaks='scaling by coregionalization is done in place, so derivatives see an already scaled kernel',
        edits=[('runlmc/lmc/likelihood.py', "        K = np.copy(K)\n", "        K = np.asarray(K)\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.0)], lmc_ranks=[1])
fk.set_input_dim(1)
fk.coreg_vecs = [np.array([[1.0, 0.5]])]
X = [np.linspace(0, 1, 3).reshape(-1, 1), np.linspace(0, 1, 2).reshape(-1, 1)]
Y = [np.sin(X[0][:, 0]), np.cos(X[1][:, 0])]
e = ExactLMCLikelihood(fk, X, Y)
assert np.allclose(np.diag(e.materialized_kernels[0]), 1)
'''),
    's25-block-bound-row': dict(
        property='C03', needs='a block matrix whose first block row is not the largest',
        breaks='the eigenvalue bound looks at the first block row only',
        edits=[('runlmc/linalg/block_matrix.py', "        return la.norm(bounds, 1)\n", "        return bounds[0].sum()\n")],
        demo='''
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.diag import Diag
b = np.empty((2, 2), dtype=object)
b[0, 0], b[1, 1] = Diag(np.array([1.0])), Diag(np.array([9.0]))
b[0, 1] = b[1, 0] = Diag(np.array([0.5]))
K = SymmSquareBlockMatrix(b)
assert K.upper_eig_bound() >= np.linalg.eigvalsh(K.as_numpy()).max()
'''),
    's26-shur-scale': dict(
        property='C04', needs='a first row whose leading entry is not one', breaks='the factor is scaled by the variance, not its root',
        edits=[('runlmc/linalg/shur.py', "    return C * np.sqrt(top[0])\n", "    return C * top[0]\n")],
        demo='''
from runlmc.linalg.shur import shur
from scipy.linalg import toeplitz
t = np.array([4.0, 1.0, 0.5])
assert np.allclose(shur(t).T.dot(shur(t)), toeplitz(t))
'''),
    's29-metrics-mean': dict(
        property='C27', needs='recording metrics', breaks='the recorded solver error leaves out the observation solve',
        edits=[('runlmc/lmc/stochastic_deriv.py', "np.mean(errs)", "np.mean(errs[1:])")],
        demo='''
from runlmc.lmc.stochastic_deriv import StochasticDerivService
from runlmc.lmc.metrics import Metrics
from runlmc.util.inline_pool import InlinePool
from runlmc.linalg.diag import Diag
from runlmc.approx import iterative
m = Metrics()
s = StochasticDerivService(m, InlinePool(None), 2, 1e-4)
K = Diag(np.array([1.0, 2.0]))
res = iter([(np.zeros(2), 1, 3.0), (np.zeros(2), 1, 0.0), (np.zeros(2), 1, 0.0)])
s._concurrent_solve = lambda ls: [next(res) for _ in ls]
s.generate(K, np.ones(2))
assert np.allclose(m.solv_error, [1.0]), m.solv_error
'''),
    's31-jacobian-unpriored': dict(
        property='C18', needs='a prior on only some entries of a constrained parameter',
        breaks='the log-Jacobian is added for entries without prior as well',
        edits=[('runlmc/parameterization/model.py',
                "                for i in indices_with_constraint\n                if i in indices_with_prior)\n",
                "                for i in indices_with_constraint\n"
                "                if indices_with_prior.intersection(indices_with_constraint))\n")],
        demo='''
from runlmc.parameterization.model import Model
from runlmc.parameterization.param import Param
from runlmc.parameterization.priors import Gamma
from paramz.transformations import Logexp
class M(Model):
    def __init__(self):
        super().__init__('m')
        self.p = Param('p', np.array([1.0, 2.0]), Logexp())
        self.link_parameter(self.p)
    def log_likelihood(self):
        return 0.0
m = M()
m.p[:1].set_prior(Gamma(2, 3))
e = Gamma(2, 3).lnpdf(1.0) + Logexp().log_jacobian(np.array([1.0]))[0]
assert np.allclose(m.log_prior(), e), (m.log_prior(), e)
'''),
    's32-quantile-empty': dict(
        property='C24', needs='the GPy-backed model asked for quantiles with an output without test points',
        breaks='empty outputs are dropped from the list of quantiles',
        edits=[('runlmc/models/gpy_lmc.py', "        return tesselate(Qs.T, map(len, Xs))\n",
                "        return tesselate(Qs.T, filter(None, map(len, Xs)))\n")],
        demo='''
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.kern.rbf import RBF
X = [np.linspace(0, 1, 5), np.linspace(0, 1, 6)]
Y = [np.sin(3 * X[0]), np.cos(X[1])]
m = GPyLMC(X, Y, [RBF(1.0)], [1])
q = m.predict_quantiles([np.zeros(0), np.array([0.5])])
assert [len(x) for x in q] == [0, 1], q
'''),
    's33-grid-size-order': dict(
        property='C26', needs='kernels on a proper subset of the dimensions, with grid sizes that differ per dimension',
        breaks='a kernel on the second dimension gets the grid size given for the first',
        edits=[(LLGP, "        return n[list(active_dims)]\n", "        return n[:len(active_dims)]\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.0, active_dims=[0]), RBF(1.0, active_dims=[1])], lmc_ranks=[1, 1])
X = [np.random.rand(8, 2), np.random.rand(8, 2)]
Y = [x[:, 0] + np.sin(4 * x[:, 1]) for x in X]
m = InterpolatedLLGP(X, Y, functional_kernel=fk, max_procs=1, m=[8, 5])
assert [len(m.grid_axes[a][0]) for a in ((0,), (1,))] == [12, 9]
'''),
    's36-on-grid-path': dict(
        property='C05', needs='every sample of a call an integer number of cells from the grid start, one of them below the grid',
        breaks='the shortcut for samples on grid points only limits the column from above',
        edits=[(INT, "    dist_to_closest = factors - idx_of_closest  # in units of delta\n",
                """    dist_to_closest = factors - idx_of_closest  # in units of delta

    if not np.any(dist_to_closest):
        # all samples are grid points, so this is just a selection
        cols = np.minimum(idx_of_closest, grid_size - 1).astype(int)
        return scipy.sparse.csr_matrix(
            (np.ones(n_samples), cols % grid_size, np.arange(n_samples + 1)),
            shape=(n_samples, grid_size))
""")],
        demo='''
from runlmc.approx.interpolation import interp_cubic
W = interp_cubic(np.arange(6.0), np.array([-1.0, 2.0])).toarray()
V = interp_cubic(np.arange(6.0), np.array([-1.0, 2.5])).toarray()
assert np.allclose(W[0], V[0]), W
'''),
    's39-noise-first-output': dict(
        property='C12', needs='outputs with different numbers of observations', breaks='noise is laid out as if all outputs had equally many observations',
        edits=[('runlmc/lmc/grid_kernel.py', "    noise = Diag(np.repeat(fk.noise, lens_per_output))\n",
                "    noise = np.repeat(fk.noise, max(lens_per_output))\n    noise = Diag(noise[:sum(lens_per_output)])\n")],
        demo=MODEL + '''
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.0)], lmc_ranks=[1])
X = [np.linspace(0, 1, 5), np.linspace(0, 1, 6)]
m = InterpolatedLLGP(X, [np.sin(X[0]), np.cos(X[1])], functional_kernel=fk, max_procs=1)
fk.noise = np.array([0.1, 5.0])
K0 = m.kernel.K.as_numpy()
fk.noise = np.array([0.1, 6.0])
d = np.diag(m.kernel.K.as_numpy() - K0)
assert np.allclose(d, [0] * 5 + [1] * 6), d
'''),
}
try:
    from seeddefs2 import MORE
    SEEDS.update(MORE)
except ImportError:
    pass
