"""More planted changes."""
from seeddefs import LLGP, MGP, INT, MODEL
TP, FKF, LIK, GK = 'runlmc/linalg/toeplitz.py', 'runlmc/lmc/functional_kernel.py', 'runlmc/lmc/likelihood.py', 'runlmc/lmc/grid_kernel.py'
MORE = {
    's41-operand-identity': dict(
        property='C01', needs='one operand array reused with other contents',
        breaks='the product of the previous contents comes back',
        edits=[(TP, "        x_fft = np.fft.rfft(x, n=(len(x) * 2))\n", "        if getattr(self, '_seen', None) is x:\n            return np.copy(self._prod)\n        x_fft = np.fft.rfft(x, n=(len(x) * 2))\n"),
               (TP, "        return np.fft.irfft(x_fft)[:len(x)]\n", "        self._seen, self._prod = x, np.fft.irfft(x_fft)[:len(x)]\n        return np.copy(self._prod)\n")],
        demo='''
from runlmc.linalg.toeplitz import Toeplitz
T = Toeplitz(np.array([3.0, 1.0, 0.5]))
x = np.array([1.0, 0, 0])
T.matvec(x)
x[:] = [0, 1.0, 0]
assert np.allclose(T.matvec(x), [1, 3, 1])
'''),
    's42-sum-inplace': dict(
        property='C02', needs='a sum whose first term is the identity', breaks='the operand is overwritten with the sum',
        edits=[('runlmc/linalg/sum_matrix.py', "        return sum(K.matvec(x) for K in self.Ks)\n",
                "        acc = np.asarray(self.Ks[0].matvec(x))\n        for K in self.Ks[1:]:\n            acc += K.matvec(x)\n        return acc\n"),
               ('runlmc/linalg/sum_matrix.py', "from .matrix import Matrix\n", "import numpy as np\n\nfrom .matrix import Matrix\n")],
        demo='''
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.identity import Identity
from runlmc.linalg.diag import Diag
x = np.ones(2)
SumMatrix([Identity(2), Diag(np.array([1.0, 2.0]))]).matvec(x)
assert np.allclose(x, 1), x
'''),
    's43-matmat-buffer': dict(
        property='C02', needs='two products with matrices of the same shape, keeping the first result',
        breaks='the first product is overwritten by the second',
        edits=[('runlmc/linalg/matrix.py', "        result = np.empty(shape=(X.shape[1], self.shape[0]))\n",
                "        result = getattr(self, '_rows', None)\n        if result is None or len(result) != X.shape[1]:\n"
                "            result = self._rows = np.empty(shape=(X.shape[1], self.shape[0]))\n")],
        demo='''
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.linalg.kronecker import Kronecker
K = Kronecker(Toeplitz(np.array([2.0, 1.0])), Toeplitz(np.array([1.0, 0.5])))
a = K.matmat(np.identity(4))
b = K.matmat(np.zeros((4, 4)))
assert np.allclose(a, K.as_numpy())
'''),
    's44-kron-column': dict(
        property='C02', needs='a Kronecker product whose left factor is a column', breaks='only the first block row is computed',
        edits=[('runlmc/linalg/kronecker.py', "        for M in [self.B, self.A]:\n",
                "        if self.A.shape[1] == 1:\n            return np.resize(self.A.matvec(np.ones(1))[0] * self.B.matvec(x), self.shape[0])\n        for M in [self.B, self.A]:\n")],
        demo='''
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.kronecker import Kronecker
A, B = np.array([[1.0], [3.0]]), np.array([[2.0, 1.0], [0.0, 1.0]])
x = np.array([1.0, 2.0])
assert np.allclose(Kronecker(NumpyMatrix(A), NumpyMatrix(B)).matvec(x), np.kron(A, B).dot(x))
'''),
    's45-toeplitz-bound-first': dict(
        property='C03', needs='a row whose off-diagonal weight is close to the diagonal', breaks='the bound is the first row sum, exceeded by a middle row',
        edits=[(TP, "        return totals.max() * (1 + EPS * len(self.top))\n", "        return totals[[0, -1]].max() * (1 + EPS * len(self.top))\n")],
        demo='''
from runlmc.linalg.toeplitz import Toeplitz
T = Toeplitz(np.array([2.0, 1.0, 0.0]))
assert T.upper_eig_bound() >= np.linalg.eigvalsh(T.as_numpy()).max()
'''),
    's46-periodic-memo': dict(
        property='C09', needs='the same distances evaluated again after only the period changed', breaks='the value for the old period comes back',
        edits=[('runlmc/kern/std_periodic.py', "        sin = np.sin((np.pi / self.period) * dists)\n        return np.exp(-0.5 * np.square(sin) * self.inv_lengthscale)\n",
                "        key = (id(dists), float(self.inv_lengthscale[0]))\n        if getattr(self, '_memo_key', None) == key:\n            return np.copy(self._memo)\n"
                "        sin = np.sin((np.pi / self.period) * dists)\n        self._memo_key = key\n        self._memo = np.exp(-0.5 * np.square(sin) * self.inv_lengthscale)\n        return np.copy(self._memo)\n")],
        demo='''
from runlmc.kern.std_periodic import StdPeriodic
k = StdPeriodic(1.0, 1.0)
d = np.array([0.25, 0.5])
k.from_dist(d)
k.period[:] = 2.0
assert np.allclose(k.from_dist(d), StdPeriodic(1.0, 2.0).from_dist(d))
'''),
    's47-scaled-update': dict(
        property='C10', needs='a scaled kernel with two inner hyperparameters', breaks='the scale receives the gradient of the inner period',
        edits=[('runlmc/kern/scaled.py', "        self.scale.gradient = grad[-1]\n", "        self.scale.gradient = grad[1]\n")],
        demo='''
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.kern.scaled import Scaled
k = Scaled(StdPeriodic(1.0, 1.0))
k.update_gradient([1.0, 2.0, 3.0])
assert k.scale.gradient[0] == 3.0
'''),
    's48-indep-index': dict(
        property='C11', needs='independent kernels assigned to outputs out of order', breaks='an independent kernel acts on the output of its own position',
        edits=[(FKF, "            coreg_diag[d] = 1\n", "            coreg_diag[d if i - num_lmc - num_slfm != d else i - num_lmc - num_slfm] = 1\n"
                .replace("d if i - num_lmc - num_slfm != d else ", ""))],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, indep_gp=[RBF(1.0)], indep_gp_index=[1])
assert np.allclose(fk.coreg_mats()[0], [[0, 0], [0, 1]])
'''),
    's49-tile-ranks': dict(
        property='C12', needs='a low-rank representation with kernels of different ranks', breaks='kernels are paired with the wrong coregionalization vectors',
        edits=[(GK, "    toeps = BlockDiag(np.repeat(deduped_toeps, ranks))\n", "    toeps = BlockDiag(np.resize(deduped_toeps, ranks.sum()))\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.grid_kernel import _gen_coreg_Ks
from runlmc.kern.rbf import RBF
from scipy.linalg import toeplitz
fk = FunctionalKernel(D=4, lmc_kernels=[RBF(1.0), RBF(9.0)], lmc_ranks=[2, 1])
fk.set_input_dim(1)
d = np.linspace(0, 1, 3)
g = np.array([k.from_dist(d) for k in fk._kernels])
want = sum(np.kron(a.T.dot(a), toeplitz(t)) for a, t in zip(fk.coreg_vecs, g))
assert np.allclose(_gen_coreg_Ks(fk, g, 12, (0,)).as_numpy(), want)
'''),
    's50-three-valued-probes': dict(
        property='C14', needs='nothing but attention to the distribution of the probes', breaks='probe entries may be zero, so the estimate is biased',
        edits=[('runlmc/lmc/stochastic_deriv.py', "        rs = np.random.randint(0, 2, (self._n_it, n)) * 2 - 1\n", "        rs = np.random.randint(-1, 2, (self._n_it, n))\n")],
        demo='''
from runlmc.lmc.stochastic_deriv import StochasticDerivService
from runlmc.util.inline_pool import InlinePool
from runlmc.linalg.diag import Diag
s = StochasticDerivService(None, InlinePool(None), 50, 1e-6).generate(Diag(np.ones(4)), np.ones(4))
assert abs(s.d_logdet_K(Diag(np.ones(4))) - 4) < 1e-6
'''),
    's51-weights-by-lengths': dict(
        property='C16', needs='two predictions at different points with equally many points per output', breaks='the second is interpolated at the points of the first',
        edits=[(LLGP, "            W = multi_interpolant(Xs_active, *self.grid_axes[active_dim])\n",
                "            key = (active_dim, tuple(lens))\n            if key not in self._test_W:\n                self._test_W[key] = multi_interpolant(Xs_active, *self.grid_axes[active_dim])\n            W = self._test_W[key]\n"),
               (LLGP, "        self.dists, self.interpolants, self.grid_axes = {}, {}, {}\n", "        self.dists, self.interpolants, self.grid_axes = {}, {}, {}\n        self._test_W = {}\n")],
        demo=MODEL + '''
m, fk = model()
a = m.predict(Z)
Z2 = [np.array([0.1, 0.2]), np.array([0.9])]
got = m.predict(Z2)
m2, fk2 = model()
want = m2.predict(Z2)
assert all(np.allclose(x, y, atol=1e-3) for x, y in zip(got[0], want[0]))
'''),
    's52-clear-after': dict(
        property='C27', needs='metrics on and a parameter change', breaks='the recorded likelihood mixes old and new parameters',
        edits=[(LLGP, "    def parameters_changed(self):\n        self._clear_caches()\n\n        grid_kernel, gk_dict", "    def parameters_changed(self):\n        self._update()\n        self._clear_caches()\n\n    def _update(self):\n        grid_kernel, gk_dict")],
        demo=MODEL + '''
m, fk = model(metrics=True)
m.optimize(optimizer='lbfgsb', max_iters=0) if False else None
fk.noise = np.array([0.3, 0.4])
m.log_likelihood()
fk.noise = np.array([2.0, 3.0])
assert abs(m.metrics.log_likely[-1] - m.log_likelihood()) < 1e-3, (m.metrics.log_likely, m.log_likelihood())
'''),
    's53-last-prior-only': dict(
        property='C18', needs='two priors on constrained parameters', breaks='the Jacobian gradient covers only the parameters of one prior',
        edits=[('runlmc/parameterization/model.py', "            np.put(grad, indices, prior.lnpdf_grad(self.param_array[indices]))\n\n        # Incorporate Jacobian for transformations again\n        indices_with_prior = {\n            idx for _, indices in self.priors.items() for idx in indices}\n",
                "            np.put(grad, indices, prior.lnpdf_grad(self.param_array[indices]))\n            indices_with_prior = set(indices)\n\n        # Incorporate Jacobian for transformations again\n")],
        demo=MODEL + '''
from runlmc.parameterization.priors import Gamma
m, fk = model()
m.kern._noise.set_prior(Gamma(2.0, 3.0))
m.kern.rbf.inv_lengthscale.set_prior(Gamma(2.0, 1.0))
x0 = np.array(m.param_array)
g = m._log_prior_gradients()
for i in range(len(x0)):
    p = np.array(x0); p[i] += 1e-6; m[:] = p; a = m.log_prior()
    p[i] -= 2e-6; m[:] = p; b = m.log_prior()
    assert abs((a - b) / 2e-6 - g[i]) < 1e-4, (i, (a - b) / 2e-6, g[i])
'''),
    's54-breakdown-quiet': dict(
        property='C19', needs='a solver that reports breakdown (a negative code) at a small residual', breaks='the failure is not reported',
        edits=[('runlmc/approx/iterative.py', "        if error > tol or succ != 0:\n", "        if error > tol or succ > 0:\n")],
        demo='''
import logging
import scipy.sparse.linalg as sla
from runlmc.approx.iterative import Iterative
from runlmc.linalg.diag import Diag
sla.minres = lambda op, y, **kw: (y, -1)
seen = []
h = logging.Handler(); h.emit = seen.append
logging.getLogger('runlmc.approx.iterative').addHandler(h)
Iterative.solve(Diag(np.ones(2)), np.ones(2))
assert len(seen) == 1
'''),
    's55-callback-final': dict(
        property='C20', needs='an optimization that stops', breaks='the callback is not invoked for the last iteration',
        edits=[('runlmc/models/optimization.py', "            self.kwargs['callback']()\n\n            if grad_norm < min_grad_ratio", "            if info['n_iter'] < max_it:\n                self.kwargs['callback']()\n\n            if grad_norm < min_grad_ratio")],
        demo='''
from runlmc.models.optimization import AdaDelta
n = []
AdaDelta(max_it=3, callback=lambda: n.append(1), min_grad_ratio=0).opt(np.ones(1), fp=lambda x: np.ones(1))
assert len(n) == 3
'''),
    's56-search-inplace': dict(
        property='C21', needs='an array (not a list) argument', breaks='the argument is reversed in place',
        edits=[('runlmc/util/numpy_convenience.py', "    xs = np.array(xs)\n    if np.any(np.diff(xs) > 0):", "    xs = np.asarray(xs)\n    if np.any(np.diff(xs) > 0):"),
               ('runlmc/util/numpy_convenience.py', "    idx = np.searchsorted(xs[::-1], x, option)\n", "    xs.sort()\n    idx = np.searchsorted(xs, x, option)\n")],
        demo='''
from runlmc.util.numpy_convenience import search_descending
a = np.array([3.0, 2.0, 1.0])
search_descending(2.0, a, True)
assert a[0] == 3.0
'''),
    's57-first-input-dim': dict(
        property='C22', needs='test inputs of the right dimension for the first output and a wrong one later', breaks='the wrong dimension is not rejected with ValueError',
        edits=[(MGP, "        for i, X in enumerate(Xs):\n            if X.shape[1] != self.input_dim:", "        for i, X in enumerate(Xs[:1]):\n            if X.shape[1] != self.input_dim:")],
        demo=MODEL + '''
m, fk = model()
try:
    m.predict([Z[0], np.zeros((2, 3))])
except ValueError:
    pass
'''),
    's58-mean-gradient-length': dict(
        property='C23', needs='outputs with different numbers of inputs', breaks='zero blocks of the gradient have the length of the wrong output',
        edits=[('runlmc/mean/constant.py', "        return [[np.ones(len(X)) if i == j else np.zeros(len(X))\n", "        return [[np.ones(len(X)) if i == j else np.zeros(len(Xs[i]))\n")],
        demo='''
from runlmc.mean.constant import Constant
g = Constant(1, 2).mean_gradient([np.zeros(2), np.zeros(3)])
assert [[len(v) for v in r] for r in g] == [[2, 3], [2, 3]]
'''),
    's59-l1-grid': dict(
        property='C26', needs='kernels on two dimensions', breaks='grid distances are taken in the maximum norm',
        edits=[(LLGP, "            self.dists[active_dim] = la.norm(grid - first, axis=-1)\n", "            self.dists[active_dim] = np.abs(grid - first).max(axis=-1)\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=1, lmc_kernels=[RBF(1.0)], lmc_ranks=[1])
X = [np.random.rand(5, 2)]
m = InterpolatedLLGP(X, [X[0].sum(1)], functional_kernel=fk, m=[2, 3], max_procs=1)
d = m.dists[(0, 1)]
a, b = m.grid_axes[(0, 1)]
assert np.isclose(d[1, 1], np.hypot(a[1] - a[0], b[1] - b[0]))
'''),
    's60-old-series': dict(
        property='C27', needs='metrics on and a second optimization', breaks='solver series of the new run go to the old metrics',
        edits=[(LLGP, "            self.metrics = Metrics()\n            self._deriv_service.metrics = self.metrics\n", "            self.metrics = Metrics()\n")],
        demo=MODEL + '''
from runlmc.models.optimization import AdaDelta
m, fk = model(metrics=True)
m.optimize(optimizer=AdaDelta(max_it=2))
assert len(m.metrics.iterations) == len(m.metrics.grad_norms), vars(m.metrics)
'''),
    's61-bicubic-clamp': dict(
        property='C06', needs='a sample above the second grid, grids of different sizes', breaks='columns of the wrong grid line, or outside the matrix',
        edits=[(INT, "        ycoeff_idx[ycoeff_idx >= my] = my - 1  # none above\n", "        ycoeff_idx[ycoeff_idx >= my] = min(mx, my) - 1  # none above\n")],
        demo='''
from runlmc.approx.interpolation import interp_bicubic, interp_cubic
gx, gy = np.linspace(0, 1, 4), np.linspace(0, 1, 6)
s = np.array([[0.5, 1.1]])
W = interp_bicubic(gx, gy, s).toarray().reshape(4, 6)
wy = interp_cubic(gy, s[:, 1]).toarray()[0]
wx = interp_cubic(gx, s[:, 0]).toarray()[0]
assert np.allclose(W, np.outer(wx, wy))
'''),
    's62-coreg-memo': dict(
        property='C16', needs='a change of parameters other than through the coregionalization vectors', breaks='coregionalization matrices of the old parameters are used',
        edits=[(FKF, "        return [a.T.dot(a) + np.diag(k) for a, k in zip(cv, cd)]\n",
                "        key = (active_dim, tuple(a.tobytes() for a in cv))\n        if key not in self._mats:\n            self._mats[key] = [a.T.dot(a) + np.diag(k) for a, k in zip(cv, cd)]\n        return self._mats[key]\n"),
               (FKF, "        self._num_slfm = len(slfm_kernels)\n\n        # Corr", "        self._num_slfm = len(slfm_kernels)\n        self._mats = {}\n\n        # Corr")],
        demo=MODEL + '''
m, fk = model()
m.K()
fk.coreg_diags = [np.array([3.0, 4.0])]
m2, fk2 = model()
fk2.coreg_diags = [np.array([3.0, 4.0])]
getattr(fk2, '_mats', {}).clear()
m2.parameters_changed()
assert np.allclose(m.K(), m2.K())
'''),
    's63-equal-lengths-variance': dict(
        property='C15', needs='two or more outputs with the same number (above one) of test points', breaks='prior variances are interleaved',
        edits=[(LLGP, "        native_variance = np.repeat(native_variance, lens)\n",
                "        native_variance = (np.tile(native_variance, lens[0]) if len(set(lens)) == 1\n                           else np.repeat(native_variance, lens))\n")],
        demo=MODEL + '''
m, fk = model(normalize=False)
Z2 = [np.array([0.3, 0.7]), np.array([0.3, 0.7])]
v = m.predict(Z2)[1]
a = m.predict([Z2[0], Z2[1][:1]])[1]
assert np.allclose(v[0], a[0], atol=1e-3)
'''),
    's64-square-distances': dict(
        property='C11', needs='as many test points per output as training points', breaks='the cross-covariance is that of the training points',
        edits=[(LIK, "        dists = ExactLMCLikelihood._gen_dists(\n            functional_kernel.active_dims, Xs, Zs)\n        Kqs",
                "        dists = ExactLMCLikelihood._gen_dists(\n            functional_kernel.active_dims, Zs if rlens == clens else Xs, Zs)\n        Kqs")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=1, lmc_kernels=[RBF(1.0)], lmc_ranks=[1])
fk.set_input_dim(1)
K = ExactLMCLikelihood.kernel_from_indices([np.array([[0.0], [1.0]])], [np.array([[2.0], [3.0]])], fk)
assert not np.isclose(K[0, 0], fk.coreg_mats()[0][0, 0])
'''),
    's65-empty-loglik-cache': dict(
        property='C16', needs='the noise changed without touching anything else', breaks='the likelihood remembers the noise-free parameters only',
        edits=[(LLGP, "    def normal_quadratic(self):\n", "    def _same(self):\n        key = np.array(self.param_array)\n        return key\n\n    def normal_quadratic(self):\n"),
               (LLGP, "        nll = self.log_det_K() + self.normal_quadratic()\n",
                "        key = tuple(self.param_array[:-self.output_dim])\n        if getattr(self, '_ll', (None,))[0] == key:\n            return self._ll[1]\n        nll = self.log_det_K() + self.normal_quadratic()\n"),
               (LLGP, "        return -0.5 * nll\n", "        self._ll = (key, -0.5 * nll)\n        return -0.5 * nll\n")],
        demo=MODEL + '''
m, fk = model()
a = m.log_likelihood()
fk.noise = np.array([0.7, 0.9])
assert abs(a - m.log_likelihood()) > 1e-3
'''),
    's66-pickle-sizes': dict(
        property='C02', needs='a pickled nested operator (as sent to worker processes)', breaks='after unpickling, offsets of the blocks are lost',
        edits=[('runlmc/linalg/matrix.py', "        self.__dict__.update(state)\n", "        self.__dict__.update({k: (sorted(v) if isinstance(v, list) and v and hasattr(v[0], 'shape') and k == 'Ks' else v) for k, v in state.items()})\n"
                .replace("sorted(v)", "v[:2]"))],
        demo='''
import pickle
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.diag import Diag
S = SumMatrix([Diag(np.ones(2))] * 3)
assert np.allclose(pickle.loads(pickle.dumps(S)).matvec(np.ones(2)), 3)
'''),
    's67-slfm-diagonal-free': dict(
        property='C28', needs='an SLFM kernel and an optimizer step', breaks='the diagonal of SLFM kernels is tuned, so their coregionalization is not rank one',
        edits=[('runlmc/lmc/functional_kernel.py', "            coreg_diags.append(Param('kappa{}'.format(i), coreg_diag))\n            coreg_diags[-1].constrain_fixed()\n        for d in indep_gp_index:",
                "            coreg_diags.append(Param('kappa{}'.format(i), coreg_diag))\n            self.link_parameter(coreg_diags[-1])\n        for d in indep_gp_index:")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, slfm_kernels=[RBF(1.0)])
fk.optimizer_array = fk.optimizer_array + 0.5
assert np.allclose(fk.coreg_diags[0], 0)
'''),
    's68-kappa-shared-fix': dict(
        property='C28', needs='an LMC kernel together with an independent one', breaks='the diagonal of the LMC kernel is frozen',
        edits=[('runlmc/lmc/functional_kernel.py', "            coreg_diag[d] = 1\n            coreg_diags.append(Param('kappa{}'.format(i), coreg_diag))\n            coreg_diags[-1].constrain_fixed()\n",
                "            coreg_diag[d] = 1\n            coreg_diags.append(Param('kappa{}'.format(i), coreg_diag))\n            for kappa in coreg_diags:\n                kappa.constrain_fixed()\n")],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.0)], lmc_ranks=[1], indep_gp=[RBF(name='i')])
old = np.array(fk.coreg_diags[0])
fk.optimizer_array = fk.optimizer_array + 0.5
assert not np.allclose(fk.coreg_diags[0], old)
'''),
    's69-slfm-vectors-frozen': dict(
        property='C28', needs='SLFM kernels together with an independent one', breaks='an SLFM vector is never tuned',
        edits=[('runlmc/lmc/functional_kernel.py', "            if i < len(lmc_ranks) + num_slfm:\n", "            if i < len(initial_vecs) - max(num_slfm, num_indep):\n"
                .replace("len(initial_vecs) - max(num_slfm, num_indep)", "len(initial_vecs) - (num_indep and max(num_indep, num_slfm))"))],
        demo='''
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.rbf import RBF
fk = FunctionalKernel(D=2, slfm_kernels=[RBF(name='a'), RBF(name='b')], indep_gp=[RBF(name='i')])
old = [np.array(v) for v in fk.coreg_vecs]
fk.optimizer_array = fk.optimizer_array + 0.5
assert not np.allclose(fk.coreg_vecs[0], old[0]) and not np.allclose(fk.coreg_vecs[1], old[1])
'''),
}
