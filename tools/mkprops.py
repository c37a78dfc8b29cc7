#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

L = 'runlmc/linalg/'
prop('C01', 'FFT-based structured matrices multiply exactly as the matrix they document',
 'A symmetric Toeplitz matrix built from its first row, and a block-Toeplitz matrix with Toeplitz blocks built from its flattened first row and its per-dimension sizes, act in every way (product with a vector, product with a matrix, as a linear operator, and as a dense array) as the one documented matrix whose (i,j) entry is the first-row value at the per-dimension absolute index difference. '
 'This holds for every size (including 1, non-powers of two and different sizes per dimension), for integer or real rows and operands, and however often and in whatever order the operations are called. '
 'Neither the construction nor a product modifies the caller\'s arrays.',
 ['inputs', 'configurations', 'histories'],
 'for every top row, every operand, every shape (1 to 3 dimensions) and every sequence of calls on one instance',
 'The unit tests compare random instances of a few sizes with a dense product and a tolerance; they cannot quantify over all rows, operands and call orders.',
 [L+'toeplitz.py', L+'bttb.py', L+'matrix.py'],
 [('circulant embedding and Fourier product', L+'toeplitz.py'), ('n-dimensional cyclic extension padded to powers of two', L+'bttb.py')],
 ['matvec', 'matmat', 'as_numpy', 'as_linear_operator'])

prop('C02', 'Composite matrices act as the algebraic expression they stand for',
 'Kronecker product, direct sum (block diagonal, rectangular blocks allowed), symmetric block matrix, sum, composition, diagonal, identity, dense wrapper, function wrapper and interpolated (W K W-transpose) matrices agree with the dense matrix of the same algebraic expression under product with a vector, product with a matrix, linear operator view and dense view, also when nested in one another and after being pickled. '
 'The result does not depend on earlier calls, the operands passed in are left unchanged, and integer operands give the same result as the equal real ones.',
 ['inputs', 'configurations', 'histories'],
 'for all entries and operands, for all shapes (rectangular factors where the class allows them), nestings and call orders',
 'Tests check fixed or random examples of one class at a time; several classes (composition, identity, interpolated) have no tests at all.',
 [L+'kronecker.py', L+'block_diag.py', L+'block_matrix.py', L+'sum_matrix.py', L+'composition.py', L+'diag.py', L+'identity.py', L+'numpy_matrix.py', L+'matrix.py', 'runlmc/approx/ski.py'],
 [('reshape/transposed products for Kronecker', L+'kronecker.py'), ('block offsets', L+'block_diag.py')],
 ['matvec', 'matmat', 'as_numpy', 'as_linear_operator'])

prop('C03', 'Reported upper eigenvalue bounds really bound the spectrum',
 'Whenever a matrix of this package reports an upper bound for its eigenvalues, no eigenvalue is larger: for every vector x the quadratic form x\'Kx is at most the bound times x\'x. '
 'This covers Toeplitz, diagonal, identity, Kronecker products, sums and symmetric block matrices of these with positive semi-definite parts (the interpolated matrix, whose bound is a heuristic, is not included). '
 'Asking for the bound does not change the matrix.',
 ['inputs', 'configurations'],
 'for every matrix content (positive semi-definite where products are involved) and every vector',
 'A bound that is too small only shows on inputs with a particular sign pattern or dominant row; tests sample few.',
 [L+'toeplitz.py', L+'kronecker.py', L+'sum_matrix.py', L+'block_matrix.py', L+'diag.py', L+'identity.py'],
 [('Gershgorin row sums by dynamic program', L+'toeplitz.py'), ('Weyl / norm composition', L+'sum_matrix.py')],
 ['upper_eig_bound'])

prop('C04', 'Structured Toeplitz factorization is an upper Cholesky factor',
 'For every first row of a positive definite symmetric Toeplitz matrix, the structured factorization returns an upper triangular matrix C with positive diagonal and C\'C equal to that Toeplitz matrix, and leaves its argument unchanged.',
 ['inputs'], 'for every positive definite first row of each covered order',
 'Tests run a few random decreasing rows.', [L+'shur.py'], [('Schur algorithm on the displacement generators', L+'shur.py')], ['return value'])

I = 'runlmc/approx/interpolation.py'
prop('C05', 'Cubic interpolation weights reproduce the function they interpolate',
 'For an equispaced increasing grid of at least four points and any sample points, the 1-D interpolation matrix has one row per sample and one column per grid point, puts weight only on the at most four grid points nearest the sample, has rows summing to one, reproduces every polynomial of degree up to two at samples with two grid points on both sides, and is exact at grid points. '
 'Samples outside the grid still give rows summing to one with columns inside the matrix, samples are treated independently of each other, and with at least one sample, malformed grids or samples (not one-dimensional, fewer than four grid points) are rejected with ValueError.',
 ['inputs', 'configurations'], 'for every grid offset and spacing, every grid size in bound, every sample location and every number of samples including none',
 'Tests interpolate a few smooth functions on random grids with a loose error tolerance; boundary cells, samples on grid points and extrapolation are not pinned down.',
 [I], [('cubic convolution kernel, clamped column indices', I)], ['returned sparse matrix'])

prop('C06', 'Bicubic interpolation weights reproduce functions of two variables',
 'For two equispaced grids (of possibly different sizes and spacings) and any 2-D sample points, the 2-D interpolation matrix has rows summing to one, uses at most the sixteen nearest grid points with the column for grid point (i,j) at i times the second grid\'s size plus j, reproduces every product of quadratics in the two coordinates for samples with two grid points on every side, and is exact on grid points. '
 'Each row is the outer product of the two one-dimensional rows of its coordinates; samples are treated independently, and samples outside the grid still give rows summing to one.',
 ['inputs', 'configurations'], 'for every pair of grids in bound and every sample location', 'Tests use a few functions on random square grids with a loose tolerance.',
 [I], [('tensor product of cubic convolution weights', I)], ['returned sparse matrix'])

prop('C07', 'Multi-output interpolation is the direct sum of per-output interpolations',
 'Interpolating several outputs at once onto a shared grid gives exactly the rectangular block diagonal matrix of the individual interpolation matrices, in output order, for 1-D and 2-D inputs and for vectors or single-column matrices. '
 'This holds for outputs of different lengths, for outputs with no samples in any position, and for samples lying exactly on grid points or outside the grid.',
 ['inputs', 'configurations'], 'for every list of inputs (any lengths including empty, any sample positions)', 'Tests stack random samples in general position only; empty outputs and grid-coincident samples change the sparsity bookkeeping.',
 [I], [('manual CSR index-pointer stacking', I)], ['returned sparse matrix'])

prop('C08', 'The automatic grid is equispaced and covers the data with margin',
 'For every set of inputs spanning a non-empty range in each dimension and every combination of user-given lower bound, upper bound and size, the automatic grid is equispaced and strictly increasing in each dimension, has the requested number of points plus four (by default the average number of inputs per output, rounded down, plus four), and starts and ends two cell widths (of the span divided by the requested number) beyond the smaller of user and data minimum and the larger of user and data maximum, so all inputs have at least two grid points on both sides. '
 'The caller\'s arrays are not modified.',
 ['inputs', 'configurations'], 'for every data set, any number of outputs and dimensions in bound, and any subset of lo/hi/m given in any accepted type',
 'Tests exercise a handful of random ranges.', [I], [('range extension by two cells', I)], ['returned grid axes'])

K = 'runlmc/kern/'
prop('C09', 'Stationary kernels match their documented formulas',
 'For every distance and every admissible hyperparameter, RBF, Matern-3/2, standard periodic, identity and scaled kernels evaluate to their documented formula, elementwise for arrays of any shape; in particular the unscaled ones are 1 at distance zero and never leave [0,1]. '
 'Evaluation does not modify the distances, and every hyperparameter is a linked, positive-constrained model parameter.',
 ['inputs'], 'for all distances >= 0 (scalars and arrays of 1 to 3 dimensions) and all positive hyperparameters (periods of at least 1/50)',
 'Tests evaluate ten integer distances at one hyperparameter value.', [K+'rbf.py', K+'matern32.py', K+'std_periodic.py', K+'identity.py', K+'scaled.py', K+'stationary_kern.py'],
 [('closed-form evaluation', K+'rbf.py')], ['from_dist'])

prop('C10', 'Kernel hyperparameter gradients are the true derivatives',
 'For every kernel, every distance and every admissible hyperparameter value, the reported kernel gradients are the partial derivatives of the kernel value with respect to each linked hyperparameter, one entry per hyperparameter in a fixed order. '
 'Handing a gradient vector back to the kernel stores each component on the hyperparameter it belongs to.',
 ['inputs'], 'for all distances and all positive hyperparameters, and for nested scaled kernels',
 'Tests compare numerically at a few points.', [K+'rbf.py', K+'matern32.py', K+'std_periodic.py', K+'identity.py', K+'scaled.py'],
 [('kernel_gradient/update_gradient agree on order', K+'stationary_kern.py')], ['kernel_gradient', 'parameter gradients after update_gradient'])

LM = 'runlmc/lmc/'
prop('C11', 'The exact LMC covariance is the documented sum of coregionalized kernels',
 'For every set of inputs, the exact cross-covariance between points of outputs a and b is the sum over all kernels q of B_q[a,b] times the kernel at the Euclidean distance over that kernel\'s active dimensions, with B_q equal to A_q\'A_q plus diag(kappa_q) for LMC kernels, a rank-one outer product for SLFM kernels, and a single one on the diagonal at the designated output for independent kernels. '
 'The training covariance is that matrix plus the output\'s noise on the diagonal, and is symmetric.',
 ['inputs', 'configurations'], 'for all parameter values, kernels, inputs, output lengths (including outputs without test points), kernel mixes and active-dimension splits in bound',
 'Tests cover a few models with LMC kernels only; no test uses SLFM or independent kernels.', [LM+'likelihood.py', LM+'functional_kernel.py'],
 [('blockwise coregionalization scaling', LM+'likelihood.py'), ('parameter set-up per kernel type', LM+'functional_kernel.py')], ['exact kernel matrices'])

prop('C12', 'Every grid-kernel representation yields the same interpolated covariance',
 'The structured covariance operator used for training equals, for every mix of LMC, SLFM and independent kernels, ranks, output counts and active-dimension splits, the sum over active-dimension sets of W (sum over q of B_q kron K_q) W\' plus the per-output noise on the diagonal, where K_q is the kernel on the grid, whatever internal representation is chosen. '
 'The choice among the block, low-rank and sum representations never changes a product.',
 ['inputs', 'configurations'], 'for all parameter values, grid kernels, interpolation weights and vectors, and all kernel mixes in bound',
 'Tests use few LMC-only configurations, so most representation/mix combinations are never run.', [LM+'grid_kernel.py', 'runlmc/approx/ski.py', LM+'functional_kernel.py'],
 [('sum / block-Toeplitz / SLFM grid constructions', LM+'grid_kernel.py')], ['matvec and dense view of the covariance operator'])

prop('C13', 'Likelihood gradients are the true derivatives of the log likelihood',
 'Given exact solves, the gradients reported by the exact likelihood for coregionalization vectors, coregionalization diagonals, kernel hyperparameters and noise are the partial derivatives of -(y\'K^-1 y + log det K)/2; the approximate likelihood reports the same expression for the interpolated covariance with the trace replaced by its probe average. '
 'Each component is stored on the parameter it belongs to, and constants of independent and SLFM kernels stay fixed.',
 ['inputs', 'configurations'], 'for all parameters, observations, kernels and inputs, over kernel mixes and active-dimension splits in bound',
 'Tests compare exact and approximate gradients to each other (which share the code) at a few points.', [LM+'likelihood.py', LM+'exact_deriv.py', LM+'stochastic_deriv.py', LM+'derivative.py', LM+'functional_kernel.py'],
 [('dK/dt assembly shared by both likelihoods', LM+'likelihood.py')], ['gradient methods', 'parameter gradients'])

prop('C14', 'The stochastic trace estimator is an unbiased probe average',
 'The log-determinant derivative is estimated with the requested number of probe vectors with entries drawn uniformly from +1 and -1, as the average over probes of r\'K^-1 dK r; averaged over all sign patterns it is exactly trace(K^-1 dK), and each solve is paired with the probe it belongs to in any execution order or worker count. '
 'The observation solve is never confused with a probe solve, and recording metrics does not change the result.',
 ['inputs', 'schedules', 'configurations'], 'for every probe outcome, matrix, solver result, number of probes and order of parallel completion',
 'Randomised tests check closeness for one seed.', [LM+'stochastic_deriv.py', 'runlmc/util/inline_pool.py', LM+'metrics.py'],
 [('Rademacher probes, ordered starmap', LM+'stochastic_deriv.py')], ['derivative', 'alpha', 'metrics'])

M = 'runlmc/models/'
prop('C15', 'Predictions follow the conditional Gaussian formulas in every mode',
 'Given exact linear solves, the raw predictive mean is W* K_UU W\'K^-1 y, and the predictive variance is the prior variance of the point plus its output\'s noise minus the variance explained, k*\'K^-1 k* with the exact cross-covariance (on-the-fly and exact modes, using the interpolated and exact training covariance respectively) or the interpolation of its grid-point values (precompute mode, which is refused with ValueError when kernels live on different dimension subsets), clipped at zero. '
 'Results come back per output, in order and with the lengths asked for, including outputs with no test points.',
 ['inputs', 'configurations'], 'for all parameters, data, test points and output lengths, over kernel mixes and prediction modes',
 'Tests check two modes on non-empty outputs with loose tolerances; precompute and SLFM/independent kernels are never predicted with.', [M+'interpolated_llgp.py', M+'multigp.py'],
 [('grid alpha and native variance', M+'interpolated_llgp.py')], ['predict'])

prop('C16', 'Predictions and likelihood always reflect the current parameters',
 'After any sequence of parameter changes and queries (predict, quantiles, covariance, log determinant, likelihood), on one or several live models, each query returns what a freshly built model with the same data and current parameters would return. '
 'No query changes the parameters, the data or the result of later queries.',
 ['histories'], 'for every history of parameter updates and queries up to the bound, across two models',
 'Tests query a model once or twice after construction.', [M+'interpolated_llgp.py', M+'multigp.py'],
 [('cached dense/grid results cleared on parameter change', M+'interpolated_llgp.py')], ['predict', 'K', 'log_det_K', 'log_likelihood'],
 [('per-method result caches', 'must be dropped on every parameter change', M+'interpolated_llgp.py')])

prop('C17', 'Output normalization is exactly undone in predictions and quantiles',
 'With normalization on, each output is standardized by its own mean and (population) standard deviation, and reported means, variances and quantiles are transformed back with the same constants; predictions from an affinely rescaled data set are the correspondingly rescaled predictions. '
 'Quantiles equal the mean plus the standard normal quantile times the predictive standard deviation, one row per input and one column per requested quantile, and the caller\'s data are not modified.',
 ['inputs', 'configurations'], 'for all data, raw predictions, quantile levels, output counts and lengths', 'Tests use two fixed outputs of four points.',
 [M+'multigp.py', 'runlmc/util/normalizer.py'], [('Norm.normalize / inverse_mean / inverse_variance', 'runlmc/util/normalizer.py')], ['predict', 'predict_quantiles'])

PR = 'runlmc/parameterization/'
prop('C18', 'Priors enter the objective and its gradient consistently',
 'The model objective is minus (log likelihood plus the log density of every prior at its parameters plus the log-Jacobian of the constraint transform of each parameter carrying a prior), and the objective gradient is its derivative with respect to the parameters, for any number of priors on any parameters; setting or unsetting a prior changes exactly that prior\'s terms. '
 'Gaussian, gamma, inverse gamma and half-Laplace priors report the log density of that distribution (normalized) and its derivative, and a gamma prior built from an expectation and variance has them.',
 ['inputs', 'configurations', 'histories'], 'for all parameter values, prior settings and assignments of priors to parameters',
 'Prior tests cover one prior at a time at single points; several priors at once are untested.', [PR+'model.py', PR+'priors.py', PR+'priorizable.py'],
 [('log_prior and its gradient with Jacobian terms', PR+'model.py')], ['objective_function', 'objective_function_gradients', 'lnpdf', 'lnpdf_grad'])

prop('C19', 'The iterative solver never silently returns an unconverged solution',
 'For every behaviour of the underlying Krylov solver, the solution returned comes with a critical log message whenever its true residual exceeds the tolerance or the solver reports failure, and with none otherwise; iteration stops early only at an iterate whose true residual is below the tolerance, and then that iterate is returned. '
 'In verbose mode the iteration count and the true residual norm of the returned solution are reported, and the right-hand side is left unmodified.',
 ['inputs', 'fault_sequences', 'configurations'], 'for every sequence of iterates, return code, tolerance, right-hand side and matrix in bound; both Krylov methods',
 'The solver is exercised only on well-behaved matrices; non-convergence and early termination are never forced.', ['runlmc/approx/iterative.py'],
 [('residual check after the solve, callback every 100 iterations', 'runlmc/approx/iterative.py')], ['return value', 'log'])

prop('C20', 'The optimizer stops by its documented budget and drop rules',
 'For every sequence of gradients, optimization performs at most the maximum number of iterations, stops before that exactly when the gradient norm has been below the minimum ratio of the largest norm seen so far for the permitted number of drops, invokes the callback exactly once per iteration, and leaves the optimum at the last iterate. '
 'Reusing an optimizer object starts afresh with the same settings, and user settings override defaults without affecting other instances.',
 ['histories', 'inputs', 'configurations'], 'for every gradient-norm sequence up to the bound and every setting of the budget parameters',
 'No test exercises the stopping rule.', [M+'optimization.py'], [('rolling maximum and permitted_drops counter', M+'optimization.py')], ['number of iterations', 'callback', 'x_opt'])

U = 'runlmc/util/numpy_convenience.py'
prop('C21', 'Array utilities satisfy their contracts',
 'Splitting into segments returns consecutive pieces of the requested lengths whose concatenation is the input and rejects mismatching totals; searching a descending array returns the number of leading elements at least (or strictly greater than) the threshold and rejects increasing arrays; begin/end offsets, symmetric maps, chunking, Cartesian products and entrywise maps match their definitions. '
 'None of them modifies its arguments.',
 ['inputs'], 'for all values and all shapes in bound, including zero-length segments, ties and thresholds outside the range',
 'Tests enumerate a few arrays.', [U], [('cumulative offsets', U)], ['return values'])

prop('C22', 'Malformed models are rejected, well-formed ones accepted',
 'Building a multi-output model raises ValueError exactly when there are no outputs, the numbers of inputs and outputs or of points and observations differ, an input is not 1-D or 2-D or an output not 1-D, input dimensions disagree, or an output has no variance; prediction inputs of the wrong dimension are rejected. '
 'A multi-output kernel specification is rejected with ValueError exactly when the output count is missing, there is no kernel, LMC kernels and ranks mismatch in number, a rank is not positive, or independent kernels and their indices mismatch in number, and any of the kernel lists may be omitted; an interpolated model without a kernel or with an unknown prediction method is rejected too.',
 ['inputs', 'configurations'], 'for all shapes, lengths and values in bound', 'Tests list some bad shapes; constant outputs with rounding and omitted kernel lists are untested.',
 [M+'multigp.py', LM+'functional_kernel.py'], [('input validation', M+'multigp.py')], ['exceptions from constructors and predict'])

prop('C23', 'Mean functions and their gradients are consistent',
 'The constant mean evaluates to each output\'s own offset at every input of that output and the zero mean to zero, with the reported gradients equal to the derivative of the evaluation with respect to each offset, for any number of outputs and inputs including none. '
 'A gradient handed back is stored on the matching offsets, and evaluating at inputs of the wrong count or dimension is rejected.',
 ['inputs', 'configurations'], 'for all offsets, output counts and input lengths in bound', 'Tests use two or three fixed outputs.',
 ['runlmc/mean/constant.py', 'runlmc/mean/zero.py', 'runlmc/mean/mean_function.py'], [('per-output offset', 'runlmc/mean/constant.py')], ['f', 'mean_gradient', 'parameter gradient'])

prop('C24', 'The GPy-backed model passes the same model to GPy and splits results back',
 'Kernels handed to GPy have the variance fixed at one and the lengthscale (and period) for which GPy\'s kernel equals this package\'s kernel at every distance of one-dimensional inputs; each training and test point is tagged with its own output index, and means, variances and quantiles come back per output, in order, with the lengths asked for including empty outputs.',
 ['inputs', 'configurations'], 'for all hyperparameters, test points, output counts and lengths in bound', 'Tests check one parameter value per kernel and never check the prediction plumbing on its own.',
 [M+'gpy_lmc.py', K+'rbf.py', K+'matern32.py', K+'std_periodic.py'], [('output index tagging', M+'gpy_lmc.py')], ['to_gpy', 'predict', 'predict_quantiles'])

prop('C25', 'The model log likelihood is the Gaussian log density of the normalized outputs',
 'The reported log likelihood equals -(log det K + y\'K~^-1 y + n log 2 pi)/2 with y the stacked (normalized) outputs, K the exact covariance and K~ the interpolated one; the quadratic and log-determinant terms and the covariance can be asked for separately and agree with it, and values recorded as metrics are the ones reported.',
 ['inputs', 'configurations'], 'for all data, parameters and solver results in bound', 'Tests only check that optimizing raises the value.',
 [M+'interpolated_llgp.py'], [('log_det_K, normal_quadratic', M+'interpolated_llgp.py')], ['log_likelihood', 'log_det_K', 'normal_quadratic'])

prop('C26', 'Interpolated models are built from the right grids, distances and weights',
 'For each set of dimensions some kernel is active on, the model lays the automatic grid over exactly those coordinates of its training inputs, using the lower bound, upper bound and size the user gave for those dimensions (a single number for one-dimensional inputs, the average number of inputs if no size is given), in increasing dimension order. '
 'The grid distances it keeps generate the matrix of Euclidean distances between all pairs of grid points in lexicographic order, and its training covariance is the interpolation of the training inputs, in output order, of the kernels at those distances plus noise; vectors and single-column matrices are the same inputs.',
 ['inputs', 'configurations'], 'for all bounds, sizes, active-dimension sets and output lengths in bound', 'Tests build models with the default grid, or the same size in every dimension.',
 [M+'interpolated_llgp.py'], [('grid generation per active-dimension set', M+'interpolated_llgp.py')], ['grid_axes', 'dists', 'kernel.K products', 'Xs'])

prop('C27', 'Metrics describe each training step; optimization ends at its result',
 'With metrics on, every parameter update appends exactly one entry to each series: the mean number of iterations and the mean residual over the observation solve and all probe solves, the largest absolute entry of the approximate gradient, the largest absolute difference to the exact gradient relative to the exact gradient\'s largest entry, and the log likelihood reported for those parameters; queries record nothing, and recording changes neither gradients nor likelihood. '
 'Each call of optimize starts series of its own, leaves those of earlier runs untouched, and ends with the model at the optimizer\'s result, which all queries reflect.',
 ['inputs', 'histories', 'configurations'], 'for all outputs, parameters, solver reports, gradients and optimizer steps in bound', 'No test looks at the metrics of a model.',
 [M+'interpolated_llgp.py', LM+'stochastic_deriv.py', M+'multigp.py'], [('metrics after each update', M+'interpolated_llgp.py'), ('metrics of the solves', LM+'stochastic_deriv.py')], ['metrics', 'parameters after optimize'])

prop('C28', 'Optimization moves exactly the documented parameters, within constraints',
 'The free parameters of a multi-output kernel, and of a model built on it, are exactly: every entry of the coregionalization vectors of LMC and SLFM kernels (unconstrained), every entry of the coregionalization diagonals of LMC kernels, the noise variance of every output and every kernel hyperparameter (all kept positive), each once. '
 'Moving the optimizer\'s vector of free values anywhere sets each of these from an entry of its own and leaves the zero diagonals of SLFM kernels, the zero vectors and fixed unit diagonals of independent kernels and every parameter the user fixed unchanged; the gradient with respect to the free values is, entry by entry, the gradient stored on the parameter times the derivative of its constraint.',
 ['inputs', 'configurations'], 'for all free values, gradients, kernel mixes and sets of fixed parameters in bound', 'No test looks at which parameters are free in a model with SLFM or independent kernels.',
 [LM+'functional_kernel.py', K+'scaled.py', K+'std_periodic.py', 'runlmc/parameterization/param.py'], [('parameter linking and fixing per kernel type', LM+'functional_kernel.py')], ['optimizer_array', 'coreg_vecs', 'coreg_diags', 'noise', 'kernel hyperparameters'])

prop('N01', 'Training and prediction scale linearithmically',
 'Products with the structured covariance take time and memory linearithmic in the grid size and never materialize a dense covariance during training.',
 ['inputs'], 'for all sizes', 'A resource bound over all sizes.', [L+'bttb.py', LM+'grid_kernel.py'], [('FFT products', L+'bttb.py')], ['running time'])
prop('N02', 'Floating-point error of structured products and solves stays small',
 'In double precision, structured products, interpolation and converged solves agree with the exact real-number result to a relative error near machine precision times the condition number.',
 ['inputs'], 'for all double precision inputs', 'Rounding errors depend on every bit of the input.', [L+'toeplitz.py', 'runlmc/approx/iterative.py'], [('FFT products', L+'toeplitz.py')], ['matvec', 'solve'])
prop('N03', 'Stationary kernels are positive semi-definite for every point set',
 'For every finite set of points, the covariance of every provided kernel is positive semi-definite.',
 ['inputs'], 'for all point sets', 'An unbounded, transcendental statement.', [K+'rbf.py', K+'matern32.py'], [('closed forms', K+'rbf.py')], ['from_dist'])
prop('N04', 'Optimization does not decrease the likelihood',
 'Optimizing a model with enough iterations ends with a log likelihood no smaller than the initial one.',
 ['inputs', 'histories'], 'for all data', 'Stochastic convergence.', [M+'optimization.py'], [('AdaDelta on stochastic gradients', M+'optimization.py')], ['log_likelihood'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
