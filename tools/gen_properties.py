"""Writes properties.jsonl (kept as code so that edits stay reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe))))


K = 'runlmc/kern/'
L = 'runlmc/linalg/'
M = 'runlmc/models/'
C = 'runlmc/lmc/'
R = 'runlmc/parameterization/'

prop('C01', "Caller-owned arrays and arguments are never modified",
     "No public operation (building a model, kernel, prior, mean function, grid, interpolant or structured matrix; multiplying by a matrix; predicting; fitting) ever changes the contents of an array, list or dict that the caller passed in. Results that are handed out may share memory with library state, but the inputs keep their values.",
     ['inputs', 'histories'], "every public entry point and every array/list/dict argument a caller can pass, in any call history",
     "Tests use an argument once and drop it; none compares inputs before and after, and in-place operators on aliased views only show up for particular dtypes and optional arguments.",
     ['runlmc/approx/interpolation.py', L + 'matrix.py', M + 'multigp.py', 'runlmc/util/normalizer.py', C + 'likelihood.py'],
     [('inputs are copied or only read; in-place updates target fresh buffers', 'all public functions; e.g. autogrid, multi_interpolant, Toeplitz/BTTB.__init__, Norm.scale_by, ExactLMCLikelihood._coreg_scale')],
     ['argument contents after the call'])

prop('C02', "Queries leave the model unchanged and are repeatable",
     "Reading from a model or matrix (predictions, quantiles, likelihood, covariance, matrix products, dense views, kernel and prior evaluations, gradients of kernels) changes no parameter, no stored data, no answer already given and no later answer. Asking the same question again, in any order relative to other queries, gives the same result.",
     ['histories'], "every sequence of read-only calls on any model or matrix",
     "Tests call each query once on a fresh object, so state written by a query and seen by a later one is never observed.",
     [M + 'interpolated_llgp.py', M + 'multigp.py', L + 'matrix.py', C + 'likelihood.py', R + 'model.py'],
     [('query methods write only local buffers or idempotent memo slots', 'predict, predict_quantiles, log_likelihood, normal_quadratic, log_det_K, K, matvec, matmat, as_numpy, from_dist, kernel_gradient, lnpdf, objective functions')])

prop('C03', "No stale results after a parameter change",
     "Whenever hyperparameters change, every later likelihood, gradient, covariance and prediction is computed from the new values. No remembered intermediate result computed under the old values survives a parameter update, and remembered results are never shared between two model instances.",
     ['histories'], "every interleaving of parameter updates and queries, for all prediction modes",
     "A stale memo only shows when a query, an update and the same query happen in that order in one mode; tests query after a single update.",
     [M + 'interpolated_llgp.py'],
     [('every memoised method is dropped on parameter update before anything reads it', 'InterpolatedLLGP.parameters_changed -> _clear_caches'), ('likelihood object and grid kernels rebuilt on each update', 'InterpolatedLLGP.parameters_changed')])

prop('C04', "Kernels evaluate their documented covariance function",
     "Each stationary kernel returns, for every distance and every parameter value, exactly the documented function (squared exponential, Matern-3/2, standard periodic, identity, scaled). Its exported reference-library counterpart is configured so that it denotes the same function.",
     ['inputs', 'configurations'], "all distances (including zero) and all admissible parameter values of every kernel",
     "Tests compare a few distances at a few parameter values, mostly unit ones where wrong powers coincide.",
     [K + 'rbf.py', K + 'matern32.py', K + 'std_periodic.py', K + 'identity.py', K + 'scaled.py'],
     [('closed-form evaluation', 'RBF/Matern32/StdPeriodic/Identity/Scaled.from_dist'), ('export', 'to_gpy')])

prop('C05', "Kernel gradients are the exact partial derivatives, in parameter order",
     "For every kernel, the list of gradients has one entry per trainable parameter, in the order in which the optimiser's gradient is later distributed to those parameters, and each entry is the exact partial derivative of the kernel function at every distance and parameter value.",
     ['inputs', 'configurations'], "all distances and parameter values, every kernel including composites",
     "Finite-difference tests sample a few points and mostly unit parameters, where a dropped factor of a parameter is invisible; composites are not tested at all.",
     [K + 'rbf.py', K + 'matern32.py', K + 'std_periodic.py', K + 'scaled.py', K + 'identity.py'],
     [('hand-derived derivatives', 'kernel_gradient'), ('distribution of the gradient', 'update_gradient')])

prop('C06', "Every trainable parameter is registered and receives its own gradient",
     "Every parameter that influences the covariance or mean is visible to the optimiser unless it is structurally constant, in a model of any mixture of kernel kinds. After each update, each registered parameter's gradient holds the likelihood derivative with respect to that very parameter, never that of another one and never a stale one.",
     ['configurations', 'inputs'], "every mixture of full, rank-one and independent kernels and every kernel/mean class",
     "Tests fit one or two fixed mixtures and look at the final likelihood, which improves even if some parameters are frozen or get each other's gradients.",
     [C + 'functional_kernel.py', K + 'scaled.py', 'runlmc/mean/constant.py', C + 'likelihood.py'],
     [('registration', 'link_parameter calls in constructors'), ('distribution', 'FunctionalKernel.update_gradient, update_gradient of kernels and means')])

prop('C07', "Scale-like parameters are confined to positive values",
     "Noise levels, inverse lengthscales, periods, kernel scales and trainable coregionalisation diagonals carry a positivity constraint from construction on, so no optimisation step can make them non-positive. Setting a prior constrains the parameter to the prior's domain, and a Gaussian prior with a non-positive variance is refused.",
     ['histories', 'configurations'], "every constructor and every prior, for every optimisation history",
     "Tests only inspect parameters after well-behaved short optimisations.",
     [C + 'functional_kernel.py', K + 'rbf.py', K + 'matern32.py', K + 'std_periodic.py', K + 'scaled.py', R + 'priorizable.py', R + 'priors.py'],
     [('Logexp constraint at creation', 'Param(..., Logexp())'), ('domain table', 'Prior._CONSTRAIN_DOMAIN, PriorizableLeaf.set_prior')])

prop('C08', "Priors are normalised log densities with exact derivatives",
     "Each prior's log density is the normalised density of its named distribution under the documented parameterisation, for every parameter and argument in the domain, and its gradient is the exact derivative of that log density. Constructing a prior from a mean and variance yields a distribution with exactly that mean and variance.",
     ['inputs', 'configurations'], "all prior parameters and all arguments in the domain",
     "No test checks the densities or gradients; optimisation still proceeds with a wrong constant or slope.",
     [R + 'priors.py'], [('closed forms', 'Gaussian, Gamma, InverseGamma, HalfLaplace: lnpdf, lnpdf_grad, from_EV')])

prop('C09', "Objective and its gradient combine likelihood and all priors consistently",
     "The quantity minimised is minus the sum of the log likelihood and the log prior including the change-of-variables term of every constrained parameter that has a prior, and the gradient handed to the optimiser is the derivative of exactly that quantity with respect to every parameter. This holds for any number of priors on any subset of parameters, including none.",
     ['configurations', 'inputs'], "any assignment of priors and constraints to parameters",
     "Tests attach at most one kind of prior; interaction of several priors with several constraints is never exercised.",
     [R + 'model.py'], [('prior sum plus Jacobian', 'Model.log_prior'), ('its gradient', 'Model._log_prior_gradients'), ('signs', 'objective_function, objective_function_gradients')])

prop('C10', "Every covariance representation denotes the same coregionalised covariance",
     "The matrix-free covariance used for fitting equals interpolation times the sum over kernels of coregionalisation matrix Kronecker grid kernel times interpolation transposed, plus the per-output noise, with each coregionalisation matrix equal to the Gram matrix of its vectors plus its diagonal. This holds for every mixture of full, rank-one and independent kernels, every number of outputs, every rank and every split of input dimensions, whichever internal representation is picked; the exact covariance obeys the same formula on the raw inputs.",
     ['configurations', 'inputs'], "every mixture and count of kernels, outputs, ranks, grid sizes and active-dimension splits",
     "Which representation is used depends on ranks and counts; tests reach a few of them with fixed sizes and loose tolerances.",
     [C + 'grid_kernel.py', C + 'functional_kernel.py', C + 'likelihood.py', 'runlmc/approx/ski.py'],
     [('representation choice and construction', 'gen_grid_kernel, GridKernel, _gen_sum_grid, _gen_bt_grid, _gen_slfm_grid'), ('dense counterpart', 'ExactLMCLikelihood.__init__, kernel_from_indices'), ('coregionalisation matrices', 'FunctionalKernel.coreg_mats')])

prop('C11', "Likelihood gradients are those of the modelled covariance",
     "For every hyperparameter (coregionalisation vectors and diagonals, kernel parameters, noise) the reported derivative is one half of the quadratic form of the weights with the covariance derivative minus the trace of the inverse covariance with it, evaluated with that hyperparameter's own exact covariance derivative. The exact and the matrix-free likelihood use the same covariance derivatives, the latter estimating the trace by averaging over its probe vectors.",
     ['configurations', 'inputs'], "every hyperparameter of every mixture, all data sizes",
     "Gradient tests compare norms for a few small models with tolerance of stochastic noise; a wrong derivative in one coordinate is hidden.",
     [C + 'likelihood.py', C + 'derivative.py', C + 'exact_deriv.py', C + 'stochastic_deriv.py'],
     [('covariance derivatives', '_dKdt_from_dAdt, _dKdts_from_dKqdts, _dKdt_from_dEpsdt'), ('assembly', 'coreg_vec_gradients, coreg_diags_gradients, kernel_gradients, noise_gradient'), ('0.5*(quadratic - trace)', 'Derivative.derivative')])

prop('C12', "Structured matrices behave as the dense matrix they stand for",
     "For every structured matrix (dense wrapper, diagonal, identity, Kronecker, Toeplitz, block Toeplitz, block diagonal, symmetric block, sum, composition, interpolated) and every vector or matrix of fitting size and any numeric type, the product equals the mathematically defined product, and the dense view equals the defining matrix. Products with several columns agree column by column with single-vector products.",
     ['inputs', 'configurations'], "all sizes, block shapes, orders and input vectors",
     "Tests use a handful of shapes, square blocks and floating vectors; rectangular blocks, odd sizes, integer vectors and nested composition are hardly reached.",
     [L + 'kronecker.py', L + 'toeplitz.py', L + 'bttb.py', L + 'block_diag.py', L + 'block_matrix.py', L + 'sum_matrix.py', L + 'composition.py', L + 'matrix.py', L + 'diag.py', L + 'identity.py', L + 'numpy_matrix.py', 'runlmc/approx/ski.py'],
     [('matrix-vector products', 'matvec/matmat'), ('dense views', 'as_numpy')])

prop('C13', "Predictions are the Gaussian-process posterior, in every mode",
     "The predicted mean is the interpolated cross-covariance times the solved weights; the predicted variance is the prior variance of the output plus its noise minus the explained variance of the chosen mode, clipped at zero. All outputs, including ones with no test points, come back in their own place with one value per test point.",
     ['inputs', 'configurations'], "all test sets (including empty ones per output), outputs, kernels and prediction modes",
     "Prediction code is marked untested; tests only check coarse agreement for fixed small problems.",
     [M + 'interpolated_llgp.py', C + 'likelihood.py'],
     [('posterior formulas', '_raw_predict, _grid_alpha, _native_variance, _var_predict_*'), ('splitting by output', 'np.split(…, endpoints)')])

prop('C14', "Output normalisation is exactly undone in everything reported",
     "With normalisation on, training uses each output's own standardised values and predictions are mapped back with that same output's mean and deviation: means and quantiles affinely, variances by the squared deviation. With normalisation off, nothing is rescaled, and quantiles are those of the Gaussian with the predicted mean and variance.",
     ['inputs', 'configurations'], "any number of outputs, any scale and offset of each, any quantiles, normalisation on or off",
     "Tests use outputs of similar scale, so swapping statistics between outputs or a wrong power of the deviation goes unnoticed.",
     [M + 'multigp.py', 'runlmc/util/normalizer.py'],
     [('per-output statistics', 'Norm.scale_by, normalize'), ('inverse maps', 'inverse_mean, inverse_variance in _predict and predict_quantiles')])

prop('C15', "Interpolation weights are the cubic-convolution weights on the right points",
     "For every sample inside the grid the interpolation row holds the cubic-convolution weights of its neighbouring grid points (one or two dimensions), sums to one and reproduces constants and linear functions; samples near or beyond the edge use only existing grid points. The multi-output interpolant places each output's rows and columns in its own diagonal block, whatever the number of samples per output, including none.",
     ['inputs'], "all equispaced grids, all samples (on grid points, between, at or past the edges), any number per output",
     "Tests check convergence on a few random samples; edge handling, on-grid samples and empty outputs are rarely hit.",
     ['runlmc/approx/interpolation.py'],
     [('weights', 'cubic_kernel'), ('neighbour choice and clamping', 'interp_cubic, interp_bicubic'), ('block layout', 'multi_interpolant')])

prop('C16', "Automatically chosen grids cover the data with margin",
     "For every data set spanning a range in each dimension and any combination of user-supplied lower bounds, upper bounds and sizes, the generated grid has, per dimension, the requested (by default the average number of samples per output, rounded down) number of points plus four, is equally spaced and increasing, and extends at least two requested grid steps beyond the smallest and largest input on both sides.",
     ['inputs', 'configurations'], "all inputs, all combinations of optional bounds and sizes, any dimension",
     "Tests check a few concrete grids with inside bounds.",
     ['runlmc/approx/interpolation.py'], [('bounds widening', 'autogrid')])

prop('C17', "The iterative solver answers the question asked or says so",
     "The solver returns an approximate solution for exactly the matrix and right-hand side it was given, obtained with the method asked for, from the converged iterate or the early-stopped one. Whenever the final residual exceeds the requested tolerance or the method reports failure, a critical log entry is made, whether or not statistics were requested; early stopping happens only once the residual is below the tolerance, and the reported iteration count and error are those of the returned solution.",
     ['inputs', 'histories'], "every matrix, right-hand side, tolerance, method choice and iteration history",
     "There is no unit test of the solver; non-convergence and early stopping depend on hundreds of iterations.",
     ['runlmc/approx/iterative.py'], [('residual check after the solve', 'Iterative.solve'), ('early termination callback', '_EarlyTerm')])

prop('C18', "Parallel execution gives the serial answers, in order",
     "Distributing work over processes changes nothing but speed: results are returned for the same tasks in the same order as serially, tasks do not read or write shared mutable state or draw random numbers, and anything sent to a worker is equivalent after transfer. Work runs serially when one process is requested.",
     ['schedules', 'configurations'], "every worker count, scheduling order and task list",
     "Tests run models under the size threshold, so worker processes are never started.",
     ['runlmc/util/inline_pool.py', M + 'interpolated_llgp.py', C + 'stochastic_deriv.py', L + 'matrix.py'],
     [('order-preserving map with serial fallback', 'InlinePool.starmap'), ('pure task functions', 'Iterative.solve, InterpolatedLLGP._var_solve'), ('transfer drops process-local caches only', 'Matrix.__getstate__/__setstate__')])

prop('C19', "Diagnostics never influence numerical results",
     "Turning on metrics, debug logging, verbosity or progress printing does not change parameters, gradients, predictions, the random draws used, or the sequence of optimisation steps. Diagnostic-only values never flow into results.",
     ['configurations', 'histories'], "every combination of metrics, log level and verbosity settings, over whole optimisation runs",
     "Tests never compare runs that differ only in diagnostics, and seeds differ between runs.",
     [M + 'interpolated_llgp.py', C + 'stochastic_deriv.py', 'runlmc/approx/iterative.py', M + 'optimization.py'],
     [('diagnostic branches only append to metrics or log', 'parameters_changed, StochasticDerivService.generate, AdaDelta._print_*')])

prop('C20', "Malformed requests are refused with a ValueError before any work",
     "Building a model from no outputs, mismatched numbers of inputs and outputs, mismatched lengths, wrongly shaped arrays, inconsistent input dimensions or a constant output is refused with a ValueError; so are kernels specifications without outputs or kernels, with inconsistent or non-positive ranks or mismatched indices, an unknown prediction mode, a missing kernel, mis-shaped structured-matrix arguments, too small or mis-shaped grids, and predictions of the wrong input dimension. Well-formed requests, including omitted optional arguments, are accepted.",
     ['inputs', 'configurations'], "every malformed and every well-formed combination of arguments",
     "Tests try one example of some of the cases; conditions that are too weak or too strong on other combinations pass.",
     [M + 'multigp.py', M + 'interpolated_llgp.py', C + 'functional_kernel.py', L + 'matrix.py', L + 'toeplitz.py', L + 'bttb.py', L + 'block_matrix.py', L + 'sum_matrix.py', 'runlmc/approx/interpolation.py', 'runlmc/mean/constant.py'],
     [('validation before construction', '_validate_io, _pad_dims, FunctionalKernel.__init__, constructors in linalg, interp_cubic, interp_bicubic')])

prop('C21', "Fitting stays matrix-free",
     "With metrics and debug logging off, a hyperparameter update, its gradient and a mean prediction never build a dense data-by-data or grid-by-grid matrix and never factorise or invert one: work is done by structured products only, whatever the kernels, sizes or outputs.",
     ['inputs', 'configurations'], "every model configuration and data size, over the whole update and mean-prediction path",
     "The small models in tests are just as fast with a dense matrix, so a dense fallback is invisible.",
     [M + 'interpolated_llgp.py', C + 'grid_kernel.py', C + 'likelihood.py', C + 'stochastic_deriv.py', 'runlmc/approx/ski.py'],
     [('no dense conversion reachable from the update path', 'parameters_changed -> gen_grid_kernel, ApproxLMCLikelihood, StochasticDerivService.generate')])

prop('C22', "The bundled optimiser is bounded, reusable and transparent",
     "An optimisation with the bundled optimiser stops after at most the configured number of iterations or the permitted number of gradient-norm drops, leaves the final iterate as its result, calls the user callback once per iteration, and can be reused for another run with the same configuration. Interruptions and errors raised during fitting reach the caller.",
     ['histories', 'configurations'], "every configuration and every sequence of gradients",
     "Tests only run a handful of iterations on one model and never reuse an optimiser or interrupt it.",
     [M + 'optimization.py', M + 'multigp.py'],
     [('loop guard', 'AdaDelta.opt'), ('re-raise', 'MultiGP.optimize')])

prop('C23', "Mean functions and their gradients are what they claim",
     "The constant mean returns, for each output, its own offset at every input; the zero mean returns zeros; the reported gradients are the exact derivatives with respect to each offset, and updating the gradient stores each component with its own offset. Inputs of the wrong number or shape are refused.",
     ['inputs', 'configurations'], "any number of outputs, inputs per output and offsets",
     "Tests use one fixed two-output example.",
     ['runlmc/mean/constant.py', 'runlmc/mean/zero.py', 'runlmc/mean/mean_function.py'],
     [('closed forms', 'f, mean_gradient, update_gradient')])

prop('C24', "Reported likelihood matches the model's Gaussian likelihood",
     "The reported log likelihood is minus one half of the log determinant plus the quadratic form of the outputs with the solved weights plus the number of observations times log two pi, where the log determinant is twice the sum of the logs of the Cholesky diagonal of the exact covariance. A non-positive determinant is reported as minus infinity with a critical log entry.",
     ['inputs', 'configurations'], "all data, kernels and hyperparameters",
     "Tests only look at the direction of change of the likelihood.",
     [M + 'interpolated_llgp.py'], [('formula', 'log_likelihood, log_det_K, normal_quadratic')])

prop('C25', "Array helpers keep their contracts for every input",
     "The array utilities hold for all inputs: block boundaries of a list of lengths are consecutive and start at zero, splitting by lengths preserves order and content, chunks cover a sequence in order, the Cartesian product lists every combination with the last axis fastest, symmetric maps fill both halves, and searching a descending array returns the documented count.",
     ['inputs'], "all lengths (including zero-length blocks), dimensions and values",
     "Tests try small examples; empty blocks and unusual sizes are not covered.",
     ['runlmc/util/numpy_convenience.py'],
     [('closed forms', 'begin_end_indices, tesselate, chunks, cartesian_product, symm_2d_list_map, search_descending, map_entries')])

# ----- stated, but outside what a static argument can decide here
prop('C30', "Iterative solves converge to the requested accuracy",
     "For every well-conditioned covariance the matrix-free solver reaches the requested residual within its iteration limit.",
     ['inputs'], "all covariances and right-hand sides",
     "Depends on spectra of data-dependent matrices.",
     ['runlmc/approx/iterative.py'], [('MINRES/CG', 'Iterative.solve')])
prop('C31', "Interpolated covariance approximates the exact one",
     "The interpolated covariance differs from the exact covariance by an amount that vanishes at cubic rate with the grid spacing.",
     ['inputs', 'configurations'], "all kernels, data and grids",
     "Tests sample a few grids.",
     ['runlmc/approx/interpolation.py', 'runlmc/approx/ski.py'], [('cubic convolution', 'interp_cubic')])
prop('C32', "Stochastic gradients are unbiased with bounded variance",
     "Averaged over probe draws, the matrix-free gradient equals the exact one, with variance shrinking with the number of probes.",
     ['inputs', 'schedules'], "all probe draws", "Needs the distribution of random draws.",
     [C + 'stochastic_deriv.py'], [('Rademacher probes', 'StochasticDerivService.generate')])
prop('C33', "Fitting improves the likelihood",
     "Optimising a model from its initial parameters does not end at a lower likelihood.",
     ['inputs', 'histories'], "all data and starting points", "Only a few data sets are tried.",
     [M + 'multigp.py', M + 'optimization.py'], [('gradient ascent', 'AdaDelta.opt')])
prop('C34', "Covariances stay numerically positive definite",
     "In floating point, every assembled covariance is symmetric positive definite and every eigenvalue bound is a true bound.",
     ['inputs'], "all parameters and data in floating point", "Rounding depends on the data.",
     [L + 'toeplitz.py', C + 'likelihood.py'], [('noise on the diagonal', 'gen_grid_kernel'), ('Gershgorin bound', 'upper_eig_bound')])
prop('C35', "Products and updates run in near-linear time and memory",
     "Matrix products cost O(m log m) per grid block, and an update costs a number of products independent of the data size.",
     ['inputs'], "all sizes", "Small tests cannot observe asymptotics.",
     [L + 'bttb.py', M + 'interpolated_llgp.py'], [('FFT products', 'BTTB.matvec')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
