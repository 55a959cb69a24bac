"""The properties; gen.py turns this into properties.jsonl and MANIFEST.json."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


L = "src/limbo/"
GPF = [L + "model/gp.hpp", L + "kernel/kernel.hpp", L + "mean/data.hpp"]

p("C01", "A GP predicts the exact Gaussian-process posterior of its data",
  "For every data set, kernel, mean function and hyper-parameters, the mean and variance a model computed from that data returns at any point are those of the textbook Gaussian-process posterior (variance including the observation noise), and before any data those of the prior. The joint query returns the same as the separate ones, and the model reports back exactly the samples, observations, mean and maximum observation it was given.",
  ["inputs", "configurations"], "all data sets (sizes, dimensions, duplicates, far points, 1-3 outputs), built-in and user-defined kernels and mean functions, hyper-parameters",
  "test_gp compares a handful of 1-D and 2-D examples with one kernel and loose hand-written values; the closed form must hold for every data set and every kernel/mean combination.",
  GPF + [L + "kernel/exp.hpp", L + "kernel/matern_five_halves.hpp", L + "kernel/matern_three_halves.hpp", L + "kernel/squared_exp_ard.hpp"],
  [("Cholesky of the noisy kernel matrix, alpha", L + "model/gp.hpp compute/_compute_full_kernel"), ("query/mu/sigma", L + "model/gp.hpp")],
  ["GP::query, mu, sigma, samples, observations, mean_observation, max_observation"])

p("C02", "Any history of model updates equals a model built afresh from the same data",
  "After any sequence of computing, adding samples one by one, changing hyper-parameters and recomputing what they affect, saving and loading, copying, and computing the data before the kernel, a GP predicts and reports exactly what a new model computed at once from the current data and hyper-parameters would. Asking for likelihoods, gradients or the inverse kernel in between never changes that, and working on a copy never changes the original.",
  ["histories"], "all interleavings of the public operations of a GP",
  "Tests run one or two fixed sequences (compute versus add_sample); stale caches and incremental-update errors appear only in particular orders.",
  GPF + [L + "serialize/binary_archive.hpp", L + "serialize/text_archive.hpp"],
  [("incremental Cholesky", L + "model/gp.hpp _compute_incremental_kernel"), ("recompute(update_obs_mean, update_full_kernel)", L + "model/gp.hpp"), ("load/save", L + "model/gp.hpp")],
  ["GP public interface after each operation"])

p("C03", "Predictive variance is bounded by noise and prior and never grows with data",
  "At every point the variance a GP returns is finite, at least the observation noise and at most the prior variance plus the noise, whatever the data (duplicates, clusters, far outliers, hundreds of samples, no noise at all). Adding a sample never increases it anywhere; it depends neither on the observed values nor on the order of the samples; and with the data mean, shifting and scaling the observations shifts and scales the predicted mean.",
  ["inputs", "histories"], "all data sets including ill-conditioned ones, all orders of adding them",
  "Tests check a few values at benign points; the bounds must survive every degenerate data set, where a reference value is not even computable.",
  GPF, [("clamping of the posterior variance", L + "model/gp.hpp _sigma"), ("noise and jitter on the diagonal", L + "kernel/kernel.hpp")],
  ["GP::sigma, GP::query, GP::mu"])

p("C04", "Log-likelihood and leave-one-out scores equal their definitions",
  "Whatever happened to a GP before, the log marginal likelihood it computes is the log density of its observations under the prior with noise, and the leave-one-out score is the sum of the log predictive probabilities of each observation given all the others. The stored scores are the last computed or set ones.",
  ["inputs", "histories"], "all data sets, kernels, means, hyper-parameters and preceding operations",
  "Tests only compare the gradient with finite differences of the same code; a consistent error in the value, or a value from a stale matrix, passes.",
  [L + "model/gp.hpp"], [("compute_log_lik", L + "model/gp.hpp"), ("compute_log_loo_cv", L + "model/gp.hpp"), ("inverse kernel cache", L + "model/gp.hpp compute_inv_kernel")],
  ["GP::compute_log_lik, compute_log_loo_cv, get_*/set_*"])

p("C05", "Likelihood gradients are the derivatives of the likelihood",
  "After any history, the gradients a GP computes (log-likelihood with respect to kernel parameters including the noise, and to mean parameters; leave-one-out score with respect to kernel parameters) are the derivatives of the corresponding true score at the current parameters and data. They have one entry per parameter.",
  ["inputs", "histories"], "all data sets, kernels, means, hyper-parameters, numbers of outputs and preceding operations (in particular warm and stale inverse-kernel caches)",
  "test_gp checks gradients on fresh models with two kernels and one output, against finite differences of the same implementation.",
  [L + "model/gp.hpp", L + "kernel/kernel.hpp", L + "mean/function_ard.hpp"],
  [("compute_kernel_grad_log_lik", L + "model/gp.hpp"), ("compute_mean_grad_log_lik", L + "model/gp.hpp"), ("compute_kernel_grad_log_loo_cv", L + "model/gp.hpp")],
  ["GP::compute_*_grad_*"])

p("C06", "Kernels are their documented covariance functions, with exact gradients",
  "Every kernel returns its documented formula for all points and parameters, is symmetric and positive semi-definite, adds the noise (and the fixed jitter) exactly when both indices denote the same sample, and gives the derivative with respect to each log-space parameter. Parameters start at the configured values, and what is set is read back; the noise is a parameter only if it is to be optimised.",
  ["inputs", "configurations"], "all pairs of points, dimensions 1-8, parameters, ARD ranks and noise settings",
  "test_kernel evaluates a few fixed points for default parameters and compares gradients with finite differences of the same kernel.",
  [L + "kernel/kernel.hpp", L + "kernel/exp.hpp", L + "kernel/matern_three_halves.hpp", L + "kernel/matern_five_halves.hpp", L + "kernel/squared_exp_ard.hpp"],
  [("BaseKernel::operator()/grad/h_params", L + "kernel/kernel.hpp"), ("kernel/gradient of each kernel", L + "kernel/*.hpp")],
  ["kernel operator(), grad, h_params, set_h_params, noise"])

p("C07", "Mean functions and their gradients match their definition",
  "The constant, data, null and linearly transformed (ARD) mean functions return their defined value for every number of outputs, parameters and model state, and their gradients are the derivatives of that value with respect to every parameter, including those of the transformed function. Parameters start at the configured (identity) values and what is set is read back.",
  ["inputs", "configurations"], "all parameters, outputs and nested mean functions",
  "test_mean covers one nested mean with two outputs against finite differences of itself.",
  [L + "mean/constant.hpp", L + "mean/data.hpp", L + "mean/null_function.hpp", L + "mean/function_ard.hpp"],
  [("FunctionARD operator()/grad/set_h_params", L + "mean/function_ard.hpp")], ["mean operator(), grad, h_params"])

p("C08", "Hyper-parameter optimisation optimises the true score and installs its result",
  "Every hyper-parameter optimisation starts, unbounded, from the current parameters; hands the optimiser the true score of the given parameters (and its gradient when asked for) without disturbing the model; and leaves the model with exactly the parameters the optimiser returned, all others unchanged, the predictions of a model built with them, and the stored score of those parameters. With the default optimiser the score never decreases.",
  ["inputs", "histories", "configurations"], "all data sets and preceding operations, the four objectives, built-in and user-supplied optimisers",
  "Tests run a few optimisations and check that parameters are not NaN or that the likelihood of one example improves.",
  [L + "model/gp/kernel_lf_opt.hpp", L + "model/gp/mean_lf_opt.hpp", L + "model/gp/kernel_mean_lf_opt.hpp", L + "model/gp/kernel_loo_opt.hpp"],
  [("objective functors on a copy of the model", L + "model/gp/*_opt.hpp"), ("Rprop keeps the best evaluated point", L + "opt/rprop.hpp")],
  ["user optimiser called by optimize_hyperparams; model after it"])

p("C09", "A multi-output model equals independent GPs on the residuals, at any time",
  "After any history of computing, adding, changing parameters of the outputs' models or of the common mean and recomputing, optimising, saving and loading, or copying, a multi-output model predicts for each output what an independent GP on that output's residuals plus the mean function predicts, one variance per output. A sparsified inner model makes it forget the dropped samples together with their observations. Optimising its hyper-parameters gives each output what it would get alone.",
  ["histories", "configurations"], "all interleavings of the public operations, 1-4 outputs, several kernels and means, GP or SparsifiedGP (within its budget and beyond) inside",
  "test_gp compares one computed MultiGP with one GP; histories (recompute without kernel, data-dependent means after add_sample, load) are not reached.",
  [L + "model/multi_gp.hpp", L + "model/multi_gp/parallel_lf_opt.hpp"],
  [("residual bookkeeping", L + "model/multi_gp.hpp compute/add_sample/recompute"), ("per-output optimisation", L + "model/multi_gp/parallel_lf_opt.hpp")],
  ["MultiGP public interface after each operation"])

p("C10", "A sparsified GP keeps its budget by dropping densest points, and is a GP",
  "A sparsified GP never holds more samples than its budget; what it holds is a sub-sequence of what it was given with every sample still paired with its own observation; each removal takes a point whose summed distance to its nearest neighbours (as many as input dimensions) is the smallest. It predicts exactly what a plain GP of the kept samples predicts, and is a plain GP while within the budget.",
  ["inputs", "histories"], "all sample sets, budgets, dimensions, computed at once or grown sample by sample",
  "test_gp checks one sparsification's size and prediction error; pairing, greedy choice and repeated re-sparsification are not observed.",
  [L + "model/sparsified_gp.hpp"], [("_sparsify, _get_most_dense_point, row/column removal", L + "model/sparsified_gp.hpp")],
  ["SparsifiedGP::samples, observations, query after compute/add_sample"])

p("C11", "Bounded optimisers evaluate and return only points in the unit hypercube",
  "Whatever the function, the starting point (inside or outside the bounds), the dimension and the settings, the gradient, grid, random and NLOpt-based inner optimisers asked to optimise with bounds only evaluate points in [0,1]^n and return a finite point in [0,1]^n of the dimension of the starting point. Chains and parallel restarts of them do too.",
  ["inputs", "configurations"], "all objective functions (multi-modal, flat, steep, discontinuous), starting points, dimensions and optimiser settings",
  "test_optimizers looks at the final result of a few smooth functions; the points evaluated on the way are never checked.",
  [L + "opt/rprop.hpp", L + "opt/adam.hpp", L + "opt/gradient_ascent.hpp", L + "opt/grid_search.hpp", L + "opt/random_point.hpp", L + "opt/nlopt_base.hpp", L + "opt/parallel_repeater.hpp", L + "opt/chained.hpp"],
  [("clamping", L + "opt/*.hpp")], ["every call of the objective, and the returned point"])

p("C12", "Best-of optimisers return the best point they evaluated",
  "Rprop, grid search and the NLOpt wrappers whose algorithm keeps its incumbent (DIRECT, CRS2, ESCH, ISRES, MMA, CCSAQ, SLSQP, Nelder-Mead, Subplex, bounded BOBYQA) return the point with the highest value among all points they evaluated, also when all values are negative or tied. Grid search evaluates exactly the nodes of the regular grid, both ends included. The parallel repeater runs the requested number of restarts from starting points within its radius of the given one and returns a best result of them.",
  ["inputs", "configurations"], "all objective functions, including plateaus and negative values, starting points, numbers of bins and restarts",
  "Tests check convergence on one or two concave functions, where any tie-breaking or bookkeeping error is invisible.",
  [L + "opt/rprop.hpp", L + "opt/grid_search.hpp", L + "opt/parallel_repeater.hpp", L + "opt/nlopt_no_grad.hpp", L + "opt/nlopt_grad.hpp"],
  [("best so far", L + "opt/rprop.hpp"), ("recursive grid", L + "opt/grid_search.hpp"), ("parallel max over restarts", L + "opt/parallel_repeater.hpp")],
  ["every call of the objective, and the returned point"])

p("C13", "Gradient optimisers follow their published update rule, budget and stopping rule",
  "The sequence of points at which Rprop, Adam and gradient ascent (plain, with momentum, Nesterov) ask for the gradient, and the point they return, are those of the published rule for the configured rates, with projection on the bounds when bounded. They ask for the gradient at every step, never more often than the configured number of iterations, and stop early exactly when the configured tolerance is met.",
  ["inputs", "configurations"], "all functions, starting points, rates, momentum, tolerances and iteration budgets",
  "Tests only check that one quadratic is maximised to a loose tolerance.",
  [L + "opt/rprop.hpp", L + "opt/adam.hpp", L + "opt/gradient_ascent.hpp"],
  [("update loops", L + "opt/*.hpp")], ["every gradient request (trace), and the returned point"])

p("C14", "NLOpt wrappers respect budget, gradient use, constraints, and find the optimum",
  "The NLOpt-based optimisers maximise: on smooth concave functions they reach the maximum over the hypercube. They hand the configured budget, tolerances and bounds to the algorithm unchanged, so that they evaluate what NLopt itself would and exceed the budget at most to finish a line search or population. Gradient-based ones always ask for gradients, others never. Equality and inequality constraints that were added hold at the returned point (for algorithms that guarantee feasibility), which is then the constrained optimum.",
  ["inputs", "configurations"], "concave functions with interior and boundary optima, algorithms, budgets, constraints",
  "Tests run one function and two algorithms; budget, gradient requests and boundary optima are not observed.",
  [L + "opt/nlopt_base.hpp", L + "opt/nlopt_grad.hpp", L + "opt/nlopt_no_grad.hpp"],
  [("NLOptBase", L + "opt/nlopt_base.hpp")], ["every call of the objective and constraints, and the returned point"])

p("C15", "Combined optimisers compose exactly their parts",
  "A chain of optimisers runs each part once, in the given order, on the same function and with the same bounds, starting each from the result of the previous one, and returns the last result. A parallel repeater runs its optimiser the configured number of times on the same function and bounds and returns one of their results with the highest value.",
  ["inputs", "configurations", "schedules"], "all parts, orders, starting points, numbers of restarts",
  "Tests check only the final value of one chain on one function.",
  [L + "opt/chained.hpp", L + "opt/parallel_repeater.hpp"], [("recursive call", L + "opt/chained.hpp"), ("par::max", L + "opt/parallel_repeater.hpp")],
  ["calls of recording inner optimisers"])

p("C16", "Initial designs evaluate exactly the prescribed points through the evaluator",
  "Random, grid, random-grid, Latin-hypercube and empty initialisations evaluate exactly the configured number of points of their design (every point of the full regular grid exactly once; one sample per stratum in each dimension for Latin hypercubes; points on the grid for the random grid), in [0,1]^n when bounded, each exactly once through the optimiser's own evaluation so that samples and observations are recorded in order. The configured unbounded variants draw without bounds.",
  ["inputs", "configurations"], "all dimensions, numbers of samples and bins, random seeds",
  "test_init_functions counts the samples of one configuration each.",
  [L + "init/random_sampling.hpp", L + "init/grid_sampling.hpp", L + "init/random_sampling_grid.hpp", L + "init/lhs.hpp", L + "init/no_init.hpp", L + "tools/random_generator.hpp"],
  [("init functors", L + "init/*.hpp")], ["calls of the evaluation function, samples()/observations() after initialisation"])

p("C17", "The optimisation loop follows its protocol at every iteration",
  "Until a stopping criterion holds, each iteration asks the acquisition function's maximiser for exactly one point (with bounds and dimensions as configured), evaluates the user's function exactly once there, records the pair, gives the same pair to the model, optimises hyper-parameters exactly at the configured period, and calls every statistic once; counters, samples and observations always agree with what the user's function saw. A run can be continued or reset: reset forgets the data and restarts the counters, no reset keeps them.",
  ["histories", "configurations"], "all sequences of runs, resets, periods, stopping criteria, input and output dimensions, statistics",
  "Tests check final accuracy on simple functions, which hides skipped, repeated or stale updates.",
  [L + "bayes_opt/bo_base.hpp", L + "bayes_opt/boptimizer.hpp"],
  [("optimize loop", L + "bayes_opt/boptimizer.hpp"), ("eval_and_add, _init, _stop, _update_stats", L + "bayes_opt/bo_base.hpp")],
  ["recording model, acquisition, optimiser, statistics, stopping criteria and user function"])

p("C18", "A failing evaluation never corrupts the recorded state",
  "When the user's function throws or returns a non-finite value at any evaluation, the failure surfaces to the caller, nothing of the failed evaluation enters the recorded samples, observations or the model, samples and observations stay paired, and the run can be continued to the state it would have had without the failed evaluation's data.",
  ["fault_sequences", "histories"], "faults (NaN, infinity, exceptions) at every evaluation position, during initialisation and iterations, repeated",
  "No test injects a fault.",
  [L + "bayes_opt/bo_base.hpp", L + "bayes_opt/boptimizer.hpp"],
  [("EvaluationError, eval_and_add", L + "bayes_opt/bo_base.hpp")], ["samples(), observations(), model after a fault at the k-th evaluation"])

p("C19", "The reported best sample and observation are the best ones seen",
  "The best observation and best sample an optimiser reports are an observation with the highest aggregated value among all recorded ones and the sample that produced it, for every aggregator, number of outputs and history, including after continuing a run.",
  ["inputs", "histories"], "all functions, aggregators, outputs and histories",
  "Tests look at the best value of simple single-output runs.",
  [L + "bayes_opt/boptimizer.hpp"], [("best_observation/best_sample", L + "bayes_opt/boptimizer.hpp")],
  ["best_observation, best_sample versus samples()/observations()"])

p("C20", "Runs stop exactly when a stopping criterion says so",
  "A run performs iterations until the first of its stopping criteria holds and no further one: at the configured number of iterations (counted across continued runs as documented), and when the best aggregated observation reaches the configured ratio of the maximum the model predicts. A run that starts with a criterion already true performs no iteration, and all criteria are combined by 'or'.",
  ["configurations", "histories"], "all budgets, ratios, combinations of criteria, continued runs",
  "Tests use the iteration criterion with one budget and check only results.",
  [L + "stop/max_iterations.hpp", L + "stop/max_predicted_value.hpp", L + "stop/chain_criteria.hpp", L + "bayes_opt/bo_base.hpp"],
  [("_stop", L + "bayes_opt/bo_base.hpp"), ("stop criteria", L + "stop/*.hpp")], ["number of evaluations and iterations of runs; criteria called directly"])

p("C21", "Acquisition functions compute their documented formula",
  "UCB, GP-UCB and expected improvement (and the experimental constrained expected improvement and IMGPO's bound) return their documented formula of the model's current mean and variance at every point, iteration, dimension and aggregator, are finite wherever the model is, and follow the model when it changes. Expected improvement is never negative and is zero where the variance vanishes.",
  ["inputs", "histories"], "all models, points, iterations, parameters and aggregators",
  "Tests only use them inside optimisation runs.",
  [L + "acqui/ucb.hpp", L + "acqui/gp_ucb.hpp", L + "acqui/ei.hpp", L + "experimental/acqui/eci.hpp", L + "experimental/acqui/ucb_imgpo.hpp"],
  [("operator()", L + "acqui/*.hpp")], ["acquisition values against the model's own query"])

p("C22", "Statistics files record exactly what happened",
  "Every statistic writes, once per call as documented, the data of the current iteration in its documented format: samples, observations, best ones, aggregated values, hyper-parameters, likelihood, predictions on the regular grid, acquisition values and prediction differences, so that the files reproduce the history of the run. Nothing is written, and no directory is created, when statistics are disabled.",
  ["histories", "configurations"], "all runs, iteration counts, dimensions, combinations of statistics",
  "No test reads the files back.",
  [L + "stat/stat_base.hpp", L + "stat/samples.hpp", L + "stat/observations.hpp", L + "stat/best_samples.hpp", L + "stat/gp.hpp", L + "bayes_opt/bo_base.hpp"],
  [("stat functors", L + "stat/*.hpp")], ["files of the result directory against the recorded run"])

p("C23", "Archives reproduce what was saved, exactly",
  "Whatever matrices, vectors or lists of vectors are saved, loading them from the archive gives back the same shapes and values: bit for bit from a binary archive, to the fifteen written digits from a text archive, including extreme, tiny, negative-zero and infinite values, overwritten names and several objects. Saving one object never disturbs another.",
  ["inputs", "histories"], "all shapes (including single rows and columns) and values, orders of saving and loading",
  "test_serialize saves one model of each kind and compares predictions loosely.",
  [L + "serialize/binary_archive.hpp", L + "serialize/text_archive.hpp"], [("save/load", L + "serialize/*.hpp")],
  ["values loaded from archives of random objects"])

p("C24", "Parallel tools do each piece of work exactly once, threaded or not",
  "The parallel loop and for-each run every index or element exactly once, replicate runs exactly the given number of times, the parallel maximum returns an element whose value is the largest (the initial one if none is larger), and the parallel sort yields a sorted permutation, for every range including empty ones and for both the sequential and the threaded build under every schedule.",
  ["inputs", "schedules", "configurations"], "all ranges, functions, values (ties, all below the initial value) and schedules",
  "test_optimizers uses them indirectly on one input; the threaded build of these tools is not tested for exactly-once.",
  [L + "tools/parallel.hpp"], [("loop, for_each, max, sort, replicate", L + "tools/parallel.hpp")], ["calls of the user functions, results"])

p("C25", "Concurrent work in the library is free of data races and schedule-independent",
  "Every computation the library runs in parallel (multi-output models, sparsification, restarts, population evaluation, parallel hyper-parameter optimisation, Pareto sets, the search of the next point in Ehvi) is free of data races under every schedule of its tasks and gives the same result as the sequential build, up to ties.",
  ["schedules"], "task splittings and interleavings with 2-8 threads",
  "Tests run on a sequential build or once per parallel build, without a race detector and with whatever schedule happens.",
  [L + "tools/parallel.hpp", L + "model/multi_gp.hpp", L + "model/sparsified_gp.hpp", L + "opt/parallel_repeater.hpp", L + "experimental/tools/pareto.hpp", L + "experimental/bayes_opt/ehvi.hpp"],
  [("tools::par", L + "tools/parallel.hpp"), ("mutex in _get_most_dense_point", L + "model/sparsified_gp.hpp")],
  ["ThreadSanitizer on a scheduler stand-in for TBB with seeded splitting and delays; results against the sequential build"])

p("C26", "Random tools stay in range, are reproducible, and follow their distribution",
  "Random vectors and Latin hypercube designs have the requested dimension and count, bounded ones lie in [0,1], generators of integers and reals stay within their bounds (both ends included for integers), generators built with the same non-negative seed, or re-seeded and reset with it, reproduce the same sequence, those without a seed differ, and the samples follow the documented uniform or normal distribution.",
  ["inputs", "configurations"], "all seeds, ranges, dimensions; distributional claims at a false-alarm probability below 1e-9",
  "No test draws more than a few numbers.",
  [L + "tools/random_generator.hpp"], [("RandomGenerator, random_vector*, random_lhs", L + "tools/random_generator.hpp")], ["drawn values"])

p("C27", "The Pareto set is exactly the set of non-dominated points",
  "For every list of points the Pareto tools return exactly those not dominated by another one (each at least once, none dominated), with their original indices and payload, whatever the number of objectives (two or more), ties, duplicates and order. The statistic that writes the Pareto front writes the same set.",
  ["inputs", "schedules"], "all lists of points (ties, duplicates, chains, two to six objectives), sequential and parallel",
  "No stable test covers it beyond one example.",
  [L + "experimental/tools/pareto.hpp", L + "experimental/bayes_opt/bo_multi.hpp"], [("pareto_set", L + "experimental/tools/pareto.hpp")], ["returned set against brute force"])

p("C28", "ParEGO's model observes exactly the scalarised objectives",
  "The scalarising model of ParEGO gives the single-output model underneath, for every multi-objective observation y, the augmented Chebyshev scalarisation max_j(w_j y_j) + rho sum_j(w_j y_j). The weights are non-negative, sum to one, are the same for all observations of an update, are drawn anew at each update and prefer no objective on average. The model predicts as a GP of the samples and scalarised values, and the optimiser's recorded multi-objective observations stay as evaluated.",
  ["inputs", "histories"], "all data sets, numbers of objectives, weights, add-sample histories",
  "Tests run the optimiser only.",
  [L + "experimental/model/gp_parego.hpp", L + "experimental/bayes_opt/parego.hpp"], [("_scalarize_obs", L + "experimental/model/gp_parego.hpp")], ["observations of the model"])

p("C29", "Constrained optimisation models, records and reports consistently",
  "The constrained optimiser evaluates the user's function once per iteration, separates objective and constraint outputs (a constraint output is positive when satisfied, zero otherwise), gives the objective and constraint models all pairs, optimises their hyper-parameters at the configured period, calls every statistic once per iteration, and reports as best the sample with the highest objective among those satisfying all constraints (among all if none does), together with its own observation.",
  ["histories", "configurations"], "all functions, feasibility patterns, numbers of constraints and runs",
  "One test checks one example's final value.",
  [L + "experimental/bayes_opt/cboptimizer.hpp"], [("optimize, best_sample, best_observation", L + "experimental/bayes_opt/cboptimizer.hpp")], ["calls of user function and models; best_*"])

p("C30", "IMGPO divides the most promising cells of a trisected partition",
  "Infinite-metric GP optimisation first evaluates the centre of the unit hypercube, then only centres of the left or right third (along a longest side) of a cell whose own centre it evaluated before, never a point twice, as long as cells are larger than double precision resolves. Each round follows the published algorithm: per depth, the undivided cell with the highest (aggregated) value, if higher than all shallower ones, is evaluated if it only had a predicted value, is given up if no bound among its virtual descendants reaches the next deeper candidate, and is otherwise divided if better than what the round found so far; a third is evaluated only if its bound exceeds the best value. The search records what it evaluates in order, gives all of it to the model before asking for a bound and at the end of the run, counts every evaluation, evaluates nothing after a stopping criterion held between two rounds, and reports the best evaluated sample and observation.",
  ["inputs", "histories"], "all functions, aggregators, dimensions and budgets",
  "No test runs it.",
  [L + "experimental/bayes_opt/imgpo.hpp"], [("tree search", L + "experimental/bayes_opt/imgpo.hpp")], ["every evaluated point"])

p("C31", "The sparse pseudo-input GP matches its dense formulation",
  "The likelihood, gradient and predictions of the (single-output) sparse pseudo-input GP equal the dense evaluation of the same approximation (FITC) for the same pseudo-inputs and parameters, after computing, adding samples or recomputing. The number of pseudo-inputs is the configured share of the samples, at least the configured minimum and at most all of them; they start as distinct samples, and the hyper-parameters from the range of the inputs and the mean square of the residuals. Predictions are finite with positive variance, and with the data as pseudo-inputs it is the full GP.",
  ["inputs"], "all data sets, numbers of pseudo-inputs, parameters",
  "One test checks that it approximates one function.",
  [L + "experimental/model/spgp.hpp"], [("SPGP", L + "experimental/model/spgp.hpp")], ["likelihood, gradient and query"])

p("C32", "Named template arguments and parameters are honoured in any order",
  "An optimiser (BOptimizer, CBOptimizer, IMGPO, Parego) uses exactly the model, acquisition function, inner optimiser, initialisation, statistics, stopping criteria given by name, in whatever order and number they are given, and the documented default for those not given; parameters fixed or changed at run time are read by the component they configure at their current value.",
  ["configurations", "programs"], "all orders and subsets of the named arguments; static, dynamic, vector, array and string parameters",
  "test_boptimizer instantiates a few orders and checks only that they optimise.",
  [L + "bayes_opt/bo_base.hpp", L + "bayes_opt/boptimizer.hpp", L + "tools/macros.hpp"],
  [("boost::parameter signatures", L + "bayes_opt/bo_base.hpp"), ("BO_PARAM*, BO_DYN_PARAM", L + "tools/macros.hpp")], ["types and calls of recording components"])

p("C33", "No invalid or uninitialised memory use and no undefined behaviour",
  "Every workload on documented inputs runs without invalid memory access, leaks, undefined arithmetic, dependence on uninitialised values or failed internal assertions: all models, kernels, means, acquisition functions, initialisations, optimisers, statistics, archives and whole runs, including boundary sizes (one sample, one dimension, more dimensions than samples, empty designs).",
  ["inputs", "configurations", "histories"], "boundary and random workloads over every component",
  "Tests run without sanitizers on typical sizes; such errors usually produce plausible values.",
  [L + "model/gp.hpp", L + "model/sparsified_gp.hpp", L + "bayes_opt/boptimizer.hpp", L + "experimental/model/spgp.hpp"],
  [("Eigen/STL containers", L + "")], ["AddressSanitizer, UndefinedBehaviorSanitizer, Valgrind memcheck"])

p("C34", "The CMA-ES wrapper maximises inside the bounds with the settings asked for",
  "opt::Cmaes hands the maximisation of the user's function over to CMA-ES without changing the problem: what the optimiser minimises is the negated value of the function at the very point it proposes; when bounded, every evaluated point and the result lie within the configured bounds; the dimension, the initial point and every setting (variant, elitism, restarts, population size, evaluation and iteration budgets with their documented automatic values, tolerances, target value, uncertainty handling, threads, verbosity) arrive as configured; and what is returned is the best point seen, or the final mean when the function is stochastic.",
  ["inputs", "configurations"], "all functions, dimensions, bounds, initial points and settings",
  "The test of this part is not built here, and a wrong sign of a setting still finds the optimum of an easy function.",
  [L + "opt/cmaes.hpp"], [("Cmaes::operator(), _opt_unbounded, _opt_bounded, _set_common_params", L + "opt/cmaes.hpp")], ["objective calls; settings CMA-ES receives; result"])

p("C35", "Every EHVI scheme computes the expected hypervolume improvement",
  "For every population of mutually non-dominated points above the reference, every reference and every independent Gaussian prediction, ehvi2d and the exact three-objective schemes (2-, 5-, 8-term, slice-update, and their several-candidates versions) return the expected hypervolume improvement of the predicted point, agree with each other, do not change the population, and the Monte Carlo scheme estimates the same value. The hypervolume routines under them (hvol3d, calculateslice, calculateS) return the volume dominated within the given box.",
  ["inputs"], "all populations (empty, one point, ties, many points), scales, references, means and deviations",
  "No test covers src/ehvi.",
  ["src/ehvi/ehvi_calculations.cc", "src/ehvi/ehvi_sliceupdate.cc", "src/ehvi/ehvi_multi.cc", "src/ehvi/ehvi_hvol.cc", "src/ehvi/ehvi_montecarlo.cc"],
  [("ehvi2d, ehvi3d_*", "src/ehvi/ehvi_calculations.cc"), ("hvol3d, calculateslice", "src/ehvi/ehvi_hvol.cc")], ["return values of every scheme; population afterwards"])

p("C36", "Hypervolumes and filtered fronts are exact, and the statistic records them",
  "CalculateHypervolume returns the volume dominated by the first points of a front over the origin for any number of objectives from two, FilterNondominatedSet leaves exactly the non-dominated points in front and loses none, and the HyperVolume statistic writes, at every iteration, the hypervolume of the observations so far above the configured reference; observations outside it count for nothing.",
  ["inputs", "histories"], "all fronts (duplicates, ties, zeros, chains), numbers of objectives and histories of observations",
  "No test covers src/hv or the statistic.",
  ["src/hv/hypervol.c", L + "experimental/stat/hyper_volume.hpp"], [("CalculateHypervolume, FilterNondominatedSet", "src/hv/hypervol.c"), ("HyperVolume", L + "experimental/stat/hyper_volume.hpp")], ["return values; hypervolume.dat"])

p("C37", "The multi-objective optimisers choose by what their models and criterion say",
  "In every run of Ehvi and Nsbo each objective has its own model, which has seen exactly all samples and that objective's values; the EHVI acquisition value of a point is the expected hypervolume improvement over the non-dominated observations above the reference, with the models' means (aggregated when the user gives an aggregator) and standard deviations; Ehvi maximises it from every non-dominated sample and evaluates the best proposal; Nsbo evaluates a point of the model's front among the non-dominated in uncertainty; pareto_data and pareto_model are the fronts of the data and of the model's evaluations; the user's function is called once per iteration, and the Pareto statistics write what is there.",
  ["histories", "configurations"], "all functions, references, numbers of samples and iterations, inner optimisers",
  "No test covers these optimisers.",
  [L + "experimental/bayes_opt/bo_multi.hpp", L + "experimental/bayes_opt/ehvi.hpp", L + "experimental/bayes_opt/nsbo.hpp", L + "experimental/acqui/ehvi.hpp"],
  [("optimize", L + "experimental/bayes_opt/ehvi.hpp"), ("optimize", L + "experimental/bayes_opt/nsbo.hpp")], ["calls of the user function and the inner optimiser; fronts; files"])

p("C38", "The EHVI command-line program answers what its README says",
  "For every population, reference and list of candidates, given as a file or in the dialogue, the EHVI program drops the points that another point dominates (asking for others in the dialogue), and prints, in the order of the requested schemes and candidates (slice-update by default), the expected hypervolume improvement over the remaining ones on standard output, one per line with ten digits; schemes that do not exist or cannot handle several candidates print no answer.",
  ["inputs"], "all files and dialogues", "No test runs it.",
  ["src/ehvi/main.cc"], [("main", "src/ehvi/main.cc")], ["standard output"])

p("C39", "A created experiment is a complete program for the problem asked for",
  "Creating an experiment with any of the documented options (numbers of inputs and outputs, noise, statistics, numbers of initial samples and iterations) gives a wscript and a program that compiles against the library; run with the user's function filled in, it evaluates as many points of the given dimension inside the unit cube as asked for, uses the given noise, writes statistics unless they are disabled and prints the best point it evaluated. An experiment that exists is left alone. The listings of default parameters and of an experiment's parameters name every one with the value it is compiled with, and each variant of an experiment is one program with its own defines and documented name.",
  ["configurations"], "all options, names, build configurations and variants",
  "No test covers waf_tools.",
  ["waf_tools/limbo.py", "waf_tools/params.py", "waf_tools/exp_template.cpp", "waf_tools/exp_template.wscript"],
  [("create_exp, create_variants, output_params, write_default_params", "waf_tools/limbo.py"), ("extract_params", "waf_tools/params.py")], ["generated files; evaluations, values and output of the compiled program; calls to the build system"])

p("C40", "Every replicate of an experiment runs once, in its place, with its arguments",
  "For every description of experiments, running it locally (together or one after another) or submitting it to Torque or OAR runs every replicate of every program of every entry exactly once, as its own copy in its own directory, with the arguments of its entry, its parameter file beside it, and its output kept there; serial runs never overlap, a failing replicate stops no other one; every submitted job carries the name, wall time, cores and address of its entry and the library path of the submission.",
  ["configurations", "schedules"], "all descriptions",
  "No test covers waf_tools.",
  ["waf_tools/limbo.py"], [("run_local, qsub, oar", "waf_tools/limbo.py")], ["programs, directories, arguments, output of every process; submissions"])

NA = {}
