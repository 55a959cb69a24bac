"""What each check builds, runs, requires and claims."""
BOOST = ["-lboost_filesystem", "-lboost_system"]
NLOPT = ["-lnlopt_cxx", "-lnlopt"]
CHECKS = {}


def T(name, src, defs=(), san="lite", libs=(), **kw):
    return dict(name=name, src=src, defs=list(defs), san=san, libs=list(libs), **kw)


def R(target, mode="", quick=(1, 20), thorough=None, **kw):
    return dict(target=target, mode=mode, quick=quick, thorough=thorough, **kw)


def C(pid, targets, runs, rule, technique, require, **kw):
    CHECKS[pid] = dict(targets=targets, runs=runs, rule=rule, technique=technique, require=require, **kw)


DBL = "floating-point agreement is judged to a forward-error bound of the computation; cases whose condition number makes that bound useless are counted as skipped_ill_conditioned and not judged"

# ---- Gaussian processes
GP6 = [T("gp%d" % i, "c01_gp.cpp", ["COMBO=%d" % i], libs=BOOST) for i in range(6)]
C("C01", GP6, [R("gp%d" % i, "batch", (2, 2500), (8, 20000)) for i in range(6)],
  "random data sets (random, clustered, gridded, duplicated, far points; 0-40 samples, 1-6 inputs, 1-3 outputs), kernels, means and parameters; one counts as distinct by its data, parameters and kernel/mean, as non-trivial by at least one judged query",
  "runtime monitoring: every answer of the real model compared online with an independent extended-precision GP; ASan/UBSan",
  {"posterior": 5000, "prior": 500, "informative_query": 30000}, assumptions=[DBL])
C("C02", GP6, [R("gp%d" % i, "history", (2, 800), (8, 6000)) for i in range(6)],
  "random operation histories (compute, add, change parameters and recompute, save/load, copy, redimension, likelihood queries in between); one step is distinct by the data and parameters after it",
  "runtime monitoring: a reference model replays each history and is compared with the real one after every operation; ASan/UBSan",
  {"steps": 50000, "op:add": 10000, "op:save-load-other": 1500, "op:copy": 2500, "op:recompute": 5000}, assumptions=[DBL])
C("C03", GP6, [R("gp%d" % i, "variance", (2, 500), (8, 2500)) for i in range(6)],
  "random, degenerate and ill-conditioned data sets (also numerically singular ones: many close samples, no noise) grown sample by sample; distinct by data set",
  "runtime monitoring: bound and metamorphic monitors (order, values, shift/scale) on every variance the model returns; ASan/UBSan",
  {"variance_shrank": 100000, "metamorphic": 8000, "variance_at_the_floor": 30})
LIK4 = [T("lik%d" % i, "c04_lik.cpp", ["COMBO=%d" % i], libs=BOOST) for i in range(4)]
C("C04", LIK4, [R("lik%d" % i, "value", (2, 1200), (8, 8000)) for i in range(4)],
  "random histories with a likelihood or leave-one-out query after each step; distinct by data and parameters",
  "runtime monitoring: scores compared with extended-precision definitions (leave-one-out also by really leaving one out); ASan/UBSan",
  {"lik_values": 20000, "loo_values": 20000, "loo_brute": 10000}, assumptions=[DBL])
C("C05", LIK4, [R("lik%d" % i, "grad", (2, 600), (8, 4000)) for i in range(4)],
  "random histories with a gradient query after each step; distinct by data and parameters",
  "runtime monitoring: gradients compared component-wise with extended-precision differences of the reference scores; ASan/UBSan",
  {"grad_significant:grad:kernel-lik": 8000, "grad_significant:grad:kernel-loo": 8000, "grad_significant:grad:mean-lik": 8000}, assumptions=[DBL])
C("C06", [T("kern", "c06_fun.cpp", ["KERNELS"])], [R("kern", "kernel", (8, 3000), (8, 20000))],
  "random pairs of points, dimensions 1-8, parameters, ARD ranks, noise settings; distinct by all of them",
  "runtime monitoring: value, symmetry, definiteness, noise and gradient monitors on every kernel call against the documented formula; ASan/UBSan",
  {"correlated_pair": 300000, "gradient_significant": 1000000})
C("C07", [T("mean", "c06_fun.cpp", ["MEANS"])], [R("mean", "mean", (8, 5000), (8, 40000))],
  "random outputs, parameters, nested means and model states; distinct by all of them",
  "runtime monitoring: values and gradients of every mean function against its definition; ASan/UBSan",
  {"mean_values": 60000, "mean_gradient_components": 1000000})
C("C08", [T("hp%d%s" % (i, d.lower()), "c08_hp.cpp", ["PART=%d" % i] + [d] * bool(d)) for i in range(2) for d in ("", "REAL")],
  [R("hp%d%s" % (i, d.lower()), "", (2, 600), (8, 3000)) for i in range(2) for d in ("", "REAL")],
  "random data sets, histories and optimiser behaviours (scripted optimisers probing any parameters, and the default Rprop); distinct by data and installed parameters",
  "runtime monitoring: a recording optimiser judges start, bounds, every objective value and gradient it is handed; the model is judged after it; ASan/UBSan",
  {"objective_values": 10000, "objective_gradients": 20000, "rprop_runs": 2000, "rprop_improved": 1500}, assumptions=[DBL])
C("C09", [T("multi%d" % i, "c09_multi.cpp", ["COMBO=%d" % i], libs=BOOST) for i in range(4)], [R("multi%d" % i, "", (3, 600), (8, 4000)) for i in range(4)],
  "random histories of a MultiGP, 1-4 outputs; a step is distinct by data and parameters after it",
  "runtime monitoring: after each operation the model is compared with independent extended-precision GPs on each output's residuals; ASan/UBSan",
  {"steps": 20000, "op:recompute-late": 1500, "op:save-load": 1500, "multi_optimisations": 1500, "samples dropped": 400}, assumptions=[DBL])
C("C10", [T("sparse", "c10_sparse.cpp")], [R("sparse", "", (8, 1500), (8, 12000))],
  "random samples, budgets, dimensions, computed at once or grown; distinct by the kept set",
  "runtime monitoring: an online checker replays the greedy removal (ties accepted), the pairing and the prediction of the kept samples; ASan/UBSan",
  {"removals": 50000, "within_budget": 20000})

# ---- inner optimisers
NLT = [T("nlopt%d" % i, "c11_opt.cpp", ["USE_NLOPT", "NLSET=%d" % i], libs=NLOPT) for i in (0, 1)]
OPT = [T("opt", "c11_opt.cpp")]
FUNS = "random objective functions (smooth, multi-modal, flat, steep, discontinuous, negative), starting points in and out of the bounds, dimensions and settings; distinct by function, start and optimiser"
C("C11", OPT + NLT,
  [R("opt", "bounds", (4, 9000), (8, 60000)), R("nlopt0", "bounds", (2, 6000), (8, 30000)), R("nlopt1", "bounds", (2, 6000), (8, 30000))], FUNS,
  "runtime monitoring: the objective function itself is the monitor of every evaluated point; ASan/UBSan",
  {"evaluated points": 5000000, "start out of bounds": 10000, "runs that touched a bound": 15000})
C("C12", OPT + NLT,
  [R("opt", "best", (4, 8000), (8, 40000)), R("nlopt0", "best", (2, 6000), (8, 30000)), R("nlopt1", "best", (2, 6000), (8, 30000))], FUNS,
  "runtime monitoring: trace of every evaluation, offline check of best-of, of the grid and of the restarts; ASan/UBSan",
  {"run:grid": 5000, "run:rprop": 5000, "run:repeat rprop": 5000, "runs with only negative values": 10000})
C("C13", OPT, [R("opt", "rule", (8, 10000), (16, 60000))], FUNS,
  "runtime monitoring: online checker of the gradient-request trace against the published update rule; ASan/UBSan",
  {"steps": 1000000, "tolerance met:adam": 2000, "tolerance met:gradient_ascent": 2000, "tolerance met:rprop": 2000})


def rates(events):
    """success rates of the NLOpt algorithms that do not promise it on every run"""
    for k, n in events.items():
        if k.startswith("rate+:"):
            bad = events.get("rate-:" + k[6:], 0)
            if n + bad >= 30 and n < (0.3 if "ISRES" in k else 0.5) * (n + bad):
                yield "rate:" + k[6:].replace(" ", "-"), "%s in only %d of %d runs" % (k[6:], n, n + bad)
    for k, bad in events.items():
        if k.startswith("rate-:") and bad >= 30 and "rate+:" + k[6:] not in events:
            yield "rate:" + k[6:].replace(" ", "-"), "%s in none of %d runs" % (k[6:], bad)


C("C14", [T("nl%d" % i, "c14_nlopt.cpp", ["USE_NLOPT", "NLSET=%d" % i], libs=NLOPT) for i in (0, 1)],
  [R("nl0", "", (4, 2400), (8, 12000)), R("nl1", "", (4, 2000), (8, 10000))],
  "random concave functions (interior and boundary optima), algorithms, budgets, tolerances and constraints; distinct by function and algorithm",
  "runtime monitoring: objective and constraint functions record every call; results against closed-form optima and against NLopt driven directly; ASan/UBSan",
  {"optima compared": 3000, "optima on the boundary": 1500, "constrained runs": 600, "evaluations compared with NLopt alone": 60000,
   "reused in another dimension": 150, "reused with other bounds": 100}, post=rates,
  assumptions=["COBYLA, BOBYQA, ISRES and the like do not promise to find the optimum on every run: a rate over all runs is judged instead"])
C("C15", OPT, [R("opt", "compose", (8, 8000), (16, 60000))], "random chains and repeaters of recording optimisers; distinct by composition and start",
  "runtime monitoring: recording inner optimisers, trace checked for order, starts, function, bounds and result; ASan/UBSan",
  {"chains": 20000, "repeaters": 5000})

# ---- optimisation loop
BOF = [T("bo", "c17_bo.cpp", libs=BOOST)]
BOR = [T("real%d" % i, "c17_real.cpp", ["COMBO=%d" % i], libs=BOOST) for i in (0, 1)]


def init_levels(events):
    """every level of the random grid is drawn; bounds inclusive"""
    n = [events.get("random grid 5: level %d" % k, 0) for k in range(6)]
    if sum(n) >= 600 and min(n) < sum(n) / 12:
        yield "random-grid-levels", "levels of a grid with 5 bins were drawn %s times" % n


BOC = "random sequences of runs, continuations, resets, budgets, periods, dimensions, aggregators (and faults); distinct by the configuration and the history so far"
BOT = "runtime monitoring: recording model, acquisition, maximiser, statistics, criteria and user function; online trace checker of the loop's protocol; ASan/UBSan"
C("C16", BOF, [R("bo", "init", (8, 1600), (16, 8000))], "random designs, dimensions, numbers of samples and bins; distinct by configuration and points",
  "runtime monitoring: the user function and evaluator record every point of the design; design checked offline; ASan/UBSan",
  {"designs:grid": 1000, "designs:lhs": 2000, "designs:none": 1000, "designs:random": 1000, "designs:random grid": 1000}, post=init_levels)
C("C17", BOF + BOR, [R("bo", "loop", (6, 5000), (16, 20000)), R("real0", "", (2, 400), (8, 2000)), R("real1", "", (2, 400), (8, 2000))], BOC, BOT,
  {"iterations checked": 200000, "continued runs": 20000, "runs with reset": 20000, "hyper-parameter optimisations": 50000, "real evaluations": 10000})
C("C18", BOF, [R("bo", "fault", (8, 4000), (16, 20000))], BOC,
  "runtime monitoring with fault injection (exceptions, NaN, infinities at any evaluation); state checked after every fault and continuation; ASan/UBSan",
  {"runs ended by a fault": 20000, "non-finite values rejected": 5000, "iterations checked": 100000})
C("C19", BOF, [R("bo", "best", (8, 4000), (16, 20000))], BOC, BOT, {"unique best": 200000, "ties for the best": 50000})
C("C20", BOF, [R("bo", "stop", (8, 5000), (16, 20000))], BOC, BOT,
  {"stopped by iterations": 20000, "stopped by predicted value": 10000, "stopped before the first iteration": 10000, "stopped by user criterion": 2000})
C("C21", [T("acqui", "c21_acqui.cpp", libs=BOOST)], [R("acqui", "fake", (4, 8000), (8, 60000)), R("acqui", "real", (4, 1500), (8, 10000))],
  "random models (scripted and real), points, iterations, parameters, aggregators, growing models; distinct by value and inputs",
  "runtime monitoring: every acquisition value compared with the documented formula of the model's own answers; ASan/UBSan",
  {"EI positive": 50000, "EI at zero variance": 20000, "GP_UCB": 50000, "UCB_IMGPO": 100000, "ECI with constraint data": 50000})
C("C22", [T("stat%d" % i, "c22_stat.cpp", ["COMBO=%d" % i], libs=BOOST) for i in (0, 1)], [R("stat%d" % i, "", (4, 500), (8, 2500)) for i in (0, 1)],
  "random runs with every statistic; distinct by iteration and recorded state",
  "runtime monitoring: offline check of every written file against a recording statistic of the same run; ASan/UBSan",
  {"line of samples.dat": 10000, "grid points": 100000, "run with statistics disabled": 200})
C("C23", [T("arch", "c23_arch.cpp", libs=BOOST)], [R("arch", "", (8, 800), (8, 6000))],
  "random objects (shapes, extreme values), names, overwrites and orders; distinct by content",
  "runtime monitoring: model of the archive's content, every load compared; ASan/UBSan",
  {"column loaded": 20000, "row loaded": 10000, "list loaded": 20000, "overwritten name": 10000, "long_list": 40, "empty_matrix": 300})

# ---- tools
PARS = [T("par_seq", "c24_par.cpp"), T("par_tbb", "c24_par.cpp", ["USE_TBB", "USE_TBB_ONEAPI"], libs=["-ltbb"]),
        T("par_shim", "c24_par.cpp", ["USE_TBB", "SHIM"], inc=["shim"], san="tsan")]
C("C24", PARS, [R("par_seq", "", (2, 4000), (4, 40000)), R("par_tbb", "", (3, 2500), (4, 40000)), R("par_shim", "", (4, 400), (8, 4000), tsan=True)],
  "random ranges, values, functions; sequential, TBB, and a TBB stand-in with seeded splitting, delays and thread counts; distinct by case",
  "runtime monitoring: exactly-once counters and result oracles, with ThreadSanitizer over a seeded scheduler stand-in for TBB",
  {"loop indices": 1000000, "cases run by several threads, tbb": 1000, "cases run by several threads, shim": 500, "max: initial value kept": 2000})
EHVI = ["ehvi/" + x + ".cc" for x in ("ehvi_calculations", "ehvi_montecarlo", "ehvi_sliceupdate", "ehvi_hvol", "ehvi_multi", "helper")]
C("C25", [T("race%d" % i, "c25_race.cpp", ["PART=%d" % i, "USE_TBB"], san="tsan", inc=["shim"], libs=BOOST) for i in (0, 1)]
  + [T("race2", "c25_race.cpp", ["PART=2", "USE_TBB", "USE_NLOPT"], san="tsan", inc=["shim"], extra=EHVI, libs=NLOPT + BOOST)],
  [R("race%d" % i, "", (4, 1000), (8, 6000), tsan=True) for i in (0, 1)] + [R("race2", "", (4, 200), (8, 1500), tsan=True)],
  "random data and schedules (task splitting, thread counts, injected delays by seed); distinct by data and schedule seed",
  "ThreadSanitizer over a seeded scheduler stand-in for TBB with injected delays; results against a sequential recomputation",
  {"injected delays": 50000, "parallel calls": 50000, "threads spawned": 50000, "parallel sparsification": 600, "concurrent evaluations of EI": 4000,
   "multi-objective runs with NLOpt": 150, "multi-objective runs with a user's optimiser": 150, "multi-objective runs with GridSearch": 150},
  assumptions=["TBB itself is replaced by a stand-in (harness/shim) so that ThreadSanitizer sees all synchronisation"])
C("C26", [T("rand", "c26_rand.cpp")], [R("rand", "", (8, 300), (8, 4000))],
  "random seeds, ranges, dimensions; distinct by seed and range",
  "runtime monitoring: range, stratum and reproducibility monitors on every draw; Kolmogorov-Smirnov and moment tests at a false-alarm probability below 1e-9; ASan/UBSan",
  {"Latin hypercubes": 50000, "distribution tests": 3000, "random vectors": 500000})
PT = [T("pareto", "c27_pareto.cpp", libs=BOOST), T("pareto_tbb", "c27_pareto.cpp", ["USE_TBB", "USE_TBB_ONEAPI"], libs=BOOST + ["-ltbb"])]
C("C27", PT, [R("pareto", "", (5, 3000), (8, 20000)), R("pareto_tbb", "", (3, 1600), (8, 10000))],
  "random point lists (chains, anti-chains, duplicates, ties, extremes), 2-6 objectives; distinct by list",
  "runtime monitoring: returned set compared with brute-force dominance, sequential and TBB builds; files of the Pareto statistic read back; ASan/UBSan",
  {"Pareto sets": 8000, "Pareto front files": 2500})

# ---- experimental parts
C("C28", [T("parego", "c28_parego.cpp", libs=BOOST)], [R("parego", "", (8, 6000), (8, 40000))],
  "random multi-objective data with probe observations that reveal the weights; distinct by data and weights",
  "runtime monitoring: the weights are recovered from what the model observes, and every scalarised value, prediction and raw record is judged; ASan/UBSan",
  {"weights_recovered": 30000, "bo_weights_recovered": 30000, "symmetry_checked": 10})
C("C29", [T("cbo", "c29_cbo.cpp", libs=BOOST)], [R("cbo", "", (8, 3000), (8, 20000))], BOC, BOT,
  {"best:feasible": 50000, "best:none_feasible": 20000, "iterations": 100000, "constraints 0": 5000})
C("C30", [T("imgpo", "c30_imgpo.cpp", libs=BOOST)], [R("imgpo", "", (8, 2400), (8, 16000))],
  "random functions, budgets, dimensions, with the real bound or a scripted one that drives the search into every branch; distinct by evaluated point",
  "runtime monitoring: every evaluated point decoded into its cell; partition, parent, once-only, model-data and stop monitors; with bounds that decide every step, each round compared with what the algorithm must evaluate; ASan/UBSan",
  {"bound_asked": 500000, "real_runs": 3000, "fake_runs": 6000, "round followed": 15000, "evaluation followed": 40000, "division followed": 20000, "cell given up by what lies some levels below": 800, "bounded between its own value and the deeper candidate's": 400, "promising cell evaluated at last": 3000, "cell bounded by less than the best not evaluated": 3000, "searches followed to the end": 1000},
  assumptions=["cells smaller than 3^-18 are beyond what double precision decides and end the analysis of a run"])
C("C31", [T("spgp", "c31_spgp.cpp", libs=NLOPT + BOOST)], [R("spgp", "", (8, 700), (8, 6000))],
  "random data, pseudo-inputs, parameters and histories, with scripted and default optimisers; distinct by data and parameters",
  "runtime monitoring: likelihood, gradient and prediction against a dense extended-precision evaluation of the same approximation; ASan/UBSan",
  {"likelihoods": 5000, "gradient_components": 60000, "predictions": 20000, "exact_gp": 300, "starts read off the data": 3000, "default_optimisations": 2000}, assumptions=[DBL])
C("C32", [T("args%d" % i, "c32_args.cpp", ["PART=%d" % i], flags=["-O0"], libs=BOOST) for i in range(4)] +
  [T("argsn", "c32_args.cpp", ["PART=0", "USE_NLOPT_"], flags=["-O0"], libs=BOOST + NLOPT),
   T("argsb", "c32_args.cpp", ["PART=0", "USE_NLOPT_", "USE_LIBCMAES"], inc=["cmaes_shim"], flags=["-O0"], libs=BOOST + NLOPT),
   T("argsc", "c32_args.cpp", ["PART=3", "USE_LIBCMAES"], inc=["cmaes_shim"], flags=["-O0"], libs=BOOST)],
  [R(n, "", (1, 200), (4, 1000)) for n in ("args0", "args1", "args2", "args3", "argsn", "argsb", "argsc")],
  "all ordered selections of up to three named arguments, all orders of six that begin with modelfun or acquiopt, rotations of the longer lists; random dynamic parameters; distinct by argument list or parameter values",
  "runtime monitoring: instantiated optimisers report the components they use, recording components count their use in runs, parameters are read back through the components; ASan/UBSan",
  {"argument_lists": 2000, "runs": 2500, "dynamic_runs": 2500})
VG = ["valgrind", "-q", "--error-exitcode=88", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite", "--num-callers=25"]
C("C33", [T("mem%d" % i, "c33_mem.cpp", ["PART=%d" % i], san="asan", libs=BOOST + NLOPT) for i in range(4)] +
  [T("vg%d" % i, "c33_mem.cpp", ["PART=%d" % i], san="plain", libs=BOOST + NLOPT) for i in range(4)],
  [R("mem%d" % i, "", (2, 2500), (8, 12000)) for i in range(4)] + [R("vg%d" % i, "", (4, 200), (8, 1200), prefix=VG) for i in range(4)],
  "random operation sequences and runs over every component, at boundary and random sizes; distinct by component, sizes and operations",
  "full AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer builds, and Valgrind memcheck with definedness checks on every result",
  {"results_checked": 200000, "sparsified": 500, "spgp": 500, "imgpo": 300, "constrained": 300})

C("C34", [T("cmaes", "c34_cmaes.cpp", ["USE_LIBCMAES"], san="asan", inc=["cmaes_shim"], libs=BOOST)], [R("cmaes", "", (8, 1500), (8, 15000))],
  "random functions, dimensions, bounds, initial points, settings and progress functions, free and bounded, optimisers used again, whole runs; distinct by result and initial point",
  "runtime monitoring: a recording stand-in for libcmaes checks every setting, bound and value it is given, and the result against what it saw; ASan/UBSan",
  {"evaluated points": 150000, "settings received": 150000, "bounded runs": 4000, "free runs": 4000, "progress functions": 3000, "result folded back into the bounds": 3000, "mean returned": 2000, "whole runs": 700, "default settings": 700},
  assumptions=["libcmaes is replaced by a stand-in (harness/cmaes_shim) with the documented interface and the published piecewise quadratic bound transformation; what the real CMA-ES does with its settings is out of scope"])

# ---- multi-objective parts outside limbo/: expected hypervolume improvement, hypervolumes
C("C35", [T("ehvi", "c35_ehvi.cpp", san="asan", extra=EHVI)], [R("ehvi", "", (8, 1200), (8, 12000))],
  "random non-dominated populations (0-40 points, ties, clusters, scales over many orders of magnitude), references, predictive means and deviations; distinct by population and prediction",
  "runtime monitoring: every scheme compared with an extended-precision sum over the grid cells no point dominates, volumes with a sweep, Monte Carlo with its own error bound; ASan/UBSan/LSan",
  {"ehvi2d": 8000, "2term": 3500, "5term": 3500, "8term": 3500, "sliceupdate": 3500, "5term, several": 3000, "sliceupdate, several": 3000, "hvol3d": 10000, "calculateslice": 30000, "Monte Carlo": 20, "significant value": 30000}, assumptions=[DBL])
C("C36", [T("hv", "c36_hv.cpp", san="asan", extra=["hv/hypervol.c"], libs=BOOST)], [R("hv", "", (8, 2500), (8, 20000))],
  "random fronts (2-7 objectives, chains, anti-chains, duplicates, ties, zeros), random histories of observations for the statistic; distinct by front",
  "runtime monitoring: hypervolume and filtered front compared with inclusion-exclusion/sweep over the points, every line of hypervolume.dat read back and recomputed; ASan/UBSan",
  {"filtered fronts": 10000, "hypervolumes": 10000, "line of hypervolume.dat": 5000, "observation below the reference": 1000, "front of several points": 3000})
C("C37", [T("multi", "c37_multi.cpp", ["USE_SFERES"], san="lite", inc=["sferes_shim"], extra=EHVI, libs=BOOST)], [R("multi", "", (8, 1000), (8, 8000))],
  "random problems, references, model kinds (a recording one and GPs) and scripted or real inner optimisers; distinct by evaluated points",
  "runtime monitoring: acquisition values against the definition of the expected hypervolume improvement, chosen points against recorded proposals, fronts against brute-force dominance, files read back; ASan/UBSan",
  {"acquisition values": 20000, "criterion with an aggregator": 2000, "iterations of Ehvi": 3000, "iterations of Nsbo": 1000, "model front values": 10000, "choice among the most uncertain": 500, "Pareto benchmarks": 300},
  assumptions=["sferes2 is replaced by a stand-in (harness/sferes_shim) that evaluates random points with the real fitness class and returns their non-dominated set"])
C("C38", [T("cli", "c38_cli.cpp", san="lite", extra=EHVI)], [R("cli", "", (8, 1500), (8, 15000))],
  "random populations with and without dominated or repeated points, references, one or several candidates, written as files with any whitespace and as dialogues; random lists of schemes; distinct by input",
  "runtime monitoring: the program's main() run in process on generated inputs, its standard output parsed and compared with the extended-precision expected hypervolume improvement of the non-dominated points; ASan/UBSan",
  {"2term": 600, "5term": 600, "8term": 600, "sliceupdate": 600, "default scheme": 300, "default scheme, several": 1000, "several candidates": 4000, "dialogue": 3000, "dialogue with dominated points": 200, "file with dominated points": 2000, "scheme that is not available": 1000, "Monte Carlo": 10, "significant value": 8000}, assumptions=[DBL])

# ---- the experiment framework (waf_tools)
C("C39", [T("exp", "c39_exp.py", san="asan")], [R("exp", "create", (8, 6), (8, 40)), R("exp", "listing", (3, 1), (3, 9)), R("exp", "variants", (1, 5), (2, 50))],
  "random command-line options, names and build configurations for new experiments; all configurations for the listing; random variants; distinct by options, listing order or variants",
  "runtime monitoring: experiments are created by the real tool, compiled with ASan/UBSan and run, with a recorder in the place of the user's code; listings compared with the values of the compiled library",
  {"programs run": 40, "options honoured": 220, "runs to the end": 8, "listed values of an experiment": 500, "listed defaults": 150, "variants": 1000, "experiment that exists kept": 40})
C("C40", [T("jobs", "c40_jobs.py", san="asan")], [R("jobs", m, (2, 60), (4, 600)) for m in ("local", "local_serial", "qsub", "oar")],
  "random descriptions of experiments (entries, programs, replicates, arguments, cores, directories that exist or are shared), run locally, serially, or submitted; distinct by description",
  "runtime monitoring: recording programs in the place of experiments, qsub, oarsub and mpirun report what ran, where, with what arguments and when; submitted job scripts are executed",
  {"replicates": 3000, "job scripts": 1500, "entries with arguments": 200, "files whose entries differ in arguments": 60, "replicates at the same time": 60, "MPI jobs": 150, "parameter files kept": 1000})
