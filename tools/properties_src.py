"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

    python3 tools/properties_src.py        (run in /verif)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/mfpml/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=(),
         note=""):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": quant}, why_tests_cant=why,
        anchors={"files": [S + f for f in files],
                 "state": [dict(name=n, meaning=m, where=S + w)
                           for n, m, w in state],
                 "mechanism": [dict(name=n, where=S + w) for n, w in mech],
                 "observe_at": observe, "hook_needed": None},
        _note=note))


SF = "design_of_experiment/sf_samplers.py"
MF = "design_of_experiment/mf_samplers.py"
FN = "problems/functions.py"
SFF = "problems/sf_functions.py"
SFC = "problems/sf_cons_functions.py"
MFF = "problems/mf_functions.py"
GP = "models/gaussian_process.py"
MFGP = "models/mf_gaussian_process.py"
HK = "models/hierarchical_kriging.py"
CK = "models/co_kriging.py"
SK = "models/scale_kriging.py"
KER = "models/kernels.py"
BAS = "models/basis_functions.py"
EA = "optimization/evolutionary_algorithms.py"
SFA = "optimization/sf_uncons_acqusitions.py"
SCA = "optimization/sf_cons_acqusitions.py"
MFA = "optimization/mf_acqusitions.py"
SBO = "optimization/sf_uncons_bo.py"
CBO = "optimization/sf_cons_bo.py"
MBO = "optimization/mf_uncons_bo.py"
VIS = "visualization/samplers_visualization.py"
DAT = "core/data.py"

# ------------------------------------------------------------------ sampling
prop("P01", "Samples have the requested shape and lie inside the design space",
     "Every sampler returns, for any design space and any number of samples, an array with exactly the requested number of rows and one column per dimension, all entries finite and within the bounds of that dimension; a multi-fidelity sampler returns one such array per fidelity, each of its requested size and inside the design space of its own fidelity, and the fixed-number sampler repeats the design space in every row. The samples the sampler object keeps are the ones it returned.",
     ["inputs", "configurations"],
     "All samplers (random, Latin hypercube, Sobol, fixed number; multi-fidelity Latin hypercube and Sobol, nested or not), all valid design spaces (negative, tiny, huge, integer, list or array, per-fidelity or shared), all sample counts, skips, seeds and numbers of fidelities.",
     "The tests draw a handful of designs on one two-dimensional space with fixed sizes and seeds; the guarantee is over every space, size, seed and number of fidelities.",
     [SF, MF],
     [("scale_samples / lb / ub", SF), ("get_samples, transfer_design_space_list", MF)],
     ["return value of get_samples", "samples / data attribute"],
     [("design_space", "bounds used for scaling", SF), ("data", "samples per fidelity", MF)])
prop("P02", "Latin hypercube samples are stratified in every dimension",
     "When n points are drawn by a Latin hypercube sampler (single-fidelity, or each independently drawn fidelity of a multi-fidelity one), splitting each dimension's range into n equal intervals puts exactly one point in each interval. Distinct fidelities of an un-nested multi-fidelity design are drawn independently rather than being copies of each other.",
     ["inputs", "configurations"],
     "All design spaces, dimensions, sample counts, seeds and fidelities.",
     "Tests compare a few samples to stored numbers or shapes only; stratification is a relation over all points for every n, d and seed.",
     [SF, MF], [("LatinHyperCube.get_samples", SF), ("MFLatinHyperCube._get_non_nested_samples", MF)],
     ["return value of get_samples"])
prop("P03", "Sobol samplers return the requested stretch of one low-discrepancy sequence",
     "For a fixed seed, dimension and skip, the n points of a Sobol sampler are the first n of any longer draw, skipping k points gives the sequence shifted by k, changing the design space only rescales the same unit points, and every aligned block of 2^m consecutive points puts exactly one point in each of the 2^m equal intervals of every dimension. This holds for any n, not only small ones or powers of two.",
     ["inputs", "configurations"],
     "All sample counts, skips, seeds, dimensions and design spaces, single- and multi-fidelity.",
     "Tests draw a couple of tiny Sobol designs with one skip and compare shapes or stored values.",
     [SF, MF], [("SobolSequence.get_samples (reset, fast_forward, random)", SF), ("MFSobolSequence._get_non_nested_samples", MF)],
     ["return value of get_samples"], [("num_skip", "points dropped from the start of the sequence", SF)])
prop("P04", "Nested multi-fidelity designs are nested, sized and without repeats",
     "In a nested multi-fidelity design every point of a fidelity is, exactly, a point of each lower fidelity, no point is used twice within a fidelity, and every fidelity has its requested size. A request in which a higher fidelity has more samples than a lower one is rejected and produces no design.",
     ["inputs", "configurations"],
     "All numbers of fidelities (two and more), monotone size lists, samplers, spaces and seeds; all non-monotone size lists for the rejection.",
     "Tests check one two-fidelity nested design; nesting must hold along the whole chain of fidelities and for every size list.",
     [MF], [("_get_nested_samples", MF), ("_mf_samples_rules", MF)], ["return value of get_samples"])
prop("P05", "Sampling depends only on the seed and the request, not on history",
     "Two draws with the same seed and the same request return identical samples, whatever was drawn before, whichever sampler object is used and whatever state the process-wide random generator is in. Different seeds give different random or Latin hypercube designs.",
     ["histories", "inputs"],
     "All sequences of draws over several sampler objects of every kind, interleaved with changes of the global random state, with all seeds.",
     "Tests call each sampler once or twice with the default seed; dependence on earlier calls or on the global generator only shows over histories.",
     [SF, MF], [("seed handling in get_samples", SF), ("seed handling in get_samples and nested selection", MF)], ["return value of get_samples"],
     [("seed", "seed of the current draw", MF)])
prop("P06", "Saved data round-trips unchanged",
     "Data saved by a single- or multi-fidelity sampler is read back as exactly the samples of its most recent draw, under the requested file name. The step results an evolutionary optimizer saves contain the populations and responses evaluated so far, identical to those of the run.",
     ["inputs", "histories"],
     "All samplers, draws, file names and sequences of draws and saves; all optimizer runs that save steps.",
     "Tests never read a saved file back, let alone after several draws.",
     [SF, MF, EA], [("save_data", SF), ("save_data", MF), ("_save_results", EA)], ["the written pickle files"])
# ------------------------------------------------------------------ problems
prop("P07", "Test problems are finite row-wise functions of their input",
     "Every test problem (objective, each fidelity, constraints) maps an n-by-d array of points of its domain, boundary included, to an n-by-1 array of finite values in which row i depends only on point i: permuting, splitting, stacking or repeating points permutes, splits, stacks or repeats the values. Evaluating is repeatable and does not modify the input.",
     ["inputs"],
     "All problems of the package, all points of their domains including corners and edges, as floating-point or integer arrays, all batch compositions.",
     "Tests evaluate each problem at one or two interior points in one batch shape.",
     [SFF, SFC, MFF], [("f / hf / lf / f_cons implementations", MFF)], ["return values of f, hf, lf, f_cons"])
prop("P08", "Test problems compute their published formulas",
     "At every point of its domain each test problem (objective, every fidelity, constraints) returns the value of its published formula, including its documented parameters.",
     ["inputs", "configurations"],
     "All problems, all points of their domains, all values of the free parameters (dimension and constants) of the parametric ones.",
     "Tests compare at one or two points; an error in a coefficient, an exponent or a branch shows only elsewhere in the domain.",
     [SFF, SFC, MFF], [("f / hf / lf / f_cons implementations", SFF)], ["return values of f, hf, lf, f_cons"])
prop("P09", "Recorded optima are attained, feasible and never beaten",
     "For every problem that records an optimum, each recorded optimum location lies in the recorded domain, is feasible, and evaluates to the recorded optimum within its printed precision. No feasible point of the domain evaluates lower than the recorded optimum beyond that precision.",
     ["inputs", "configurations"],
     "All problems with a recorded optimum (every dimension for the parametric ones), all points of their domains, including the result of local searches started anywhere.",
     "Tests check single values; 'no point is better' quantifies over the whole domain. Optimization stops on the error to this recorded value, so a wrong record silently ends or prolongs every run.",
     [SFF, SFC, MFF], [("optimum, optimum_scheme, input_domain", SFF)], ["optimum, optimum_scheme, input_domain", "f / hf / f_cons"])
prop("P10", "Problem metadata is consistent and instances do not interfere",
     "For every problem the dimension, the number of constraints, the domain (shape, ordering) and the accessors for them agree with each other and with what its functions accept and return, a fixed-dimension problem rejects any other dimension, and the cost ratio is the rounded ratio of the given costs. Creating, using or re-creating one problem never changes another instance, and calling a two-fidelity problem on a list of designs returns the high-fidelity responses of the first and the low-fidelity responses of the second.",
     ["histories", "configurations"],
     "All problems and constructor arguments, all sequences of constructing and using several instances of different dimensions.",
     "Tests construct one instance at a time; interference needs two instances of the same class with different dimensions.",
     [FN, SFF, SFC, MFF], [("_input_domain, _optimum, _get_dimension", FN), ("is_dim_compatible, __call__", MFF)], ["attributes and accessors", "__call__"],
     [("input_domain", "bounds of the problem", SFF), ("num_dim", "dimension of the problem", SFF)])
# ------------------------------------------------------------------ models
prop("P11", "Basis functions produce the full polynomial basis",
     "The ordinary, linear and quadratic basis of n points in d dimensions has exactly 1, d+1 and (d+1)(d+2)/2 columns and consists of the constant, then the coordinates in order, then every product of two coordinates exactly once. Each row depends only on its own point.",
     ["inputs"], "All point sets, dimensions and batch sizes.",
     "Tests use one small array per basis.",
     [BAS], [("Ordinary, Linear, Quadratic", BAS)], ["return value of the basis call"])
prop("P12", "The kernel is the squared-exponential correlation of the two points",
     "The kernel between two point sets has entry exp(-sum_k 10^theta_k (x_k - y_k)^2) for each pair of points, up to a jitter of 1e-10 on the diagonal, so it is symmetric, translation invariant, equal to one at coinciding points, in (0, 1] elsewhere and positive definite on a set of distinct points. Evaluating with explicit parameters equals setting them first and leaves the stored ones alone, every kernel reports one (lower, upper) search bound per dimension as configured, and the Kronecker delta is true exactly for coinciding rows.",
     ["inputs", "histories"], "All point sets, dimensions, parameter vectors, bounds and sequences of parameter updates and evaluations.",
     "Tests evaluate a 2x2 case; symmetry, definiteness and agreement of the two entry points hold over all inputs.",
     [KER], [("RBF.get_kernel_matrix, RBF.__call__, set_params", KER), ("kronDelta", KER)], ["kernel matrices"],
     [("param", "10**theta used by the kernel", KER)])
prop("P13", "Training searches the likelihood of the data within the kernel bounds",
     "The objective handed to the hyper-parameter optimizer is, at every parameter vector and up to a constant, the negative log-likelihood of the standardized data under the model's mean, kernel and noise (with the process variance concentrated out when there is no noise), evaluated independently for each row of a batch of parameter vectors, over a search box made of the kernel bounds (plus the noise range when the noise is unknown); the parameters the optimizer returns are the ones the model then uses. With the built-in optimizer the parameters stay within that box, and more restarts from the same random state never give a worse likelihood.",
     ["inputs", "configurations"], "All data sets, dimensions, mean functions, kernel bounds, noise settings (none, known, estimated), parameter vectors and restart counts; single-fidelity, hierarchical, scaled and co-Kriging models.",
     "Tests only check that training runs and that one prediction is near a stored one.",
     [GP, HK, CK, SK], [("_hyper_paras_optimization, _logLikelihood", GP), ("_optHyp, _logLikelihood", HK), ("_optHyp, _logLikelihood", CK)], ["calls received by a user-supplied optimizer", "kernel parameters after training"],
     [("opt_param", "selected hyper-parameters", GP)])
prop("P14", "GP predictions equal the exact posterior for its hyper-parameters",
     "For given hyper-parameters, the predicted mean and standard deviation at any set of points equal the universal-Kriging posterior of the data (generalized-least-squares trend, concentrated process variance, trend-uncertainty term, plus the noise variance) in the original units, for every mean function and noise setting. The result has one row per point.",
     ["inputs", "configurations"], "All data sets, design spaces, mean functions, hyper-parameters, noise settings and query points, inside or outside the design space.",
     "Tests compare a few predictions of one data set with stored values.",
     [GP, KER, BAS], [("predict, _update_kernel_matrix", GP)], ["predict(X), predict(X, return_std=True), noise"])
prop("P15", "Noise-free models interpolate and are certain exactly at the data",
     "A GP trained on noise-free data reproduces every training response and has (numerically) zero standard deviation there, a positive one away from the data, and reverts to its trend with a standard deviation no smaller than the process one far away from all data. With noise the standard deviation is nowhere below the noise level, and adding data points never increases the uncertainty of the model for fixed hyper-parameters and process variance.",
     ["inputs", "configurations"], "All data sets with distinct points, design spaces, mean functions, noise levels and query points.",
     "Tests check one predicted vector.",
     [GP], [("predict", GP)], ["predict(X, return_std=True)"])
prop("P16", "GP predictions respect changes of units and ordering of the data",
     "Scaling and shifting all responses scales and shifts the predictions and scales the uncertainties (and a known noise scaled alike), rescaling or shifting the inputs together with the design space leaves predictions unchanged, and reordering the training points or dimensions leaves predictions unchanged.",
     ["inputs", "configurations"], "All data sets, affine changes of units (including sign change), permutations of points and of dimensions, mean functions and noise settings; single- and multi-fidelity models.",
     "A metamorphic relation between two trainings; tests train once on one data set.",
     [GP, HK, CK, SK], [("normalize_input, normalize_output", GP), ("normalize_input, normalize_hf_output", MFGP)], ["predict(X, return_std=True)"])
prop("P17", "Multi-fidelity predictions equal their defining models",
     "For given hyper-parameters, hierarchical Kriging predicts the posterior whose trend is a scaled low-fidelity prediction, scaled Kriging predicts scale factor times low-fidelity prediction plus a GP of the remaining discrepancy, and co-Kriging predicts the autoregressive joint posterior of both data sets, in mean and in standard deviation (noise included) and in original units. The low-fidelity prediction each of them offers is that of a GP of the low-fidelity data alone.",
     ["inputs", "configurations"], "All two-fidelity data sets, design spaces, hyper-parameters, scale factors, noise settings and query points.",
     "Tests only compare a handful of predictions to stored values on one data set per model.",
     [HK, SK, CK, MFGP], [("predict, _update_parameters", HK), ("predict, _getDisc", SK), ("predict, _update_parameters", CK)], ["predict, predict_lf"])
prop("P18", "Multi-fidelity models honour both data sets",
     "A noise-free multi-fidelity model reproduces the high-fidelity responses at the high-fidelity points and its low-fidelity prediction reproduces the low-fidelity responses. The low-fidelity prediction in original units does not depend on the high-fidelity data for the hierarchical and scaled models.",
     ["inputs", "configurations"], "All two-fidelity data sets with distinct points, nested or not, all dimensions and design spaces.",
     "Tests check stored predictions on one data set.",
     [HK, SK, CK, MFGP], [("_train_lf, _train_hf, predict_lf", MFGP)], ["predict, predict_lf"])
prop("P19", "Prediction is a pure function of the trained model and the point",
     "Predicting any number of times, in any order, in one batch or point by point, with or without the standard deviation, gives the same mean and the same standard deviation for the same point, for every model. Predicting changes nothing observable about the model, and changing the arrays that were passed for training or prediction, or that were returned, does not change later predictions.",
     ["histories", "inputs"], "All trained models, all sequences of predictions (with and without uncertainty, low- and high-fidelity, different batches) and of modifications of the caller's arrays.",
     "Tests predict once after training; state leaking between predictions needs a sequence of calls.",
     [GP, HK, SK, CK, MFGP], [("predict, predict_lf", CK)], ["predict, predict_lf, noise"],
     [("noise", "noise level in the original units", CK)])
prop("P20", "Retraining forgets the past",
     "A model trained again, on the same or different data, predicts exactly like a freshly created model with the same settings trained once on the latest data in the same random state, including its estimated noise, scale factor and uncertainties.",
     ["histories", "configurations"], "All sequences of trainings on data sets of differing sizes, levels and noise, for every model and noise setting.",
     "Tests train each model object once; Bayesian optimization retrains the same object at every step.",
     [GP, HK, SK, CK], [("train", GP), ("train, _train_hf", MFGP), ("train", CK)], ["predict, predict_lf, noise after retraining"],
     [("noise", "estimated noise", GP), ("rho", "scale factor", SK)])
prop("P21", "The scale factor is chosen within bounds and by its criterion",
     "When scaled Kriging optimizes its scale factor, the factor lies in the given bounds and, for the error criterion, minimizes the squared difference between the scaled low-fidelity prediction and the high-fidelity responses; otherwise it is one. The discrepancy model is trained on the high-fidelity responses minus the scaled low-fidelity prediction, with the built-in or a user-supplied low-fidelity model, discrepancy model and optimizer.",
     ["inputs", "configurations"], "All two-fidelity data sets, bounds, criteria, optimizers and user-supplied sub-models.",
     "Tests run each option once and check that it runs.",
     [SK], [("_rho_optimize, _eval_error, _eval_bumpiness, _getDisc", SK)], ["rho", "calls received by user-supplied models and optimizers"],
     [("rho", "scale factor", SK)])
# ------------------------------------------------------------------ acquisitions
prop("P22", "EI, PI and LCB are the expectations and bounds they are named after",
     "At every point the expected-improvement, probability-of-improvement and lower-confidence-bound acquisitions return, row by row, minus the expectation of max(f_min - Y, 0), minus P(Y < f_min), and kappa_0 times mean minus kappa_1 times standard deviation, for Y the surrogate's normal prediction and f_min the best observed response. They are evaluated on one point or a batch alike and are finite where the uncertainty vanishes.",
     ["inputs", "configurations"], "All predicted means and standard deviations (including vanishing ones and far tails), batches, kappas and observed responses; fake and real surrogates.",
     "Tests run one optimization per acquisition; the values are never compared with their definition.",
     [SFA], [("EI.eval, PI.eval, LCB.eval", SFA)], ["return value of eval"])
prop("P23", "Constrained EI is EI times the probability that all constraints hold",
     "At every point the constrained expected improvement is minus the expected improvement of the objective times the product over the constraints of the probability that the constraint's prediction is at most zero, one value per point for any batch and any number of constraints.",
     ["inputs", "configurations"], "All predicted objectives and constraints (zero, one or several), batches and observed responses.",
     "Tests use one-constraint problems evaluated one point at a time inside an optimizer.",
     [SCA], [("CEI.eval, ei, pof", SCA)], ["return value of eval"])
prop("P24", "Multi-fidelity acquisitions weigh each fidelity by its own definition",
     "At every point, for the high fidelity the multi-fidelity acquisitions reduce to the plain criterion on the high-fidelity prediction (expected improvement over the effective best for the augmented EI, over the observed best for VF-EI, the confidence bound for VF-LCB), and for the low fidelity they use the low-fidelity uncertainty as defined: the cost ratio and the fidelity correlation multiply the augmented EI and the extended PI (whose sample density only depends on the samples of the same fidelity), the scaled low-fidelity standard deviation replaces the high-fidelity one in VF-EI and, times the cost ratio, in VF-LCB. One value per point is returned, independent of the other points in the batch.",
     ["inputs", "configurations"], "All predictions of both fidelities, cost ratios, batches and best values; fake surrogates with prescribed predictions and real trained ones of every multi-fidelity kind the acquisition accepts.",
     "Tests run one optimization per acquisition and only look at the final best value.",
     [MFA], [("eval, corr, _effective_best", MFA)], ["return value of eval, corr"])
prop("P25", "A query returns the in-bounds minimizer of the acquisition",
     "Querying any acquisition, with the built-in search or a user-supplied optimizer, returns a point inside the design space whose acquisition value is not beaten by other points of the space, and for a multi-fidelity acquisition also the fidelity with the smaller optimal value, preferring the high fidelity on a tie. A user-supplied optimizer is given the acquisition itself over the surrogate's design space, and its answer is used.",
     ["inputs", "configurations"], "All surrogates, design spaces, acquisitions, cost ratios, and user-supplied optimizers.",
     "Tests query with the built-in search only, on one or two problems.",
     [SFA, SCA, MFA], [("query", SFA), ("query", SCA), ("query", MFA)], ["return value of query", "calls received by a user-supplied optimizer"])
# ------------------------------------------------------------------ evolutionary algorithms
prop("P26", "PSO and DE evaluate only in-bounds points, the promised number of times",
     "Each optimizer calls the objective once for the initial population and once per generation, always with a full population of finite points inside the design space and with the extra arguments it was given, for any design space, objective and settings. It never evaluates after it has stopped early.",
     ["inputs", "configurations"], "All design spaces, dimensions, population sizes, generations, rates, strategies, extra arguments and objectives (including constant ones and ones whose optimum is on the boundary).",
     "Tests run each optimizer on two problems and look only at the best value.",
     [EA], [("_location_initialzer, _loc_cons", EA), ("run_optimizer", EA)], ["calls received by the objective"])
prop("P27", "Optimizers report the best point they evaluated and their true history",
     "The best value returned by an optimizer is the minimum of all objective values it evaluated, its best point is one that was evaluated and has that value, the per-generation best never gets worse and always pairs with its point, and the recorded populations and responses are the evaluated ones (the surviving ones for differential evolution). This also holds when the run stops early, in the result record as well as in the returned values, and for every reuse of the optimizer object.",
     ["histories", "inputs", "configurations"], "All objectives (with ties, negative, constant), settings, stopping thresholds and sequences of runs on one optimizer object.",
     "Tests look at the final best value of a full-length run only.",
     [EA], [("__update_gen_optimum, __update_pop_optimum, results", EA)], ["the three returned values and the result record"],
     [("gen_best", "best value per generation", EA), ("gen_best_x", "best point per generation", EA)])
prop("P28", "Evolutionary runs are reproducible and depend only on objective order",
     "With the same random state an optimizer repeats exactly the same run, independent of earlier runs of the object, and applying an order-preserving transformation to the objective or an affine change to the design space changes nothing but the reported units. No individual of differential evolution ever gets worse, and no coordinate of a particle moves by more than its velocity limit in a generation unless the particle had left the design space and was put back.",
     ["histories", "inputs"], "All objectives, settings, strategies, random states, monotone transformations and sequences of runs.",
     "A relation between two runs, or over the history of a run; tests perform single runs.",
     [EA], [("__update_pop, __update_obj, __velocity_cons", EA)], ["points evaluated by the objective", "result record"])
# ------------------------------------------------------------------ Bayesian optimization
prop("P29", "Single-fidelity Bayesian optimization keeps an exact ledger",
     "At every moment the stored samples are the initial Latin hypercube design followed by the queried points in order, the stored responses are exactly the problem's values there, the reported best is the smallest of them with its own point, and the history holds one entry per completed iteration (and the initial one), never getting worse. Each query sees a surrogate trained on all data so far, the problem is evaluated once per iteration at the queried point, and repeated calls continue where the last one ended.",
     ["histories", "configurations"], "All problems, initial designs, acquisitions (including user-defined ones), iteration counts and sequences of runs.",
     "Tests run one optimization and check that the final best value is close to the optimum.",
     [SBO], [("run_optimizer, _initialization, _update_para", SBO)], ["sample, response, best, best_x, history_best, history_best_x", "calls received by problem and acquisition"],
     [("sample/response", "all evaluated points and values", SBO), ("history_best", "best value per iteration", SBO)])
prop("P30", "Multi-fidelity Bayesian optimization keeps an exact ledger per fidelity",
     "At every moment the stored samples of each fidelity are its initial Latin hypercube design followed by the points queried for that fidelity in order, the responses are exactly that fidelity's values there, the queried-fidelity record matches, and the reported best is the smallest high-fidelity response with its own point; low-fidelity responses never become the best; the recorded initial design stays what it was. Each query sees a surrogate trained on all data so far and is given the current best and the cost ratio, for every surrogate type.",
     ["histories", "configurations"], "All two-fidelity problems, initial sizes, surrogates, acquisitions (including user-defined ones), fidelity sequences, cost ratios, iteration counts and sequences of runs.",
     "Tests run one optimization per acquisition on one problem and check the final best value.",
     [MBO], [("run_optimizer, _initialization, _update_para", MBO)], ["sample, response, best, best_x, history_best, fidelity_query_order", "calls received by problem and acquisition"],
     [("sample/response", "evaluated points and values per fidelity", MBO), ("fidelity_query_order", "fidelity of every query", MBO)])
prop("P31", "Constrained Bayesian optimization reports the best feasible point",
     "At every moment the reported best of a constrained optimization is the smallest objective among the evaluated points that satisfy every constraint, its reported location is feasible and attains it, and while no point is feasible the best is infinite with no location. Samples, objectives and constraints form the same exact ledger as in the unconstrained case, with every constraint modelled on its own responses.",
     ["histories", "configurations"], "All constrained problems (one or several constraints, ties between feasible and infeasible points, no feasible point at first or at all), initial designs, acquisitions, iteration counts.",
     "Tests run two one-constraint problems whose initial design contains feasible points.",
     [CBO], [("_initialization, _update_para, run_optimizer", CBO)], ["best, best_x, sample, obj_response, cons_response, history_best"],
     [("best/best_x", "best feasible value and location", CBO)])
prop("P32", "Bayesian optimization stops by its rule and repeats with its seed",
     "A run performs iterations exactly while fewer than the maximum have been done and the error to the known optimum (relative, or absolute if the optimum is zero) has not fallen below the stopping error; with an unknown optimum and a stopping error up to the default (1.0) it performs all of them (ten by default). The same seed and settings repeat the identical run, whatever happened before in the process, and another seed starts from another initial design.",
     ["histories", "configurations"], "All problems with positive, negative, zero or unknown optimum, stopping errors, iteration counts, seeds; single-fidelity, constrained and multi-fidelity optimization.",
     "Tests use one stopping error with known negative optima and never repeat a run.",
     [SBO, CBO, MBO], [("run_optimizer, __update_error", SBO), ("run_optimizer, __update_error", MBO), ("seed in __init__", CBO)], ["number of queries, best, samples"])
# ------------------------------------------------------------------ the rest
prop("P33", "Sample plots show exactly the samples",
     "The sampler plots draw every sample of every fidelity they are given exactly once, at its own coordinates and under the label of its own fidelity, in one, two and three dimensions, and refuse more dimensions than they can show. They write the figure file only on request and under the requested name, and plotting does not change the samples.",
     ["inputs", "configurations"], "All sample sets, numbers of fidelities, dimensions and saving options.",
     "Tests only check that plotting does not fail for one data set.",
     [VIS], [("plotting methods", VIS)], ["artists of the created figure", "written files"])
prop("P34", "The multi-fidelity data container mirrors its data",
     "The multi-fidelity array reports the number of fidelities, the size of every fidelity and the high-fidelity (first) data of exactly the list it currently holds, indexing returns the data of that fidelity, and replacing the data replaces all of it.",
     ["inputs", "histories"], "All lists of arrays and sequences of replacing and reading.",
     "No test covers the container.",
     [DAT], [("mfArray", DAT)], ["n_levels, size, hf, indexing"])
prop("P35", "Nothing the caller passes in is modified",
     "No sampler, problem, model, acquisition, optimizer or optimization loop modifies the arrays, lists or bounds it is given: design spaces, sample-size lists, training data, prediction inputs, kernel bounds, cost lists and problem metadata are unchanged after any sequence of calls, so they can be reused.",
     ["histories", "inputs"], "All public operations and all sequences reusing the same argument objects.",
     "Tests build fresh arguments for every call and never look at them afterwards.",
     [SF, MF, GP, HK, SK, CK, EA, SBO, MBO, CBO], [("num_samples handling", MF), ("train", GP), ("run_optimizer", EA)], ["the argument objects after the call"])
prop("P36", "PSO and DE move by their defining rules",
     "In every generation a particle moves, dimension by dimension, by the velocity weight * velocity + cognition rate * (its own best point - position) + social rate * (best point of the swarm - position), limited to the maximum velocity, unless that leaves the design space, in which case the dimension is put back inside. Every trial of differential evolution takes each coordinate from its parent or from one mutant base + step size * (difference of two other members), the base being another member or, for the best strategy, the best point so far, at least one from the mutant and on average as many as the crossover rate says; it replaces its parent only if it is better. The initial population is uniform in the design space, and the history plot shows the best value of every generation.",
     ["histories", "configurations"], "All settings, strategies, population sizes, objectives without ties, design spaces and random states.",
     "The rules relate consecutive generations; tests only look at the final value for one objective.",
     [EA], [("__update_pop, _loc_cons, __velocity_cons", EA)], ["points evaluated by the objective", "result record", "plotted line"])

NOTES = {}
NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    na = list(NOT_APPLICABLE)
    for p in P:
        if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"./check {p['id']} quick",
                thorough_cmd=f"./check {p['id']} thorough",
                technique="property-based testing (Hypothesis): generated inputs and call histories against an explicit oracle",
                level="exploration",
                level_note="Generated-input search with shrinking; shows the presence of violations, not their absence. Trusts numpy, scipy, Hypothesis and the reference models in vlib/ and props/; floating-point tolerances are stated in DESIGN.md."))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Every check imports mfpml from /repo/src directly (pure Python, nothing to build). No hooks in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))


if __name__ == "__main__":
    main()
