#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Latin hypercube designs are stratified, in bounds and space-filling",
 "Every LHS design of n points in any box, whatever its kind, has exactly n rows inside the box and, in each dimension, exactly one point in each of n equal slices (at the slice middle for centered kinds). A maximin or optimized design is never less space-filling, by the measure its kind optimises, than the plain design drawn from the same random state, and the same generator seed gives the same design.",
 ["inputs", "configurations"], "every box (any dimension, offset, width), every sample count from 1, every LHS kind, every generator seed",
 "Tests pin a handful of 2-D boxes and one seed per kind; stratification must hold for all sizes, dimensions and seeds, including the degenerate single-point design.",
 ["crates/doe/src/lhs.rs", "crates/doe/src/traits.rs", "crates/doe/src/utils.rs"],
 [("one stratum per row, shuffled per column", "crates/doe/src/lhs.rs:_classic_lhs,_centered_lhs"),
  ("best-of-k maximin selection", "crates/doe/src/lhs.rs:_maximin_lhs"),
  ("enhanced stochastic evolutionary swap search", "crates/doe/src/lhs.rs:_maximin_ese,_phip_swap"),
  ("affine scaling to the sampling box", "crates/doe/src/traits.rs:sample")],
 ["SamplingMethod::sample", "SamplingMethod::normalized_sample"])

prop("C02", "Factorial and random designs cover the requested box",
 "A full-factorial design has exactly the requested number of distinct points, all on a regular grid of the box whose per-dimension level counts are as even as possible; when the request is the full product of levels, every grid node appears once. Random designs lie inside the box, are uniform in each dimension and are reproducible from the generator seed; scaled and normalized samples are related by the affine map of the box.",
 ["inputs", "configurations"], "every box, dimension and sample count; every generator seed",
 "Two fixed boxes are tested; grid completeness, distinctness and level balance are claims over all (n, dimension) pairs.",
 ["crates/doe/src/full_factorial.rs", "crates/doe/src/random.rs", "crates/doe/src/traits.rs"],
 [("even level allocation", "crates/doe/src/full_factorial.rs:normalized_sample"),
  ("uniform draw", "crates/doe/src/random.rs:normalized_sample"),
  ("affine scaling", "crates/doe/src/traits.rs:sample")],
 ["SamplingMethod::sample"])

prop("C03", "Correlation kernels and trend bases match their definitions and derivatives",
 "Each correlation model (squared exponential, absolute exponential, Matern 3/2, Matern 5/2) returns its documented closed form for every distance, length-scale and KPLS weights: 1 at zero distance, in [0,1], symmetric, non-increasing with distance, and generating positive semi-definite correlation matrices. Each regression model returns the documented constant, linear or quadratic basis. The derivative each model reports is the derivative of the value it reports.",
 ["inputs"], "every kernel and trend, dimension 1..6, all positive theta over many decades, arbitrary weights matrices, arbitrary point sets including coincident points",
 "Tests evaluate derivative checks at a few fixed points; the closed form and its derivative must agree everywhere.",
 ["crates/gp/src/correlation_models.rs", "crates/gp/src/mean_models.rs", "crates/gp/src/utils.rs"],
 [("kernel value/jacobian/valjac", "crates/gp/src/correlation_models.rs"), ("regression basis value/jacobian", "crates/gp/src/mean_models.rs"),
  ("pairwise componentwise differences", "crates/gp/src/utils.rs:DiffMatrix, pairwise_differences")],
 ["CorrelationModel::value, rval_from_distances, jacobian, valjac", "RegressionModel::value, jacobian"])

prop("C04", "GP prediction equals universal kriging on the training data",
 "For every training set, trend, kernel, KPLS dimension and hyperparameters reported by a fitted Gaussian process, the mean, the variance, the process variance and the reduced likelihood it reports equal those of the textbook universal-kriging equations applied to the normalised data. The model reports the input and output dimensions of its training data, and refuses training data its correlation matrix cannot support with an error, not with wrong numbers.",
 ["inputs", "configurations"], "every training set (1..6 inputs, any scale and offset, constant columns included), trend, kernel, KPLS dimension, fixed or tuned theta, and every prediction point",
 "Tests compare a few 1-D fits against recorded numbers; a wrong term in the variance or trend passes them on the shapes they use.",
 ["crates/gp/src/algorithm.rs", "crates/gp/src/utils.rs", "crates/gp/src/parameters.rs"],
 [("data normalisation", "crates/gp/src/utils.rs:NormalizedData"), ("reduced likelihood, QR/Cholesky", "crates/gp/src/algorithm.rs:reduced_likelihood"),
  ("predictor and variance", "crates/gp/src/algorithm.rs:predict,predict_var,_compute_rx_u")],
 ["GaussianProcess::predict, predict_var, variance, likelihood, theta, dims"])

prop("C05", "GP interpolates its data; variance is non-negative; outputs are consistent",
 "A fitted Gaussian process returns the observed outputs at its training points with (numerically) zero variance there, and a non-negative finite variance everywhere. Mean, variance, joint mean-and-variance and all gradient entry points agree with one another, and a prediction at a point does not depend on which other points are in the same batch, nor on their order.",
 ["inputs", "configurations"], "every training set of distinct points, model and batch of prediction points, including training points and far extrapolation",
 "Tests check one dataset and batches in one order; agreement between entry points is a relation over every batch.",
 ["crates/gp/src/algorithm.rs", "crates/moe/src/surrogates.rs"],
 [("predict/predict_var/predict_valvar", "crates/gp/src/algorithm.rs"), ("variance clamp at zero", "crates/gp/src/algorithm.rs:predict_var")],
 ["GaussianProcess::predict, predict_var, predict_valvar, predict_*gradients"])

prop("C06", "Surrogate gradients are the derivatives of surrogate predictions",
 "For every fitted Gaussian process, sparse process or expert surrogate and every point, the gradients of the mean and of the variance it reports are the derivatives of the mean and the variance it predicts, in the user's units, component by component; single-component derivatives agree with the full gradient.",
 ["inputs", "configurations"], "every training set, kernel, trend, KPLS dimension, fixed or tuned theta, and prediction point away from kernel kinks",
 "Derivative tests cover fixed functions, isotropic theta and 1-2 dimensions, so transposed, rescaled or dropped terms can pass.",
 ["crates/gp/src/algorithm.rs", "crates/gp/src/sparse_algorithm.rs", "crates/gp/src/mean_models.rs", "crates/moe/src/surrogates.rs"],
 [("mean gradients", "crates/gp/src/algorithm.rs:predict_jac,predict_gradients,predict_kth_derivatives"),
  ("variance gradients", "crates/gp/src/algorithm.rs:predict_var_gradients_single,predict_var_gradients"),
  ("surrogate delegation", "crates/moe/src/surrogates.rs")],
 ["predict_gradients, predict_var_gradients, predict_valvar_gradients, predict_kth_derivatives"])

prop("C07", "GP predictions do not depend on units or on training-row order",
 "Changing the unit or origin of any input, or of the output, before training changes predictions, variances and gradients exactly as that change of units does; reordering training rows, or reordering the input columns together with per-dimension hyperparameters, leaves predictions unchanged.",
 ["inputs", "configurations"], "every training set, positive affine map per column and of the output, row permutation, column permutation, kernel and trend",
 "No test compares two trainings related by a transformation.",
 ["crates/gp/src/algorithm.rs", "crates/gp/src/utils.rs"],
 [("normalisation of inputs and outputs", "crates/gp/src/utils.rs:NormalizedData, normalize"), ("denormalisation in predictions and gradients", "crates/gp/src/algorithm.rs")],
 ["GaussianProcess::predict, predict_var, predict_gradients, predict_var_gradients"])

prop("C08", "Hyperparameter tuning honours what the user asked for",
 "Training returns hyperparameters inside the requested bounds; a fixed setting is returned unchanged whatever its broadcast form (one value or one per dimension), a partial setting changes only the active components, and a full setting never ends with a lower likelihood than the requested initial guess. The number of tuned components follows the KPLS dimension, settings of the wrong length are refused, and training twice gives the same model.",
 ["inputs", "configurations"], "every training set, tuning mode, bounds and init of length 1 or d, active index set, KPLS dimension, number of restarts and evaluation budget, in f64 and f32",
 "Tests use one dataset per tuning mode and check only that it runs or gives one recorded value.",
 ["crates/gp/src/parameters.rs", "crates/gp/src/algorithm.rs", "crates/gp/src/optimization.rs"],
 [("tuning modes and validation", "crates/gp/src/parameters.rs"), ("multistart optimisation and best selection", "crates/gp/src/algorithm.rs:fit; crates/gp/src/optimization.rs")],
 ["GaussianProcess::theta, likelihood", "GpParams::check/fit errors"])

prop("C09", "Sparse GP posterior matches the FITC/VFE equations",
 "For every training set, inducing set, method, kernel, noise and hyperparameters reported by a fitted sparse Gaussian process, mean and variance equal the published FITC or VFE posterior equations; with the inducing points equal to the training points both reduce to the exact noisy GP posterior. Variance is non-negative and no smaller than the exact posterior variance allows, located inducing points and fixed noise are used as given, tuned values stay in bounds, and a seed makes randomized inducing selection reproducible and drawn from the training points.",
 ["inputs", "configurations"], "every training set, inducing set (located or random), FITC or VFE, kernel, KPLS dimension, noise setting and prediction point",
 "Tests check a root-mean-square error on one 1-D function with loose tolerance; variance of VFE is never compared against a reference.",
 ["crates/gp/src/sparse_algorithm.rs", "crates/gp/src/sparse_parameters.rs", "crates/gp/src/optimization.rs"],
 [("FITC and VFE Woodbury terms", "crates/gp/src/sparse_algorithm.rs:fitc,vfe"), ("posterior", "crates/gp/src/sparse_algorithm.rs:predict,predict_var"),
  ("inducing selection", "crates/gp/src/sparse_algorithm.rs:make_inducings")],
 ["SparseGaussianProcess::predict, predict_var, theta, variance, noise_variance, inducings"])

prop("C10", "Sampled GP trajectories follow the posterior distribution",
 "Trajectories drawn from a fitted process have one row per requested point and one column per trajectory, are finite, have the posterior mean and posterior (co)variance in distribution whichever sampling method is used, and pass through the observed outputs at training points.",
 ["inputs", "configurations"], "every training set, kernel, trend, sampling method (Cholesky, eigenvalues), set of sampling points and number of trajectories",
 "Tests only check output shapes on one dataset.",
 ["crates/gp/src/algorithm.rs"],
 [("posterior covariance and factorisation", "crates/gp/src/algorithm.rs:sample, sample_chol, sample_eig, _compute_covariance, sample")],
 ["GaussianProcess::sample_chol, sample_eig, sample"])

prop("C11", "Mixture predictions are the documented recombination of expert predictions",
 "A mixture of experts with hard recombination returns, at every point, the prediction, variance and gradients of the expert of the most probable cluster; with smooth recombination it returns the probability-weighted sum of expert means and the squared-probability-weighted sum of expert variances, and the gradients of exactly those functions. With one cluster both modes return the single expert's outputs, joint and batched entry points agree with the separate ones, and switching mode on a fitted mixture takes effect immediately.",
 ["inputs", "configurations"], "every training set, cluster count, recombination mode, heaviside factor, expert set and batch of prediction points",
 "Tests check one 1-D function with three clusters against recorded values.",
 ["crates/moe/src/algorithm.rs", "crates/moe/src/surrogates.rs", "crates/moe/src/expertise_macros.rs"],
 [("smooth and hard prediction", "crates/moe/src/algorithm.rs:predict_smooth,predict_hard,predict_var_*,predict_*gradients_*"), ("experts and gmx accessors", "crates/moe/src/algorithm.rs")],
 ["GpMixture::predict*, experts(), gmx()"])

prop("C12", "Cluster membership is a probability law with its exact derivatives",
 "For every Gaussian mixture and every finite point, membership values are finite, between 0 and 1 and sum to 1, equal the weighted Gaussian densities (with covariances scaled by the heaviside factor) normalised over clusters, their reported derivatives are the derivatives of those values, and the predicted label is the most probable cluster.",
 ["inputs"], "every number of clusters, dimension, weights, means, positive-definite covariances, heaviside factor, and point, from cluster centers to far outside the data",
 "Tests check one 1-D and one 2-D mixture at fixed points.",
 ["crates/moe/src/gaussian_mixture.rs"],
 [("log-probabilities, normalisation, derivatives", "crates/moe/src/gaussian_mixture.rs")],
 ["GaussianMixture::predict_probas, predict_probas_derivatives, predict"])

prop("C13", "Mixture training honours the requested configuration",
 "Training a mixture yields the requested number of clusters (or at most the requested maximum when chosen automatically), one expert per cluster taken from the allowed regression and correlation models and trained on that cluster's points, with the requested KPLS dimension and tuning. With the same data, parameters and seed training gives the same mixture, and configurations that cannot be honoured are refused with an error rather than a crash.",
 ["inputs", "configurations"], "every dataset, cluster request (fixed, automatic, bounded), model specs, recombination, KPLS dimension, tuning list and seed",
 "Tests fit a few functions and compare error on held-out points.",
 ["crates/moe/src/algorithm.rs", "crates/moe/src/clustering.rs", "crates/moe/src/parameters.rs", "crates/moe/src/types.rs"],
 [("expert selection", "crates/moe/src/algorithm.rs:find_best_expert,train"), ("cluster number search", "crates/moe/src/clustering.rs:find_best_number_of_clusters"), ("validation", "crates/moe/src/parameters.rs:check_ref")],
 ["GpMixture::n_clusters, experts, recombination, predict"])

prop("C14", "Saved surrogates predict the same after loading",
 "Saving any trained surrogate (GP, sparse GP, mixture, mixed-integer mixture; every kernel, trend and recombination) and loading it back in the same format gives a surrogate with the same parameters, settings and training data (bit for bit in binary format, to JSON number precision in JSON format), hence the same predictions, variances, gradients and quality scores up to rounding. Loading a missing or truncated file, or a file of the other format, reports an error; no corrupted JSON file makes loading panic; saving to a place that cannot be written reports an error.",
 ["inputs", "configurations", "fault_sequences"], "every trained model kind and configuration, both file formats, every truncation point and byte corruption of the saved file",
 "Tests save one model and reload it once; they do not sweep model kinds nor damaged files.",
 ["crates/moe/src/algorithm.rs", "crates/moe/src/surrogates.rs", "crates/moe/src/types.rs", "crates/ego/src/gpmix/mixint.rs", "crates/gp/src/algorithm.rs"],
 [("typetag serialisation of experts", "crates/moe/src/surrogates.rs"), ("mixture save/load", "crates/moe/src/algorithm.rs"), ("mixint save/load", "crates/ego/src/gpmix/mixint.rs")],
 ["GpMixture::save/load", "MixintGpMixture::save/load", "GpSurrogate::save, load"])

prop("C15", "Surrogate quality scores equal their definitions",
 "The predictive coefficient Q2 on given data, the k-fold and leave-one-out Q2, the predictive variance adequacy and the interval accuracy (IAE alpha) reported for a surrogate equal their published definitions computed from its predictions, and are 1, or the documented ideal, for a perfect predictor.",
 ["inputs", "configurations"], "every trained model, every test set and fold count",
 "Tests compare a single recorded value with tolerance.",
 ["crates/moe/src/metrics.rs", "crates/gp/src/metrics.rs"],
 [("metric traits", "crates/moe/src/metrics.rs; crates/gp/src/metrics.rs")],
 ["GpQualityAssurance, PredictScore, IaeAlphaPlotData"])

prop("C16", "Mixed-integer encoding is lossless and casting is a projection",
 "For every sequence of variable types (continuous, integer, ordered, enumerated with or without labels) in any order, encoding a valid discrete point to the continuous space and decoding it gives the point back; decoding any continuous point gives a valid value of every type (nearest integer in range, nearest allowed level, largest enum component) and decoding twice changes nothing. The continuous bounds derived from the types contain every encoded point and have one interval per encoded component.",
 ["inputs"], "every list of variable types in every order, every valid discrete point, every continuous point",
 "Tests use one ordering of types with at most one enum before the others.",
 ["crates/ego/src/gpmix/mixint.rs", "crates/ego/src/types.rs"],
 [("unfold/fold/cast", "crates/ego/src/gpmix/mixint.rs:unfold_with_enum_mask,fold_with_enum_index,cast_to_discrete_values_mut"), ("bounds", "crates/ego/src/gpmix/mixint.rs:as_continuous_limits")],
 ["to_continuous_space, to_discrete_space, as_continuous_limits, MixintContext"])

prop("C17", "Mixed-integer designs and surrogates respect variable types",
 "Designs of experiments created for a mixed-integer space contain only valid values of each variable and have the requested size. A mixed-integer surrogate depends on its input only through the discrete point it stands for: it gives the same prediction, variance and gradients as the underlying mixture trained on the encoded data and queried at the encoded discrete point, through every prediction entry point.",
 ["inputs", "configurations"], "every list of variable types, design kind, size and seed, training set, mixture setting and query point in folded or continuous form",
 "Tests use one or two spaces and one design kind.",
 ["crates/ego/src/gpmix/mixint.rs", "crates/ego/src/gpmix/mod.rs"],
 [("sampling wrapper", "crates/ego/src/gpmix/mixint.rs:MixintSampling"), ("surrogate wrapper", "crates/ego/src/gpmix/mixint.rs:MixintGpMixture")],
 ["MixintContext::create_*_sampling, create_surrogate", "MixintGpMixture::predict*"])

prop("C18", "Infill criteria equal their formulas, with exact gradients, without overflow",
 "Expected improvement, log expected improvement, WB2 and scaled WB2 return, at every point, the value of their published formula computed from the surrogate's mean and variance and the current best value; the gradient of each is the derivative of its value. Values stay finite (never NaN) for any ratio of predicted improvement to uncertainty, log EI is the logarithm of EI wherever EI is representable, and points of zero variance (below 2.2e-16) yield no improvement (EI 0, log EI the lowest double; the derivative of log EI on that plateau is not specified). The scale of WB2S is 100 |mean| / EI at the sampled point of largest EI, 1 when nothing is expected anywhere.",
 ["inputs"], "every predicted mean, variance, best value and scale over many orders of magnitude, every criterion, optional sigma weight",
 "Tests compare one surrogate on one function around the minimum; tails, sign changes and large ratios are not reached.",
 ["crates/ego/src/criteria/ei.rs", "crates/ego/src/criteria/wb2.rs", "crates/ego/src/utils/logei_helper.rs", "crates/ego/src/utils/misc.rs"],
 [("EI and log EI", "crates/ego/src/criteria/ei.rs"), ("log EI tail expansion", "crates/ego/src/utils/logei_helper.rs"), ("WB2", "crates/ego/src/criteria/wb2.rs")],
 ["InfillCriterion::value, grad, scaling"])

prop("C19", "Constraint terms of the acquisition match their definitions and gradients",
 "The constrained acquisition value is the infill criterion times (or plus the log of) the probability that every surrogate constraint stays below its tolerance; mean and upper-trust-bound constraint values are the surrogate mean and mean plus three standard deviations, scaled; and every gradient handed to the optimizer is the derivative of the matching value with respect to the active components, in the order they are listed. (The log of a probability is floored at log(2.2e-16); its gradient below that floor is not specified.)",
 ["inputs", "configurations"], "every set of constraint surrogates, tolerances, scales, point, criterion, constraint strategy and active-component subset",
 "Tests evaluate one constraint with zero tolerance and compare one gradient at a fixed point.",
 ["crates/ego/src/utils/cstr_pof.rs", "crates/ego/src/solver/solver_computations.rs"],
 [("probability of feasibility", "crates/ego/src/utils/cstr_pof.rs"), ("objective and constraint evaluation", "crates/ego/src/solver/solver_computations.rs")],
 ["EgorSolver::eval_infill_obj_with_cstrs, eval_grad_infill_obj_with_cstrs, mean_cstr, upper_trust_bound_cstr"])

prop("C20", "The reported optimum is the best evaluated point",
 "Among any history of evaluated points, objectives, constraint values and tolerances, the reported best is a point whose constraint values are all within tolerance and whose objective is minimal among such points; when no point is feasible it is one of least constraint violation. The optimizer's result returns that point with its own recorded outputs, in the original variable space, judged by the constraint values the run recorded, and it is never worse than the best of the initial design.",
 ["inputs", "histories"], "every history length, objective values including ties and non-finite values, number of constraints, tolerances, surrogate and function constraints",
 "Unit tests list a few 3-row tables; the relation is over every table and every run.",
 ["crates/ego/src/utils/find_result.rs", "crates/ego/src/solver/solver_impl.rs", "crates/ego/src/solver/egor_state.rs", "crates/ego/src/egor.rs"],
 [("sum of violations ordering", "crates/ego/src/utils/find_result.rs"), ("state update", "crates/ego/src/solver/egor_state.rs:update"), ("result extraction", "crates/ego/src/egor.rs:run")],
 ["find_best_result_index", "Egor::run -> OptimResult"])

prop("C21", "The optimizer only evaluates valid points, within budget, and records them all",
 "Every point at which the optimizer calls the objective lies inside the declared domain and is a valid value of each variable type; the number of calls is the initial-design size plus at most the allowed iterations times points per iteration; and the returned history is exactly the sequence of evaluated points and returned outputs, starting with the design the user supplied. This holds for every infill criterion, optimizer, batch strategy, trust-region, cooperative and constraint setting, and with the process-wide switches set by environment variables (the variance portfolio may give up to 13 points per iteration when one is asked for).",
 ["inputs", "configurations", "histories"], "every objective function, domain, variable types, initial design, and optimizer configuration",
 "Tests run a handful of configurations on two or three functions and look at the final optimum only.",
 ["crates/ego/src/egor.rs", "crates/ego/src/solver/solver_impl.rs", "crates/ego/src/solver/trego.rs", "crates/ego/src/solver/coego.rs", "crates/ego/src/solver/solver_infill_optim.rs", "crates/ego/src/optimizers/optimizer.rs"],
 [("iteration step and point selection", "crates/ego/src/solver/solver_impl.rs:ego_step,select_next_points"), ("trust region local step", "crates/ego/src/solver/trego.rs"), ("cooperative components", "crates/ego/src/solver/coego.rs"), ("internal optimizers", "crates/ego/src/optimizers/optimizer.rs")],
 ["objective callback arguments", "OptimResult.x_doe/y_doe/state"])

prop("C22", "Constraints reach the optimizer in the user's space and units",
 "Function constraints are evaluated at points of the domain expressed exactly as the objective receives them (types and folded dimension included) and a function-constraint value is recorded for every evaluated point, equal to the user's function there up to the documented scaling of that constraint by the infill search. Surrogate and function constraints, tolerances given per constraint, and strategies can be combined freely: any combination the configuration accepts runs to completion and its result obeys those tolerances whenever a feasible point was evaluated.",
 ["inputs", "configurations", "histories"], "every number of surrogate and function constraints, tolerances, constraint strategy, variable types, batch size and trust-region/cooperative setting",
 "Tests use one surrogate-constraint problem and one function-constraint problem in continuous space.",
 ["crates/ego/src/solver/solver_impl.rs", "crates/ego/src/solver/solver_computations.rs", "crates/ego/src/solver/egor_config.rs", "crates/ego/src/utils/find_result.rs"],
 [("function constraint evaluation", "crates/ego/src/solver/solver_computations.rs:eval_fcstrs"), ("tolerance handling", "crates/ego/src/solver/egor_config.rs; crates/ego/src/utils/find_result.rs")],
 ["constraint callback arguments", "OptimResult.state (c_doe)"])

prop("C23", "A seeded run is reproducible, whatever the number of threads",
 "With the same seed, configuration and objective, an optimization, a suggestion, a surrogate training or a design gives exactly the same sequence of points each time it is run, in the same or another process and with any number of worker threads; a different seed gives different random draws.",
 ["schedules", "configurations", "inputs"], "every configuration and seed, repeated executions, thread-pool sizes 1..8 and the schedules they induce",
 "Tests compare against recorded optima with tolerance, on one thread count.",
 ["crates/ego/src/solver/solver_impl.rs", "crates/ego/src/utils/portfolio.rs", "crates/ego/src/solver/solver_infill_optim.rs", "crates/gp/src/optimization.rs", "crates/moe/src/clustering.rs"],
 [("seeded generator carried in the state", "crates/ego/src/solver/egor_state.rs"), ("parallel reductions", "crates/ego/src/solver/solver_infill_optim.rs; crates/gp/src/algorithm.rs")],
 ["OptimResult.x_doe across runs"])

prop("C24", "A hot-started run continues as if it had never stopped",
 "An optimization with checkpointing that is stopped by its iteration limit, or killed at any point, and restarted with the same configuration continues from the last completed iteration and ends with the same history as an uninterrupted run; extending adds exactly the requested number of iterations. A restart never repeats, loses or alters evaluations recorded in the checkpoint.",
 ["crash_points", "histories", "configurations"], "every iteration at which the run is interrupted (between or inside objective evaluations and around checkpoint writes), configuration and extension size",
 "One test runs a hot start once and checks only the iteration count.",
 ["crates/ego/src/utils/hot_start.rs", "crates/ego/src/egor.rs", "crates/ego/src/solver/egor_solver.rs", "crates/ego/src/solver/egor_state.rs"],
 [("checkpoint save/load", "crates/ego/src/utils/hot_start.rs"), ("state serialisation", "crates/ego/src/solver/egor_state.rs"), ("run with checkpointing", "crates/ego/src/egor.rs:run")],
 ["checkpoint file", "OptimResult after restart", "objective callback arguments"])

prop("C25", "Saved designs equal the history, and warm starts reuse them",
 "When an output directory is given, the saved initial design, final design and history contain exactly the evaluated points and outputs, in order (in the relaxed layout of a design given by the user: one column per enumeration level, each row decoding to the evaluated point), and the saved configuration reloads to the one used. A warm start from that directory, or a user-given design with outputs, evaluates none of the recorded points again, keeps them unchanged at the head of the history and evaluates only the missing outputs.",
 ["inputs", "configurations", "histories"], "every problem, initial design (points only, points with outputs), output directory reuse, variable types and constraints",
 "Tests do one warm start and check that the optimum improves.",
 ["crates/ego/src/egor.rs", "crates/ego/src/solver/egor_solver.rs", "crates/ego/src/types.rs"],
 [("saving of designs", "crates/ego/src/solver/egor_solver.rs:next_iter,init"), ("warm start", "crates/ego/src/solver/egor_solver.rs:init")],
 ["egor_initial_doe.npy, egor_doe.npy, egor_history.npy, egor_config.json", "objective call count"])

prop("C26", "Ask-and-tell suggestions are valid and depend only on what was told",
 "The ask-and-tell service returns exactly the requested number of points per ask, each inside the domain and valid for its variable types, and does not modify the data it is given. For the same data, seed and configuration it suggests the same points, the suggestion is the one the optimizer itself would evaluate next, whatever was asked before.",
 ["inputs", "histories", "configurations"], "every told history (points, outputs, constraints), variable types, batch size and strategy, criterion and optimizer",
 "Tests run one service loop on one function.",
 ["crates/ego/src/solver/egor_service.rs", "crates/ego/src/solver/solver_impl.rs"],
 [("suggest", "crates/ego/src/solver/solver_impl.rs:suggest"), ("service", "crates/ego/src/solver/egor_service.rs")],
 ["EgorServiceApi::suggest"])

prop("C27", "The optimizer stops when, and only when, a stop condition is met",
 "A run stops as soon as a completed iteration has a feasible point at or below the target value, when the iteration limit is reached, or when no new point can be found, and never before; the termination reported, iteration count, best-so-far bookkeeping and trust-region radius in the returned state agree with the recorded history.",
 ["inputs", "configurations", "histories"], "every objective, target value (below, inside, above the reachable range), iteration limit including zero, and configuration",
 "One test uses one target on one function.",
 ["crates/ego/src/solver/egor_solver.rs", "crates/ego/src/solver/egor_state.rs", "crates/ego/src/egor.rs"],
 [("termination", "crates/ego/src/solver/egor_solver.rs:terminate"), ("best bookkeeping", "crates/ego/src/solver/egor_state.rs:update")],
 ["OptimResult.state termination status, iter, best_index, last_best_iter"])

prop("C28", "The Python module gives the same answers as the Rust library",
 "Designs, surrogate fits and predictions, mixed-integer handling, optimization runs, suggestions, best-result queries and saved models obtained through the Python module satisfy the same rules as the Rust interface: same shapes and defaults, inputs untouched, values in the declared spaces, seed-reproducible, best result by objective and tolerance, and gradients that are derivatives of predictions.",
 ["inputs", "configurations", "histories"], "every domain of mixed variables, data set, model setting and optimizer setting accepted by the Python interface",
 "Python tests are a few smoke runs and are not part of the stable suite.",
 ["python/src/egor.rs", "python/src/gp_mix.rs", "python/src/sparse_gp_mix.rs", "python/src/sampling.rs", "python/src/domain.rs"],
 [("binding layer", "python/src")],
 ["egobox.Egor, Gpx, GpMix, SparseGpx, lhs, sampling"])

prop("C29", "Each added point is chosen well on surrogates of all the data",
 "At each iteration the points added by the optimizer are (nearly) the best by the configured criterion on surrogates of the configured kind trained on everything evaluated so far - for a batch, with the virtual outputs of the points already in the batch given by the configured strategy - and predicted feasible by the constraint surrogates when a constrained optimizer is used. The surrogates and the run description the optimizer records agree with the configuration and the history: models, trend, kernel, clusters, bounds and starting value of the hyperparameters, and reuse of those of earlier iterations as configured.",
 ["inputs", "configurations", "histories"], "every objective, constraint, history, criterion, batch size and strategy, surrogate setting, cooperative and trust-region setting",
 "Tests only compare the best value found with a known optimum with a wide tolerance, which a badly chosen point often survives.",
 ["crates/ego/src/solver/solver_impl.rs", "crates/ego/src/solver/solver_infill_optim.rs", "crates/ego/src/solver/solver_computations.rs", "crates/ego/src/utils/bounds.rs", "crates/ego/src/utils/start_points.rs"],
 [("selection of the next points", "crates/ego/src/solver/solver_impl.rs:select_next_points"), ("infill optimisation", "crates/ego/src/solver/solver_infill_optim.rs"), ("recorders", "crates/ego/src/utils/run_recorder.rs; crates/ego/src/utils/gp_recorder.rs")],
 ["EgorServiceApi::suggest, OptimResult.x_doe, egor_gp.bin, egor_initial_gp.bin, egor_run.json"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
