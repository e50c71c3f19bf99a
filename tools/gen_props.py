#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SEP="src/penalties/separable/mod.rs"; BLK="src/penalties/block_separable/mod.rs"; UT="src/utils/mod.rs"
DS="src/datafits/single_task/mod.rs"; DM="src/datafits/multi_task/mod.rs"
CD="src/solvers/anderson_cd/mod.rs"; BCD="src/solvers/anderson_bcd/mod.rs"
EST="src/estimators/estimators.rs"; HYP="src/estimators/hyperparams.rs"
DMX="src/datasets/impl_design_matrix.rs"

p("P01","Scalar proximal operators minimise their objective",
  "For every separable penalty (L1, L1+L2, MCP, L0.5), every real input, every penalty strength >= 0 and step size > 0 (for MCP: step < gamma), the value returned by the proximal operator is finite and globally minimises (z - x)^2/2 + step * penalty(z) over all real z. It is odd in x, and returns exactly 0 inside the dead zone.",
  ["inputs"],"all reals x, z, all strengths alpha >= 0, ratios in [0,1], gamma > step > 0",
  "Tests check a handful of numeric values per penalty; global minimality is a statement about all inputs, all competitors z and all parameters, with case boundaries no sample hits.",
  [SEP,UT],[("Penalty::prox","src/penalties/separable/mod.rs"),("soft_thresholding / prox_05","src/utils/mod.rs")],["return value of Penalty::prox against Penalty::value"])
p("P02","Block proximal operators minimise their objective",
  "For every block penalty (L2,1, block L1+L2, block MCP), every weight row, every strength >= 0 and step > 0 (block MCP: step < gamma), the proximal operator returns a finite row that globally minimises ||z - x||^2/2 + step * penalty(z) over all rows z of the same length; the row is never rotated or reflected relative to its input.",
  ["inputs"],"all real rows (1 to 3 tasks), all strengths, ratios, gamma > step > 0, all competitor rows z",
  "Tests compare a few hard-coded rows; minimality against every competitor row and the degenerate zero row/zero strength corner are never sampled.",
  [BLK,UT],[("MultiTaskPenalty::prox",BLK),("block_soft_thresholding",UT)],["return value of MultiTaskPenalty::prox against MultiTaskPenalty::value"])
p("P03","Penalty values equal their documented formulas",
  "For every weight vector or matrix, each penalty's value is the documented closed form (sum over features/rows, including the flat region of MCP); it is never negative, is 0 at zero weights, is invariant under sign flips and feature permutations, and for multi-task penalties depends on a row only through its Euclidean norm.",
  ["inputs"],"all real weights (up to 3 features x 2 tasks), all strengths, ratios, gamma",
  "Tests evaluate one or two fixed vectors, typically all in the same branch of the piecewise definition.",
  [SEP,BLK],[("Penalty::value",SEP),("MultiTaskPenalty::value",BLK)],["return value of value()"])
p("P04","Scalar optimality violation is the true subdifferential distance",
  "For each separable penalty with a usable subdifferential (L1, L1+L2, MCP) the reported violation of a feature equals the distance between minus the gradient and the penalty's (limiting) subdifferential at its weight, for every weight/gradient/working set; the summary value is the maximum over the listed features and entry k describes feature ws[k].",
  ["inputs"],"all real weights and gradients, all working sets (subsets and orders) of up to 3 features",
  "Tests use one weight vector and an identity working set; the pairing of entries with features and the sign/kink cases are untested.",
  [SEP],[("Penalty::subdiff_distance",SEP)],["(distances, max) returned by subdiff_distance"])
p("P05","Block optimality violation is the true subdifferential distance",
  "For each block penalty the reported violation of a row equals the Euclidean distance between minus the gradient row and the penalty's subdifferential at that weight row, for every weight row (zero or not), gradient row and working set; the summary value is the maximum and entry k describes row ws[k].",
  ["inputs"],"all real weight and gradient rows (1-2 tasks), all working sets of up to 3 rows",
  "Tests check few rows; the zero-row case, the region below the MCP knee and reordered working sets are not covered.",
  [BLK],[("MultiTaskPenalty::subdiff_distance",BLK)],["(distances, max) returned by subdiff_distance"])
p("P06","Datafit value, gradient and step sizes are mutually consistent",
  "For the quadratic, multi-task quadratic and logistic datafits on dense and sparse designs: the value is the documented loss at the given fit, gradient_j is its exact partial derivative with respect to weight j, full_grad stacks gradient_j over all features, and step_size(j) is a valid curvature bound (exact for the quadratic losses: ||X_j||^2/n, ||X_j||^2/(4n) for logistic).",
  ["inputs"],"all real designs, targets and weights for up to 3 samples x 2 features x 2 tasks",
  "Tests compare a few numbers to 1e-3 on one small dataset; derivative and curvature relations are identities over all data.",
  [DS,DM,UT],[("Datafit::{initialize,value,gradient_j,full_grad,step_size}",DS),("MultiTaskDatafit::*",DM),("sigmoid",UT)],["values returned by the datafit traits"])
p("P07","Results do not depend on how the design matrix is stored",
  "Dense row-major, dense column-major, strided views and sparse (CSC) storage of the same matrix - including explicitly stored zeros and unsorted row indices - give the same loss, gradients, step sizes, model-fit updates, extrapolated fits, regularisation maximum and fitted coefficients.",
  ["inputs","configurations"],"all real matrices up to 3 x 3, every sparsity pattern of them, every storage order",
  "Tests use one fixed sparse matrix with sorted indices and compare rounded numbers; storage patterns and layouts are a combinatorial family.",
  [DS,DM,DMX,UT],[("CSC implementations of Datafit/MultiTaskDatafit",DS),("DesignMatrix for CSCArray / ArrayBase",DMX),("compute_alpha_max_sparse",UT)],["datafit traits, DesignMatrix trait, solve()"])
p("P08","The solver stops early only at a point optimal over all features",
  "If single- or multi-task optimisation ends before its iteration budget is used up, the returned weights violate the optimality conditions by at most the tolerance on every feature, including features outside the last working set; conversely it does not keep changing weights once all features satisfy the tolerance at an outer check.",
  ["inputs","histories","configurations"],"all sequences of optimality violations along the run, all tolerances, up to 3 features, 3 outer iterations, 21 epochs",
  "Tests check convergence on one random problem; a premature stop needs a specific history of violations across working sets.",
  [CD,BCD],[("outer loop stopping test",CD),("outer loop stopping test",BCD),("inner early exit",CD)],["weights returned by solve / solve_multi_task; calls made on a user-supplied Datafit/Penalty"],
  state=[{"name":"kkt_max","meaning":"largest optimality violation over all features","where":CD}])
p("P09","Every single-task weight update is the exact proximal coordinate step",
  "During optimisation every change of a weight w_j is the penalty's prox of w_j - grad_j/L_j with step 1/L_j, where grad_j is the datafit gradient at the current model fit and the fit always equals X w; each pass over the working set takes this step for every one of its features with non-zero curvature, features with zero curvature are left untouched, the only other change is an accepted extrapolation, and the objective at the returned weights is never above the objective at zero weights (its start).",
  ["inputs","histories"],"all designs/targets up to 3x3, all prox outcomes (arbitrary penalties), up to 3 epochs and 2 outer iterations",
  "Tests look only at converged coefficients, which hide stale fits, wrong steps and non-monotone moves; the statement is per step for arbitrary state.",
  [CD,DMX],[("coordinate update in coordinate_descent",CD),("update_model_fit",DMX)],["arguments handed to a user-supplied Datafit/Penalty during solve; returned weights"],
  state=[{"name":"w, Xw","meaning":"current weights and model fit","where":CD}])
p("P10","Every multi-task row update is the exact proximal block step",
  "During multi-task optimisation every change of a weight row is the penalty's prox of W_j - grad_j/L_j with step 1/L_j, where grad_j is the datafit gradient at the current model fit and the fit always equals X W; each pass over the working set takes this step for every one of its rows with non-zero curvature, rows with zero curvature are left untouched, the only other change is an accepted extrapolation, and the objective at the returned weights is never above the objective at zero weights.",
  ["inputs","histories"],"all designs/targets up to 2 samples x 2 features x 2 tasks, all prox outcomes, up to 2 epochs",
  "As for single-task: converged coefficients of one problem cannot show per-step correctness for arbitrary state.",
  [BCD,DMX],[("block update in block_coordinate_descent",BCD),("update_model_fit_multi_task",DMX)],["arguments handed to a user-supplied MultiTaskDatafit/MultiTaskPenalty; returned weights"],
  state=[{"name":"W, XW","meaning":"current weights and model fit","where":BCD}])
p("P11","Extrapolation is safe: it only ever improves the objective",
  "From any state and iterate history, for every number of stored iterates K >= 1, an extrapolation attempt either leaves weights and fit untouched or replaces them by a point whose objective is strictly smaller, whose fit is consistent with the new weights, which is an affine combination (coefficients summing to 1) of the stored iterates on the working set, and which changes nothing else; it never panics, whatever the number of features in the working set.",
  ["inputs","histories"],"all iterate histories for K in 1..3 (structure for larger K), working sets of 1..3 features, dense and sparse, single- and multi-task",
  "Tests run one accelerated solve on one dataset; rejected, singular and small-working-set extrapolations are never exercised.",
  [CD,BCD,UT,DMX],[("anderson_accel",CD),("anderson_accel",BCD),("solve_lin_sys",UT),("compute_extrapolated_fit",DMX)],["weights/fit before and after anderson_accel, weights returned by solve"],
  state=[{"name":"last_K_w","meaning":"ring of the last K+1 iterates","where":CD}])
p("P12","Working sets keep the support and the worst violators",
  "The working set contains no duplicates and only valid features, contains every feature with a non-zero weight whenever its size allows, never leaves out a feature whose violation is larger than that of an included zero-weight feature, and its size is max(start size, min(2 * support, number of features)).",
  ["inputs"],"all violations and weights of up to 4 features (rows of up to 2 tasks), all start sizes",
  "Tests use one vector; ties, partially zero rows and growth are order- and value-dependent.",
  [CD,BCD,UT],[("construct_ws_from_kkt",CD),("construct_ws_from_kkt",BCD),("argsort_by",UT)],["returned (ws, size)"])
p("P13","The regularisation maximum is the exact threshold of the null model",
  "For single-task, multi-task and sparse data, a Lasso-type fit with alpha at or above the computed alpha_max returns exactly zero coefficients (as does any convex fit whose L1 part reaches it), while for alpha below it by more than the tolerance the fit is non-zero; alpha_max is never negative and scales linearly with the targets.",
  ["inputs"],"all designs/targets up to 2x2 (x2 tasks), all alpha, tolerances >= 0",
  "Tests compare alpha_max with one stored number and never relate it to a fit.",
  [UT,CD,BCD,SEP,BLK],[("compute_alpha_max / _mtl / _sparse",UT),("first optimality check",CD)],["helpers' return values and fitted coefficients"])
p("P14","Hyper-parameters are accepted exactly on their documented domain",
  "For every estimator, checking succeeds iff alpha, tolerance, gamma, ratio are in their documented ranges and the iterate count, working-set size, iteration and epoch counts are usable; NaN is never accepted; the checked set carries exactly the given values, consuming and borrowing checks agree, setters are independent of order, and defaults are the documented ones (also for the bare Solver builder).",
  ["inputs","configurations"],"all 64- and 32-bit float bit patterns and all machine-integer counts for every hyper-parameter of six estimators",
  "Tests check a few bad values for some estimators; the accepted set over all floats (NaN, infinities, signed zeros) and cross-field mix-ups are not sampled.",
  [HYP,"src/estimators/param_guard.rs","src/solvers/impl_solver.rs"],[("ParamGuard::check_ref / check",HYP),("setters and getters",HYP),("Solver builder","src/solvers/impl_solver.rs")],["Result of check/check_ref/fit, getters"])
p("P15","Estimators solve exactly the model they document",
  "Fitting Lasso, ElasticNet, MCP, MultiTaskLasso, MultiTaskElasticNet and BlockMCP with any valid hyper-parameters gives the same coefficients as running the solver on the documented datafit and penalty with those hyper-parameters, for dense and sparse designs; invalid hyper-parameters give an error and never coefficients.",
  ["inputs","configurations"],"all data up to 2 samples x 3 features (x2 tasks), all valid hyper-parameters with small budgets",
  "Tests compare one dataset at default settings, where swapped or ignored hyper-parameters do not show.",
  [EST,HYP,"src/solvers/impl_solver.rs"],[("Fit for *ValidParams",EST),("CDSolver::solve / BCDSolver::solve_multi_task","src/solvers/impl_solver.rs")],["coefficients() of the fitted estimator, Err variants"])
p("P16","The linear solver is right or says so",
  "For every square system, a returned solution satisfies the system exactly (up to rounding), and an error is returned only if the matrix is singular; it never panics or returns non-finite values, whatever the position of zero pivots.",
  ["inputs"],"all real systems of size 1 to 3",
  "Tests solve a few systems with non-zero leading pivots.",
  [UT],[("solve_lin_sys",UT)],["Result of solve_lin_sys"])
p("P17","The native Python classes forward every argument faithfully",
  "For each native binding class, constructing with any hyper-parameters and fitting dense or sparse data gives exactly the coefficients of the corresponding Rust estimator with the same hyper-parameters and data (transposed only where documented).",
  ["inputs","configurations"],"all hyper-parameter values, all data up to 2 x 2 (x2 tasks), six binding classes, dense and CSC entry points",
  "Python tests run the bindings on one random dataset at two tolerances; swapped or dropped arguments that only slow convergence do not show.",
  ["python/src/lasso.rs","python/src/elastic_net.rs","python/src/mcp.rs","python/src/mtl_lasso.rs","python/src/multi_task_elastic_net.rs","python/src/block_mcp.rs"],[("#[pymethods] new / fit / fit_sparse","python/src/*.rs")],["value returned by fit/fit_sparse"])
p("P18","The Python estimators validate, forward and predict faithfully",
  "For each Python estimator: fit rejects exactly the hyper-parameters outside the documented domain with ValueError before any native call; on valid ones it hands every constructor parameter, and the data (dense array or CSC data/indices/indptr), to the matching native class, stores its coefficients in the documented orientation, leaves the caller's arrays unchanged, and predict returns X @ coef of the latest fit and raises for an unfitted model; a cloned estimator, or one given its parameters by set_params, behaves the same.",
  ["inputs","configurations","histories"],"all int/float parameter values, all six estimators, dense and sparse inputs, fit/predict in any order",
  "Python tests fit two configurations and never call predict nor any invalid parameter.",
  ["python/sparseglm/estimators.py","python/sparseglm/utils.py"],[("_validate_params / fit / predict","python/sparseglm/estimators.py"),("check_array / sparse detection","python/sparseglm/utils.py")],["exceptions, arguments received by the native class, coef_, predict()"])
p("P19","Multi-task with one task is the single-task model",
  "With a single target column, every multi-task component (loss, gradient, curvature, penalties, proximal operators, violations, working sets, full solve, estimators) gives the same result as its single-task counterpart (features whose violations are equal may be taken in either order), and a 1-d target is treated as one column.",
  ["inputs"],"all data up to 2 samples x 2 features, all penalties with a counterpart",
  "No test relates the two code paths; they are separate implementations.",
  [DM,BLK,BCD,DS,SEP,CD,"src/datasets/impl_targets.rs"],[("block_coordinate_descent vs coordinate_descent",BCD),("as_multi_tasks","src/datasets/impl_targets.rs")],["coefficients and component values of both families"])
p("P20","Valid inputs never panic and never produce NaN",
  "For every finite design (at least one sample and feature, zero columns, constant targets and duplicate columns included), finite targets and valid hyper-parameters, fitting any estimator terminates without panicking and returns finite coefficients of the right shape.",
  ["inputs","configurations"],"all data up to 2 x 3 (x2 tasks), all valid hyper-parameters, small budgets, with and without acceleration for every K",
  "Tests use random Gaussian data with many features; degenerate shapes and data are not sampled.",
  [CD,BCD,UT,EST],[("zero-curvature guard",CD),("anderson_accel / solve_lin_sys error path",CD)],["panic-freedom and coefficients() of fit"])
p("P21","Work budgets are respected",
  "The solver performs at most max_iterations outer rounds with at most max_epochs passes each and touches each working-set feature at most once per pass; a zero budget returns zero weights; weights of features never entering a working set stay exactly zero.",
  ["configurations","histories"],"all penalty/datafit answer sequences, budgets up to 3 x 3, up to 3 features",
  "Tests never count work or use tiny budgets.",
  [CD,BCD],[("loop bounds",CD),("loop bounds",BCD)],["calls received by a user-supplied Datafit/Penalty; returned weights"])
p("P22","Datasets and targets are transparent",
  "Datasets, references to design matrices and targets, and 1-d/2-d target views expose exactly the wrapped data: dimensions, element order and matrix kind are those of the wrapped arrays, a single target is extracted iff there is exactly one column, and going through a reference changes no result.",
  ["inputs"],"all matrices up to 3 x 3, owned/borrowed/strided targets, every wrapper",
  "Tests construct datasets only in the one way the estimators use.",
  ["src/datasets/impl_targets.rs","src/datasets/impl_datasets.rs",DMX,"src/datasets/mod.rs"],[("DesignMatrix for &DM",DMX),("AsMultiTargets / AsSingleTargets","src/datasets/impl_targets.rs")],["accessor return values"])
p("P23","Results depend only on the arguments",
  "Verbosity never changes a result, and re-using a datafit, penalty, solver, dataset or parameter object for another problem gives the same result as fresh objects: nothing leaks from one fit to the next and inputs are left unmodified.",
  ["histories","configurations"],"all pairs of problems up to 2 x 2, all single- and multi-task datafits, dense and sparse",
  "Tests build fresh objects for every fit.",
  [CD,BCD,DS,DM,EST],[("Datafit::initialize overwrites cached state",DS),("verbose branches",CD)],["coefficients of repeated fits"])
p("P24","Uninformative features get zero weight",
  "A feature whose column is identically zero always receives exactly zero coefficients, in every estimator, dense or sparse, single- or multi-task, and leaves the other coefficients as they are without it when every feature is in the working set (a smaller working set may spend a slot on it and so stop elsewhere within the tolerance; features whose violations are equal may be updated in another order).",
  ["inputs"],"all data up to 2 samples x 2 features with any of the columns zero, all penalties",
  "Random Gaussian test data has no zero column.",
  [CD,BCD],[("lipschitz == 0 guard",CD),("lipschitz == 0 guard",BCD)],["coefficients of the fit"])
p("P25","Fits are equivariant under the symmetries of the model",
  "Flipping the sign of a feature column flips its coefficient, permuting samples changes nothing, and scaling the targets together with the penalty level scales the Lasso-type coefficients by the same factor; negating the targets negates the coefficients.",
  ["inputs"],"all data up to 2 x 2 (x2 tasks), all scale factors > 0, convex and MCP penalties, small budgets",
  "No test relates two fits; asymmetric mistakes (e.g. only one sign handled) pass on a single dataset.",
  [CD,BCD,SEP,BLK,DS,DM],[("soft_thresholding symmetry",UT),("coordinate update",CD)],["coefficients of transformed problems"])
p("P26","The Python data utilities are exact",
  "compute_alpha_max returns max_j ||X_j^T Y||_2 / n for 1-D and 2-D targets; make_correlated_data refuses exactly corr outside [0, 1[ and density outside ]0, 1] with ValueError and otherwise returns the documented shapes, features of variance 1 with covariance corr^|i-j| and independent samples (as functions of the normal draws), int(density * n_features) non-zero coefficient rows made of distinct draws (or the given w_true), and Y = X w plus noise at exactly the requested signal-to-noise ratio (none at infinity).",
  ["inputs","configurations"],"all draws, corr, density, snr and w_true; up to 2 samples x 3 features, 1-2 tasks",
  "Tests call it once as a data source and check nothing about the result.",
  ["python/sparseglm/utils.py"],[("compute_alpha_max","python/sparseglm/utils.py"),("AR recursion and noise scaling","python/sparseglm/utils.py")],["returned arrays and exceptions"])
p("P27","More budget continues the same run and never raises the objective",
  "Fitting the same problem with one more outer round, or (in a single round) one more pass, goes on from where the smaller budget stopped: the objective at the returned weights is never higher, with or without extrapolation, for every estimator, dense or sparse; and a run that an extra round left unchanged stays unchanged with any further round.",
  ["inputs","histories","configurations"],"all targets, penalties and tolerances on small designs; any tolerance on fixed problems up to 32 x 40 with up to 24 passes; every estimator",
  "Tests look at one budget per problem; that budgets relate to each other is a statement about pairs of runs.",
  [CD,BCD],[("outer and inner loops",CD),("outer and inner loops",BCD),("acceptance test of the extrapolation",CD)],["coefficients of fits with different budgets; objective evaluated on them"])
p("P28","Models that are special cases of one another coincide",
  "An elastic net is the Lasso on data to which ridge rows sqrt(n alpha (1 - l1_ratio)) I with zero targets are appended (penalty and tolerance scaled with the number of samples); an elastic net with l1_ratio = 1 returns exactly the coefficients of the Lasso with the same hyper-parameters, and with alpha = 0 the Lasso, the elastic net (any ratio) and MCP (any gamma above the step sizes) all return the same coefficients; likewise for the multi-task estimators; dense or sparse, accelerated or not.",
  ["inputs","configurations"],"all targets, penalties on small designs; any tolerance on fixed problems up to 32 x 40; 1-2 tasks",
  "Each estimator is tested by itself against stored numbers.",
  [SEP,BLK,EST],[("L1 / L1PlusL2 / MCP",SEP),("L21 / BlockL1PlusL2 / BlockMCP",BLK)],["coefficients of the fits"])
p("P29","Fits depend on the samples only through their mean and on no choice of units",
  "Repeating every sample (in any arrangement) leaves the coefficients unchanged; adding a sample of zeros is the same as multiplying penalty and tolerance by (n+1)/n beforehand; measuring features and targets in other units (scaling both by s, the penalty and tolerance by s^2) leaves the coefficients unchanged, and scaling the features alone by s (penalty and tolerance by s) divides the Lasso and MCP coefficients by s. For MCP the penalty is scaled by dividing gamma as well.",
  ["inputs","configurations"],"all targets and penalties on small designs; any tolerance on fixed problems up to 32 x 40; every estimator, dense and sparse, 1-2 tasks",
  "No test relates two fits; a wrong normalisation is invisible when all expected numbers come from one data set.",
  [DS,DM,CD,BCD],[("1/n in value, gradient and step sizes",DS),("1/n in value, gradient and step sizes",DM)],["coefficients of transformed problems"])
p("P30","Multi-task fits treat the tasks symmetrically",
  "Permuting the target columns permutes the coefficient columns, negating one negates its coefficients, rotating the tasks rotates the coefficients, and adding a task whose targets are all zero adds a column of zero coefficients and leaves the others unchanged - for every multi-task estimator, dense or sparse, accelerated or not.",
  ["inputs","configurations"],"all targets and penalties on small designs; any tolerance on fixed problems up to 32 x 40; 1-3 tasks (plus the zero task)",
  "Tests compare one fit with stored numbers; the tasks are never exchanged.",
  [BCD,BLK,DM,DMX],[("row norms in the block penalties",BLK),("per-task loops",DM),("update_model_fit_multi_task",DMX)],["coefficients of transformed problems"])
p("P31","Orthogonal designs are solved in closed form",
  "When the columns of the design are orthogonal (zero columns allowed), the tolerance is 0 and there are more rounds than features, every quadratic estimator returns the closed-form solution of its documented objective, feature by feature: soft-thresholding of x_j^T Y / ||x_j||^2 at alpha n / ||x_j||^2 (Lasso), that divided by 1 + alpha (1 - l1_ratio) n / ||x_j||^2 with the l1 ratio in the threshold (elastic net), the firm threshold (MCP, for gamma > n / ||x_j||^2), row norms in place of absolute values for several tasks - for any start size, number of passes, storage, with or without extrapolation.",
  ["inputs","configurations"],"all targets and penalties on 2x1 to 2x3 orthogonal designs, a free target on orthogonal designs up to 32x32 and 40x33; 1-3 tasks; dense and sparse",
  "Tests compare converged fits with stored numbers on one random design; the closed form is a statement about every target and penalty and about every part of the pipeline at once (estimator, datafit, working sets, step, penalty).",
  [EST,CD,BCD,DS,DM,SEP,BLK],[("Fit::fit",EST),("coordinate_descent",CD),("block_coordinate_descent",BCD)],["coefficients returned by fit"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
