#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S = "src/tenkit/"
DEC, CP, PF2, CMTF, BD, LG = (S+"decomposition/"+n for n in
    ("decompositions.py", "cp.py", "parafac2.py", "cmtf.py", "base_decomposer.py", "logging/logger.py"))
BASE, UT, MET, LOG = S+"base.py", S+"utils.py", S+"metrics.py", S+"log.py"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
        why_tests_cant=why, anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A Kruskal tensor builds the weighted sum of its rank-one components",
  "For factor matrices of any number of modes (two or more), any mode lengths, any rank and any weights (positive, negative, zero or omitted), "
  "constructing the tensor yields shape (l_1,...,l_n) with entry (i_1,...,i_n) equal to the sum over r of w_r times the product of U_n[i_n, r]. "
  "Omitted weights mean all ones, the reported shape and rank are those of the factors, and factor lists whose column counts disagree, or weights of the wrong length, are rejected with ValueError.",
  ["inputs"], "every order >= 2, every list of mode lengths, rank, weight vector and every mismatching column count",
  "The tests construct one 30x40x50 rank-4 tensor with unit weights; other orders, non-unit weights and degenerate lengths are never built.",
  [DEC, BASE], [("KruskalTensor.construct_tensor", DEC), ("khatri_rao / fold", BASE)],
  [("factor_matrices, weights", "the decomposition", DEC)], ["KruskalTensor(...).construct_tensor()", ".shape", ".rank"])

p("C02", "Normalising and splitting a Kruskal tensor keep what it represents",
  "Normalising a Kruskal tensor makes every non-zero factor column a unit vector with unchanged direction and sign, and with weight updating on it multiplies each weight by the norms removed, so that the constructed tensor is unchanged; with weight updating off the weights are untouched, and resetting makes all weights one and leaves the factors alone. "
  "Each single-component decomposition carries exactly that component's columns and weight, and the single-component tensors sum to the full tensor; it is a tensor of its own, so that normalising or changing it leaves the whole as it was. This holds under any sequence of these operations, also when one array was given as the factor matrix of several modes.",
  ["inputs", "histories"], "every Kruskal tensor (integer or floating factors, zero columns, any weights) and every sequence of normalise/reset/split operations",
  "One random tensor with unit weights is normalised once; non-unit weights, zero columns, other orders and sequences of operations are untested.",
  [DEC], [("normalize_components / reset_weights / get_single_component_decomposition", DEC)],
  [("factor_matrices, weights", "the decomposition", DEC)], ["KruskalTensor public methods"])

p("C03", "Unfolding, folding and matrix products follow their definitions",
  "For every tensor and mode (also counted from the end), unfolding puts that mode in the rows and the remaining modes, in order with the last varying fastest, in the columns, and folding is its exact inverse. "
  "Kronecker and Khatri-Rao products of any number of matrices, with or without a skipped one, equal their definitions, and the matricised-tensor-times-Khatri-Rao product equals unfold(X, n) times the Khatri-Rao product of the other factors for every mode (also counted from the end) and every order. "
  "Flattening factor matrices to a vector and unflattening them are mutually inverse.",
  ["inputs"], "every tensor order and shape, every mode, every list of matrices and every skip index",
  "No test calls fold, unfold, kron, khatri_rao, the MTTKRP or the flattening functions directly; three-mode fits exercise only the three-mode special case.",
  [BASE], [("unfold, fold, khatri_rao, kron, matrix_khatri_rao_product, flatten_factors, unflatten_factors", BASE)],
  (), ["tenkit.base functions"])

p("C04", "The linear solvers return optimal solutions of the problem they name",
  "The plain solver returns a least-squares solution of X A = B for every A of full or deficient rank (the exact solution when one exists); the non-negative solver returns the non-negative X of least residual; with a ridge penalty the result minimises the residual plus the penalty times the squared norm of X, under the same constraint. "
  "The orthogonal solvers return a matrix with orthonormal rows or columns (along its shorter side); when X has at least as many columns as rows in A X = B, respectively as many rows as columns in X A = B, it minimises the residual among all such matrices, also when the problem is rank deficient.",
  ["inputs"], "every pair of conforming matrices (wide, tall, rank-deficient, consistent or not; a single right-hand side given as a vector for the non-negative solver) and every ridge penalty > 0",
  "The tests solve a handful of small consistent problems and only check that constrained solutions are feasible, not that they are optimal.",
  [BASE], [("rightsolve, non_negative_rightsolve, orthogonal_solve, orthogonal_rightsolve, add_rightsolve_ridge", BASE)],
  (), ["tenkit.base solvers"])

p("C05", "Evolving and PARAFAC2 tensors build the slices their factors define",
  "For an evolving or PARAFAC2 tensor with any slice widths, slice k is A diag(c_k) B_k^T (with B_k = P_k B for PARAFAC2), the full tensor is these slices padded with zeros to the widest one, and shape, slice shapes, stacked evolving factors and number of elements describe exactly these slices. "
  "An irregular tensor is only padded silently when its warning flag is off; otherwise building the full tensor raises the documented Warning. "
  "Converting a Kruskal tensor, or extracting single components, yields a tensor equal to the original, respectively components that sum to it; a component stays what it was when the fit of the tensor it was taken from goes on.",
  ["inputs"], "every A, B_k or (P_k, B), C with any number of slices, equal or unequal widths and any rank; every three-mode Kruskal tensor with any weights",
  "Two random tensors are tried; conversion, splitting of irregular tensors, element counts and the warning flag are not tested.",
  [DEC], [("EvolvingTensor.construct_slice/construct_tensor/from_kruskaltensor", DEC), ("ProjectedFactor, Parafac2Tensor", DEC)],
  (), ["EvolvingTensor / Parafac2Tensor public methods"])

p("C06", "Stored decompositions load back identical",
  "For every Kruskal, evolving and PARAFAC2 tensor, storing it to a file (or HDF5 group) and loading it gives a decomposition of the same type whose factors, weights, projections, rank and warning flag are identical, element for element, and which constructs the same tensor. "
  "Storing does not change the object, several decompositions stored in different groups of one file do not affect each other, and loading a group that holds another type of decomposition raises the documented Warning instead of returning something else.",
  ["inputs", "histories"], "every decomposition of each type (any order, number of slices, shapes, rank) and every pair of stored and requested types",
  "The tests store one tensor per type; half of their comparisons are not asserted and the evolving ones fail.",
  [DEC], [("store, from_file, store_in_hdf5_group, load_from_hdf5_group", DEC)], (), ["store / from_file / load_from_hdf5_group"])

p("C07", "Each CP iteration solves every mode exactly and the loss never rises",
  "In every CP-ALS iteration the factor of each mode, taken in mode order, is replaced by a minimiser of the loss (squared error plus the ridge terms) given the current factors of the other modes. "
  "Hence the regularised loss never increases from one iteration to the next (up to rounding), for tensors of any order, any rank and any ridge penalties, from any starting point.",
  ["inputs", "histories", "configurations"], "every data tensor of two or more modes, rank, initial decomposition (with any weights), ridge setting and number of iterations",
  "Tests check monotonicity with a tolerance of 1e-4 relative on exact rank-4 data with tiny ridge penalties, never optimality of an update and never noisy data.",
  [CP, BASE], [("CP_ALS update of one factor", CP)], [("decomposition", "current factors and weights", CP)],
  ["decomposition and loss seen by a logger after each iteration"])

p("C08", "Constrained CP modes stay feasible and are updated optimally",
  "In CP-ALS, modes declared non-negative have no negative entry and modes declared orthonormal have orthonormal columns after every iteration, and each such update is optimal: the best non-negative, respectively orthonormal, factor given the others, together with any ridge penalty on that mode. "
  "The regularised loss therefore never increases under any combination of constraints, and asking for both constraints on one mode is rejected with ValueError.",
  ["inputs", "histories", "configurations"], "every data tensor, rank, starting point and every combination of per-mode non-negativity, orthonormality and ridge settings",
  "The only tests use exact non-negative or orthogonal data; one of them fails on most seeds, and optimality under active constraints is never checked.",
  [CP, BASE], [("CP_ALS choice of solver per mode", CP), ("non_negative_rightsolve, orthogonal_rightsolve", BASE)],
  (), ["decomposition and loss seen by a logger after each iteration"])

p("C09", "PARAFAC2 fits keep the PARAFAC2 constraint and never worsen the loss",
  "After every PARAFAC2-ALS iteration each projection matrix has orthonormal columns, so B_k^T B_k is the same for all slices, non-negativity constraints hold for the constrained factor matrices (the blueprint for the evolving mode) and orthonormality constraints hold for the constrained modes. "
  "The projections are the optimal ones given the previous A, B and C, each of the following factor updates is optimal for the projected data, and the regularised loss never increases, for third-order arrays and lists of slices of unequal width alike.",
  ["inputs", "histories", "configurations"], "every regular or irregular data set, rank, initialisation, inner-update count, constraint and ridge setting, and number of iterations",
  "Tests fit exact rank-4 regular data and compare reconstructions with an absolute tolerance of 1; irregular data, the constraint itself and optimality are never checked after a fit.",
  [PF2, BASE, CP], [("projection update and inner CP updates", PF2), ("orthogonal_solve", BASE)],
  [("decomposition", "A, blueprint B, C, projections", PF2)], ["decomposition and loss seen by a logger after each iteration"])

p("C10", "Coupled factorisation fits tensor and matrices jointly with a shared factor",
  "In coupled matrix-tensor factorisation each factor update minimises the joint squared error of the tensor and of every matrix coupled to that mode, each matrix's own factor is then the least-squares (or non-negative) solution given the shared factor, and the joint loss never increases, also when fitting is continued. "
  "The returned pairs reproduce each matrix as shared factor times own factor transposed, where the shared factor is the one in the returned tensor decomposition and has unit columns, and rescaling at the end of a fit does not change any reconstruction.",
  ["inputs", "histories", "configurations"], "every tensor, every list of coupled matrices and coupling modes, non-negativity setting, starting decomposition, and every split of the iterations over fit and continue_fit",
  "The only test couples one matrix to mode 0 and fails; other modes, several matrices, constraints and continued fits are never run.",
  [CMTF, CP], [("CMTF_ALS joint updates and final normalisation", CMTF)],
  [("decomposition, uncoupled factor matrices", "joint model", CMTF)], ["logger snapshots, fit_transform result"])

p("C11", "Reported errors and losses match the current model at all times",
  "Whenever they are read (before any iteration, after any iteration, after continuing, refitting with other data, loading a checkpoint or rescaling the decomposition), the reported SSE, MSE, RMSE, explained variance and loss of a CP, PARAFAC2 or CMTF model equal their definitions for the current decomposition and the current data. "
  "MSE divides by the number of data elements (tensor elements plus coupled matrix elements for CMTF), RMSE is its root, explained variance (CP and PARAFAC2) is one minus SSE over the squared norm of the data, and loss is SSE plus the ridge terms; none of them is negative or undefined because of rounding, except explained variance, which may be negative.",
  ["inputs", "histories"], "every model type, data set and every history of fit, continue, refit, load and in-place rescaling operations",
  "No test compares any reported measure with its definition.",
  [BD, CP, PF2, CMTF, DEC], [("SSE, MSE, RMSE, explained_variance, loss", BD)], [("X, decomposition", "target and current model", BD)],
  ["public properties of the decomposers"])

p("C12", "Fitting runs exactly the iterations that the stopping rules allow",
  "A fit performs iterations until the total number of completed iterations reaches max_its, or, at the start of an iteration, the last relative change of the loss (squared error for CP) is below the convergence tolerance in absolute value, or (CP) the squared error relative to the squared norm of the data is below its tolerance; it never stops earlier or later. "
  "A max_its argument to fit or continue_fit overrides the model's value, the iteration counter always equals the number of completed iterations, and zero remaining iterations is a valid request that changes nothing.",
  ["histories", "configurations"], "every sequence of fit and continue_fit calls with any max_its, tolerances and convergence point, for CP, PARAFAC2 and CMTF",
  "Tests never look at the number of iterations, at early stopping or at continue_fit.",
  [BD, CP, PF2, CMTF], [("iteration loops and convergence updates", CP), ("continue_fit", BD)],
  [("current_iteration, max_its", "progress", BD)], ["current_iteration, logger calls"])

p("C13", "Splitting or repeating a fit gives the same result as one clean fit",
  "Fitting to n iterations and continuing to m gives the same decomposition, loss and iteration count as fitting to m in one go, for any number of splits and for every model type and constraint setting (for coupled factorisation, which rescales its factors at the end of each call, without ridge penalties and up to that rescaling). "
  "Fitting again on the same model object, with the same or different data of any shape, gives the same result as a fresh model object with the same settings and starting point.",
  ["histories", "configurations"], "every way of splitting m iterations over fit and continue_fit, and every sequence of refits on one object",
  "No test calls continue_fit or fits a CP or CMTF model object twice.",
  [BD, CP, PF2, CMTF], [("continue_fit, fit", BD)], [("decomposition and convergence state", "what must carry over or be reset", CP)],
  ["decomposition after the calls"])

p("C14", "The checkpoint file holds exactly the due checkpoints, unaltered",
  "With checkpoint frequency f > 0 and a path, after any sequence of fit and continue_fit calls the file holds one checkpoint for each completed iteration whose one-based number is a multiple of f and one for the last iteration completed by each call, labelled with the zero-based iteration index and equal to the decomposition right after that iteration; without a positive frequency only the last iteration of each call is stored, and without a path nothing is. "
  "The recorded list of checkpoint iterations, in the order written, and the recorded final iteration agree with these checkpoints, and an existing checkpoint is never altered: an attempt to store the same iteration again fails with ValueError and leaves the file as it was.",
  ["histories", "configurations"], "every frequency (including none, negative and zero), number of iterations, convergence point and sequence of fit/continue calls, for CP, PARAFAC2 and CMTF",
  "Tests fit 20 iterations at frequency 5 and only check that four names exist.",
  [BD, CP, PF2, CMTF], [("store_checkpoint and the calls to it", BD)], [("checkpoint file", "groups, attributes", BD)], ["HDF5 file contents"])

p("C15", "Loading a checkpoint restores it exactly and resumes where it left off",
  "Loading the latest or any chosen checkpoint, from the same or a fresh model object, or naming a checkpoint file as starting point, gives exactly the decomposition stored there, and continuing performs the next iteration, so that a resumed run (also one writing to the same file) reaches the same decompositions at the same iteration numbers as an uninterrupted one. "
  "A load that cannot succeed (no checkpoint in the file, no such iteration, wrong rank, mode count, slice count or shape) raises ValueError, a different decomposition type raises Warning, and the model's decomposition and iteration counter stay as they were. Loading changes neither the file nor where the model stores its own checkpoints.",
  ["histories", "crash_points", "inputs"], "every point at which a run is stopped, every stored iteration, every mismatch between file and model",
  "Tests load the latest checkpoint once and compare factors; they never resume, choose an iteration or load something invalid.",
  [BD, CP, PF2, DEC], [("load_checkpoint, from_checkpoint initialisation, component checks", BD)],
  [("decomposition, current_iteration", "what loading sets", BD)], ["decomposition and counter after load"])

p("C16", "Loggers record every iteration once, in memory and on disk",
  "After every iteration each attached logger (one of each type) has exactly one new entry with that iteration's number and the value its metric has at that moment, over any sequence of fit and continue_fit calls. "
  "At every checkpoint the on-disk log of each logger equals its in-memory log so far, with nothing lost, duplicated or reordered, however many checkpoints and resumptions there are; entries made after the last checkpoint appear with the next one.",
  ["histories", "configurations"], "every combination of loggers of different types, checkpoint frequencies and sequences of fit/continue/resume calls",
  "No test attaches a logger.",
  [LG, BD], [("BaseLogger.log / write_to_hdf5_group", LG)], [("log_metrics, log_iterations", "in-memory log", LG)],
  ["logger lists, HDF5 datasets"])

p("C17", "Every initialisation scheme starts the model as documented",
  "Random initialisation gives CP factors with unit columns (non-negative where constrained) and PARAFAC2 factors with orthonormal projections; SVD initialisation gives CP factors whose columns are the leading left singular vectors of each unfolding, and for PARAFAC2 an A spanning the leading directions of the summed slice covariances with optimal projections; CP initialisation of PARAFAC2 (slices of equal width) gives the factors of a CP fit, with independent projections for each slice; precomputed and checkpoint initialisation start from exactly the tensor given. "
  "Decompositions that do not fit the data or rank, an SVD rank larger than a mode, and unknown schemes are rejected with ValueError; scheme names are case-insensitive.",
  ["inputs", "configurations"], "every scheme, data shape, rank, constraint setting and every mismatching initial decomposition",
  "Tests use the default scheme, CP initialisation with an absolute tolerance of 1, and never an invalid one.",
  [CP, PF2, CMTF, DEC], [("init_components and init_*", CP), ("init_components and init_*", PF2)], (), ["decomposition after fit(max_its=0)"])

p("C18", "Factor match scores are the best-permutation similarity and respect symmetries",
  "The factor match score is the maximum over assignments of estimated to true components of the minimum (or mean) over components of the product of absolute column cosines, times one minus the relative weight difference when weights count; the returned permutation attains it, and the separate-mode score does this for each mode on its own. "
  "Scores lie in [0, 1], equal one for identical components, and do not change under permutation, sign flips, or moving scale between the factors or between factors and weights of a component (and under any rescaling when weights do not count); extra estimated components may be left unmatched.",
  ["inputs"], "every pair of decompositions with non-zero columns, every permutation/sign/scale change, both reductions, weights counted or not, for Kruskal, evolving and PARAFAC2 tensors",
  "Tests use the score only as a yardstick close to one; its value elsewhere is unchecked.",
  [MET, DEC], [("factor_match_score, separate_mode_factor_match_score", MET)], (), ["metrics functions and decomposition methods"])

p("C19", "Sign resolution flips components without changing the tensor",
  "Data-driven sign resolution of a Kruskal tensor gives +1 or -1 for every mode and component with product +1 over the modes of each component, agreeing with the data-driven sign score in every mode except, when the signs multiply to -1, in the mode of smallest absolute score. "
  "The sign score of a column is the sum of signed squares of its least-squares coefficients in the data; sign helpers without data make the column sum, respectively the majority sign (ties by first non-zero entry), positive and return signs that reproduce the input (the sign of a column of zeros is free).",
  ["inputs"], "every data tensor and decomposition of full column rank, including scores that are exactly zero, and every factor list",
  "Tests use random data, in which no score is zero or tied, and one identity matrix.",
  [DEC, UT], [("KruskalTensor.get_signs", DEC), ("get_signs, flip_factors, prepare_for_comparison", UT)], (), ["get_signs, get_sign_scores, flip_factors, prepare_for_comparison"])

p("C20", "Model diagnostics equal their definitions",
  "Core consistency equals 100 times one minus the scaled squared distance between the least-squares Tucker core and the superdiagonal tensor, is 100 for an exact decomposition however scale is split between factors and weights, and for PARAFAC2 is that of the projected data. "
  "Degeneracy scores are the products over modes of column cosines; leverage scores are the diagonal of the projection onto the column space; explained fraction and completion score equal their ratio definitions, the latter using only the missing entries.",
  ["inputs"], "every data tensor and full-column-rank decomposition, every mask",
  "The only test of these functions fails before calling them.",
  [MET, DEC], [("core_consistency, core_consistency_parafac2, leverage, percent_explained, tensor_completion_score, degeneracy", MET)], (), ["metrics functions and decomposition methods"])

p("C21", "The experiment logger stores every value it was given, in order",
  "The HDF5 experiment logger evaluates each target once per logged parameter set, and after each save (every store_frequency logs, or on request) each target's dataset holds exactly the values of all logs so far (in single precision), in order. "
  "Continuing an old experiment appends after the values already stored, other experiments in the same file are untouched, and repeated saves change nothing.",
  ["histories", "configurations"], "every interleaving of log and save calls of one or more loggers on one file, every store frequency, and every sequence of continued sessions",
  "log.py is not tested at all.",
  [LOG], [("HDF5Logger.log/save_logs", LOG)], [("dataset per target", "values stored so far", LOG)], ["HDF5 datasets"])

p("C22", "An experiment run stores its parameters, outputs and evaluation",
  "Running an experiment calls the experiment function once with the data and parameters and the final evaluation once with its outputs, and afterwards the experiment's group holds every parameter except the initialisation as attribute and every output and evaluation metric as dataset, together with the attributes given at creation, and the file's metadata group the latest value given for each name. "
  "Continuing an old experiment overwrites these values in place; a run whose experiment function fails stores nothing and passes the error on; other experiments in the file are untouched.",
  ["histories", "inputs"], "every set of parameters, outputs and metrics and every sequence of fresh and continued runs in one file",
  "log.py is not tested at all.",
  [LOG], [("Experiment.run_experiment", LOG)], [("experiment group", "attributes and datasets", LOG)], ["HDF5 group"])

p("C23", "Generated test data has the advertised structure",
  "Random Kruskal tensors have the requested shape and rank, unit columns, unit weights, and non-negative entries for the uniform method; random PARAFAC2 tensors have orthonormal projections of the requested, possibly unequal, widths. "
  "The data generators return unit-column factors (non-negative for the non-negative generator), and a tensor equal to their Kruskal tensor plus the noise factor times a noise tensor of equal norm.",
  ["inputs"], "every shape (any order), rank, random method and noise level",
  "The tests use generators as fixtures for 30x40x50 rank 4 only and never check their output; two of the generators cannot run.",
  [DEC, UT], [("random_init", DEC), ("create_data, create_non_negative_data, create_random_factors", UT)], (), ["generator outputs"])

p("C24", "Data handed to the library is never modified",
  "Fitting, continuing, evaluating, scoring, sign resolution, storing and constructing leave the data tensor, list of slices, coupled matrices, masks and compared decompositions that were passed in bit-for-bit unchanged (an initial decomposition given to a fit is the one exception). "
  "The algebra and solver functions do not modify their arguments, and the results they return do not change when the library is used further.",
  ["inputs", "histories"], "every public function and method that takes arrays, every argument and call history",
  "No test compares inputs before and after a call.",
  [BASE, UT, MET, DEC, CP, PF2, CMTF], [("copies made before in-place updates", BASE)], (), ["arguments before and after each call"])

p("C25", "A failed checkpoint write never damages earlier checkpoints",
  "If writing a checkpoint fails at any point (a write operation on the checkpoint file fails, for example because the disk is full, or a logger raises), the error reaches the caller, every checkpoint completed before remains loadable with its original contents, and loading the latest checkpoint gives either the previous complete one or the new one, complete. "
  "The file's list of checkpoint iterations and final iteration never name a checkpoint that was not completely written. "
  "If the process ends between two checkpoints without any goodbye, the file holds the checkpoints and logs of all iterations due so far, and another process can go on from it.",
  ["fault_sequences", "crash_points", "histories"], "a failure injected at every write operation of every checkpoint of a run, and the end of the process in any iteration, for each model type",
  "Tests never make a write fail.",
  [BD, DEC], [("order of writes in store_checkpoint", BD)], [("checkpoint file", "groups, attributes", BD)], ["HDF5 file after the failure, load_checkpoint"])

p("C26", "All views of a model show one and the same decomposition",
  "Whenever they are read (during an iteration, after fitting, continuing, refitting with other data, loading a checkpoint or changing the decomposition in place), a model's reconstructed data, factor matrices, weights, coupled factor matrices, reconstructed coupled matrices and projected data are those of its current decomposition, indexing a decomposition gives its factor matrices in mode order (also from the end for Kruskal tensors), and the evolving factor matrices of a PARAFAC2 tensor are the same whether they are indexed by slice, row, column or entry, iterated over or listed, and its diagonal matrices are those of the columns of its last factor matrix. "
  "The fitting calls that return something return the model's decomposition, for coupled factorisation together with one pair of shared and own factor per coupled matrix.",
  ["histories", "inputs"], "every model type, data and constraint setting, every sequence of fit, fit_transform, continue, load and in-place changes, every slice, row and column index",
  "The tests read the reconstruction of a finished fit for one data set and no other view.",
  [CP, PF2, CMTF, DEC], [("reconstructed_X, factor_matrices, weights, projected_X", CP), ("reconstructed_X, projected_X", PF2), ("coupled_factor_matrices, reconstructed_coupled_matrices", CMTF), ("__getitem__, ProjectedFactor", DEC)],
  [("decomposition", "the model's current decomposition", BD)], ["properties of a model", "indexing", "return value of fit_transform"])

p("C27", "Helper transformations re-express factors and files without losing anything",
  "Normalising factor matrices returns columns of unit length (zero columns stay zero) and the norms that reproduce the input; permuting factors, and weights, gives exactly the chosen columns in the chosen order in every mode, so that a full permutation of factors and weights keeps the tensor, and applying the permutation that a factor match score returns brings matching components into the same order. "
  "PCA loadings are the leading right singular vectors times the singular values for every matrix, wide or tall; iterating over a checkpoint file yields its checkpoints, and nothing else, in the order of their iterations however large these are. This holds for every sequence of these helpers.",
  ["inputs", "histories"], "every list of factor matrices (integers, zero columns, any scale and memory layout), every permutation or selection of components, every matrix, every checkpoint file",
  "No test calls any of these helpers.",
  [UT, MET], [("normalize_factor(s), permute_factors(_and_weights), get_pca_loadings, iter_checkpoints", UT)], (), ["tenkit.utils functions"])

p("C28", "Progress reports appear at the chosen iterations and tell the truth",
  "With a positive print frequency n, fitting and continuing print exactly one line for every completed iteration whose number, counted from the start of the fit (also across continued and resumed runs), is a multiple of n, and nothing else; with None or a negative frequency they print nothing. "
  "Each line gives the number of the iteration and, to the printed digits, the mean squared error, the loss (with penalties) and the signed relative change of the decomposition that iteration produced.",
  ["histories", "inputs"], "every model type, data, constraints and penalties, print frequency, tolerance and sequence of fit, continue, refit and load",
  "No test looks at what is printed.",
  [CP, PF2], [("_fit: print_frequency", CP), ("_fit: print_frequency", PF2)],
  [("current_iteration", "number of the iteration", BD), ("print_frequency", "how often to report", BD)], ["standard output of fit and continue_fit"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
