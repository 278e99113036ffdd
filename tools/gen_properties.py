#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

prop("C01", "GGN products are exactly J^T H J on any model, loss and batch",
     "For every model, parameter pytree, data batch and supported loss (mean squared error, cross-entropy, binary cross-entropy, none, or a custom callable), the generalized Gauss-Newton matrix-vector product returns factor * sum over data of J^T H J v in the structure and shapes of the parameters, where J is the model Jacobian and H the Hessian of that loss with respect to the model output. The factor is (total samples)/(curvature samples), defaulting to 1, and an explicitly supplied loss-Hessian product is used in place of the loss's own. The product is linear and symmetric, and positive semi-definite when the loss is convex in the output.",
     ["inputs", "configurations"],
     "all models, parameter pytrees (nested, scalar leaves, frameworks), batches (N>=1, with or without a batch axis), losses, sample-count factors, vectors v",
     "Existing tests compare a few fixed seeds of one or two small models with one scalar parameter dict; they do not vary pytree structure, multi-output losses, factor, unbatched mode or check symmetry/PSD.",
     ["laplax/curv/ggn.py", "laplax/curv/hessian.py", "laplax/api.py"],
     [("linearize + linear_transpose around a loss-Hessian product", "laplax/curv/ggn.py:create_ggn_mv_without_data"),
      ("closed-form loss Hessians and autodiff fallback", "laplax/curv/ggn.py:create_loss_hessian_mv")],
     ["returned product vs dense float64 oracle"])

prop("C02", "Hessian products equal the true Hessian of the summed loss",
     "For every model, parameter pytree, batch and documented loss (mean squared error, cross-entropy with integer or one-hot targets, binary cross-entropy, custom callable), the Hessian-vector product equals (total samples)/(curvature samples) times the exact Hessian, with respect to the parameters, of the loss summed over the batch, applied to the vector. It is linear and symmetric. For models that are linear in their parameters it coincides with the Gauss-Newton product for the same loss.",
     ["inputs", "configurations"],
     "all models, parameter pytrees, batches, documented losses, factors, vectors; GGN==Hessian whenever the model is linear in its parameters",
     "Tests check one polynomial test case with MSE and a custom loss; classification losses, factors, batches and the GGN/Hessian agreement are never exercised.",
     ["laplax/curv/hessian.py", "laplax/curv/utils.py", "laplax/curv/ggn.py"],
     [("forward-over-reverse HVP of model+loss", "laplax/curv/hessian.py:create_hessian_mv_without_data"),
      ("model/loss composition", "laplax/curv/utils.py:concatenate_model_and_loss_fn")],
     ["returned product vs dense float64 Hessian"])

prop("C03", "Curvature does not depend on how the data is batched or packaged",
     "The curvature products and the curvature estimates and posteriors fitted through the high-level entry points are the same (up to rounding) whether the data is given as one tuple, list or dict batch or as a re-iterable loader yielding any partition of it in any order, for every curvature type, and every call consumes each batch of the loader exactly once per product it needs (no example lost or counted twice). Fitting with given curvature-sample and total-sample counts scales the curvature by (total samples)/(curvature samples).",
     ["inputs", "histories", "configurations"],
     "all partitions and orders of a dataset into batches (unequal, singleton), batch containers, transforms, curvature types, sample counts",
     "Tests use two equal batches of one fixed dataset through the low-level loader wrapper; the high-level entry points with loaders, unequal partitions, list batches and sample-count scaling are not covered.",
     ["laplax/api.py", "laplax/util/loader.py", "laplax/curv/cov.py"],
     [("batch/loader wrapping and transform inference", "laplax/api.py:GGN/laplace"),
      ("streaming sum over batches and lowering of dense/diagonal into it", "laplax/util/loader.py:DataLoaderMV")],
     ["fitted curvature and posterior", "log of batches served by an instrumented loader"])

prop("C04", "Dense and diagonal extraction reproduce the operator exactly",
     "For every linear operator given as a function (square or rectangular for dense extraction) or as an array, the dense matrix and the diagonal extracted from it equal the operator's matrix and that matrix's diagonal in flattened parameter order, and the full and diagonal curvature estimates are exactly these for pytree and integer layouts alike. The result does not depend on the extraction batch size, on jit-compilation being allowed or not, or on the nesting of the layout. Operators without a usable layout are rejected.",
     ["inputs", "configurations"],
     "all operators (asymmetric and rectangular too), layouts (int, arrays of any rank, nested pytrees with scalar leaves), batch sizes, jit settings",
     "Tests use a handful of symmetric matrices with fixed layouts; asymmetric operators, scalar leaves, integer layouts in the full estimate and batch sizes are not varied.",
     ["laplax/util/mv.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/util/tree.py"],
     [("basis-vector probing", "laplax/util/mv.py:diagonal/to_dense"),
      ("flatten/unflatten wrapping", "laplax/curv/full.py:create_full_curvature")],
     ["extracted matrices vs the matrix that defines the operator"])

prop("C05", "Low-rank curvature is a faithful compression of the operator",
     "For every symmetric operator (array, flat function or pytree function), the low-rank methods return eigenvalue/vector terms that are the operator compressed to the span they found: each non-zero-weight vector is orthonormal to the others, the eigenvalues are the Rayleigh quotients of their vectors and lie within the operator's spectrum, and no curvature is counted twice even when the requested rank exceeds the rank or the dimension of the operator. When the requested Lanczos rank covers the operator's Krylov space for a generic start vector, the terms reconstruct the operator (or its part inside that space) exactly. Results are deterministic in the key, do not depend on whether the product may be jit-compiled, and have the requested output precision.",
     ["inputs", "configurations"],
     "all symmetric operators (singular, repeated eigenvalues, indefinite for Lanczos), ranks below/at/above dimension, keys/start vectors, dtypes, jit on/off, both methods",
     "Tests run both methods on a few random PSD matrices with rank below dimension; breakdown (rank >= Krylov dimension), the boundary size = 5*rank, mixed precision and jit equivalence are not exercised.",
     ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/curv/low_rank.py", "laplax/curv/utils.py"],
     [("Lanczos three-term recurrence with full reorthogonalisation", "laplax/curv/lanczos.py:lanczos_iterations"),
      ("LOBPCG block iteration", "laplax/curv/lobpcg.py:lobpcg_standard")],
     ["returned terms vs dense eigen-oracle", "count of operator products"])

prop("C06", "Posterior covariance is the exact inverse of the scaled precision",
     "For every curvature estimate (full, diagonal, low-rank) and every prior precision, noise variance and loss scaling, the posterior covariance product is the inverse of (sigma_squared * curvature + prior_precision * I)/loss_scaling, and the scale product S satisfies S S^T = covariance, in flat or pytree form according to the layout. A low-rank estimate that represents the same matrix as a full or diagonal one yields the same covariance. Evaluating a posterior for one set of prior arguments never affects what it gives for another.",
     ["inputs", "configurations", "histories"],
     "all PSD curvatures, prior arguments over many orders of magnitude, loss scalings, layouts (int, None, pytrees), sequences of evaluations",
     "Tests check one prior precision per curvature type with default noise variance and scaling; the cross-type agreement with sigma_squared and loss scaling and repeated evaluation are not tested.",
     ["laplax/curv/cov.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py"],
     [("curvature -> precision -> state -> scale/cov chain", "laplax/curv/cov.py:set_posterior_fn"),
      ("triangular factor of the inverse", "laplax/curv/full.py:full_prec_to_scale"),
      ("Woodbury-style square root", "laplax/curv/low_rank.py")],
     ["covariance and scale products vs float64 inverse"])

prop("C07", "Weight samples are exact, reproducible draws from the posterior",
     "The i-th weight sample for a key is mean plus the posterior scale applied to a standard normal draw determined by (key, i): it has the parameters' structure, is the same on every call and whether or not samples are precomputed and for any precompute batch size, and differs between indices and between keys. Changing only the mean shifts every sample by exactly that change, and changing only the scale operator transforms the same draw. Over many samples the empirical mean and covariance agree with the posterior's mean and covariance within statistical error.",
     ["inputs", "configurations", "histories"],
     "all keys (including the default), indices, sample counts, parameter pytrees, scale operators, precompute settings",
     "Tests look at a single key and default precompute setting; distribution, cross-index independence and precompute invariance are never checked.",
     ["laplax/eval/pushforward.py", "laplax/util/ops.py", "laplax/util/tree.py"],
     [("per-index key split and normal_like", "laplax/eval/pushforward.py:set_get_weight_sample"),
      ("precompute switch", "laplax/util/ops.py:precompute_list")],
     ["sampled weights, recorded standard-normal probes through the scale operator"])

prop("C08", "Linearized predictive equals the Gaussian J Sigma J^T around the MAP",
     "For every model, posterior and input, the linearized predictive reports the MAP output as mean, J Sigma J^T as covariance (flattened over output entries for vector outputs), its diagonal as variance and the square root of that as standard deviation, whichever of these quantities are requested and in whichever order. Its samples are the MAP output plus J applied to zero-mean posterior weight draws, one per requested sample. None of these depends on batch-size options or on other quantities being computed.",
     ["inputs", "configurations"],
     "all models, curvature types, prior arguments, inputs, subsets and orders of requested quantities, sample counts and batch sizes",
     "Tests check a couple of predictives with the default list of quantities; subset/order independence and exactness of samples and covariance against a dense oracle are not covered.",
     ["laplax/eval/pushforward.py"],
     [("JVP/VJP output covariance product", "laplax/eval/pushforward.py:set_output_mv/lin_*")],
     ["predictive dictionaries vs dense oracle"])

prop("C09", "Sampling predictive reports the true statistics of its weight ensemble",
     "For every model, posterior, key and input, the sampling-based predictive evaluates the model at exactly the requested number of posterior weight draws for that key, and the reported mean, variance, standard deviation and covariance are the (population) statistics of those model outputs, mutually consistent whichever of them are requested together. Reported samples are the first members of that same ensemble, and the averaged class probabilities are the mean softmax of the reported samples. Results do not depend on batch-size options, and the same weights are used for every input.",
     ["inputs", "configurations"],
     "all models, posteriors, keys, sample counts (including one), subsets of requested quantities, batch sizes, inputs",
     "Tests check scalar outputs for one configuration; the consistency of variance with and without covariance and the identity of the ensemble across inputs are not checked.",
     ["laplax/eval/pushforward.py", "laplax/util/tree.py"],
     [("ensemble evaluation and statistics", "laplax/eval/pushforward.py:nonlin_*")],
     ["predictive dictionaries vs ensemble recomputed one sample at a time"])

prop("C10", "Classification predictives are valid and match their formulas",
     "For every logit mean and covariance, mean-field-0 and the Laplace bridge return probability vectors (non-negative, summing to one) over the class axis, and every mean-field variant and the bridge equal their published closed forms; the Monte Carlo predictive is the average softmax over the samples. In the limit of vanishing variance the mean-field predictives equal the softmax of the mean, the first and second mean-field variants (and the zeroth for equal variances) are invariant to adding a constant to all logits, and all are equivariant under class permutations. The high-level predictives for linearized and sampling pushforwards report these probabilities as the class prediction.",
     ["inputs", "configurations"],
     "all class counts >= 2, means, (co)variances over many magnitudes, correction on/off, pushforward types and predictive types",
     "No existing test executes these functions at all.",
     ["laplax/eval/predictives.py", "laplax/eval/pushforward.py", "laplax/api.py"],
     [("closed forms", "laplax/eval/predictives.py"),
      ("dispatch by predictive type", "laplax/eval/pushforward.py:special_pred_act")],
     ["returned probabilities vs float64 formulas"])

prop("C11", "Marginal log-likelihood equals the Laplace evidence formula",
     "For every curvature type, model, loss, data and prior arguments, the marginal log-likelihood equals log p(D|theta) + log p(theta) + P/2 log(2 pi) - 1/2 log det(posterior precision), where log p(D|theta) is -(1/(2 sigma)) times the summed loss, the prior is the isotropic Gaussian with the given precision, and the precision is the one the posterior uses (including noise variance and loss scaling). Curvature representations of the same matrix give the same value. The value is a finite scalar for every documented loss.",
     ["inputs", "configurations"],
     "all curvature types and matrices, losses, prior precisions, noise settings, loss scalings, data",
     "No existing test evaluates the marginal log-likelihood.",
     ["laplax/eval/likelihood.py", "laplax/curv/utils.py", "laplax/curv/cov.py"],
     [("log-determinants per curvature type", "laplax/eval/likelihood.py")],
     ["returned scalar vs dense float64 oracle"])

prop("C12", "Prior-precision search returns the best evaluated grid point",
     "For every objective and grid, the search evaluates grid points in order, each once, stopping only after the given number of consecutive increases (patience) or after the maximum number of iterations, and returns the first evaluated point with the lowest objective value. Objective values that are NaN, and evaluations rejected with a value error, count as infinitely bad and never win over a finite value; other errors propagate. The logarithmic search visits exactly the requested number of points, log-spaced over the requested range including both ends.",
     ["inputs", "histories", "fault_sequences"],
     "all objective value sequences including NaN, infinities, ties and value errors; patience and iteration limits; grids",
     "Tests use one smooth objective; patience bookkeeping, NaN/exception histories and iteration limits are not covered.",
     ["laplax/eval/calibrate.py"],
     [("grid search loop", "laplax/eval/calibrate.py:grid_search"),
      ("log grid", "laplax/eval/calibrate.py:optimize_prior_prec")],
     ["event log of objective evaluations", "returned value"])

prop("C13", "Calibration optimizes the stated objective of the actual predictive",
     "For every objective (negative log-likelihood, chi-squared, marginal log-likelihood, expected calibration error) that is supported for the task, calibration returns the prior precision on the requested grid whose objective, recomputed independently from the model, posterior and validation data, is minimal, and a predictive factory that reproduces the same predictive for any prior arguments. Turning objective compilation on or off, or passing the data as tuple, list or dict, does not change the outcome. Custom calibration methods receive the objective and data and their result is returned unchanged.",
     ["inputs", "configurations"],
     "all supported combinations of objective, predictive type, pushforward type, curvature type, grids, batch containers, compilation flag",
     "No test runs the high-level calibration; objectives are only tested through one low-level regression case.",
     ["laplax/api.py", "laplax/eval/calibrate.py", "laplax/eval/likelihood.py", "laplax/eval/metrics.py"],
     [("objective builders and method dispatch", "laplax/api.py:calibration"),
      ("per-point evaluation then metric", "laplax/eval/calibrate.py:evaluate_for_given_prior_arguments")],
     ["chosen prior precision vs independently recomputed objective curve"])

prop("C14", "Metrics equal their mathematical definitions",
     "For every prediction and target, RMSE, chi-squared, Gaussian negative log-likelihood, Gaussian CRPS, top-k accuracy and correctness (integer or one-hot targets), cross-entropy, the Brier score's magnitude, and expected and maximum calibration error equal their defining formulas evaluated in high precision. They are unchanged by permuting the data, and per-bin proportions, confidences and accuracies account for every sample exactly once including confidences on bin edges. Boolean, integer and floating correctness indicators give the same calibration errors.",
     ["inputs", "configurations"],
     "all arrays (shapes, sizes incl. one sample, extreme magnitudes), k, bin counts, target encodings, scaling flags",
     "No existing test evaluates these metrics against a reference except indirectly through two regression runs.",
     ["laplax/eval/metrics.py"],
     [("metric functions", "laplax/eval/metrics.py")],
     ["metric values vs float64 references"])

prop("C15", "Dataset evaluation computes every metric for every example exactly once",
     "Evaluating predictions or metrics over a dataset, a loader or a one-shot iterator yields, for each example and in the order given, exactly the value obtained by evaluating the predictive and the metric on that example alone, with no example dropped, repeated or reordered, for every partition into batches and every batch-size option. The given reduction is applied to each metric's collected values, metrics compose with earlier results as documented, and both default metric suites work. The high-level evaluation returns the same values as the low-level functions for tuple, list and dict batches and loaders of them.",
     ["inputs", "histories", "configurations"],
     "all datasets, partitions, loader kinds (list, generator, custom iterable), reductions, metric lists and dictionaries, default suites, pushforward types",
     "Tests evaluate one fixed dataset with one loader layout; one-shot iterators, unequal partitions, the classification suite and the high-level evaluation are not covered.",
     ["laplax/eval/utils.py", "laplax/api.py"],
     [("mapped per-point evaluation", "laplax/eval/utils.py:evaluate_*"),
      ("metric wrapping", "laplax/eval/utils.py:apply_fns/transfer_entry")],
     ["per-example values vs single-example recomputation", "log of batches served"])

prop("C16", "Streaming reductions equal the whole-dataset result",
     "Processing a loader batch by batch with the sum, add, concatenate or online-mean reduction yields the sum, elementwise sum, concatenation or mean of the per-batch results over the whole data for every partition, and the loader, the transform and the function are each applied exactly once per batch, in order, with the given arguments. The streaming matrix-vector object, and dense or diagonal extraction or function wrapping applied to it, equal the same operation on the summed operator, and re-using it gives the same answer. An empty loader is reported as an error.",
     ["inputs", "histories"],
     "all batch sequences, pytree-valued results, reductions, axes, jit settings, nested wrappings",
     "Tests use two or three equal batches with small arrays; unequal batches, pytrees, repeated use and exactly-once consumption are not checked.",
     ["laplax/util/loader.py", "laplax/util/flatten.py", "laplax/util/mv.py"],
     [("reduction functions and batch loop", "laplax/util/loader.py")],
     ["reduced results vs direct computation", "event log of loader/transform/function calls"])

prop("C17", "Pytree algebra and flattening are lossless and lawful",
     "For every parameter pytree, flattening then unflattening (and the reverse) is the identity, flattening orders entries by leaf order and row-major position, and wrapping a function or factory with these maps conjugates it exactly. Elementwise operations (add, subtract, negate, scale, square root, invert, statistics, slices, ones/zeros, size) act leaf by leaf and preserve structure, and basis vectors, identity trees and element access agree with flattened positions. Tree matrix-vector products equal the dense product of the represented matrix with the flattened vector.",
     ["inputs"],
     "all pytrees (nested dict/tuple/list/custom nodes, scalar leaves, None, arrays of any rank), indices, axes",
     "Tests check a few fixed trees per function.",
     ["laplax/util/tree.py", "laplax/util/flatten.py"],
     [("flatten/unflatten factories", "laplax/util/flatten.py"), ("tree arithmetic", "laplax/util/tree.py")],
     ["results vs numpy on the flattened vector"])

prop("C18", "No call disturbs global settings or anything the caller passed in",
     "No public call, whether it succeeds, is rejected or fails inside user code, changes the process-wide numerical configuration (such as 64-bit mode), even temporarily as seen from another thread, the registered methods or default metric lists (apart from explicit registration), or any list, dict or array the caller passed. Repeating a call with the same arguments therefore gives the same result regardless of the calls made before it. Concurrent calls from several threads give the same results as the same calls made one after another.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences and interleavings of public calls, including failing ones and user callbacks that raise at any call",
     "Unit tests run one call at a time on the success path and never inspect global configuration, caller-owned objects or threads.",
     ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/eval/utils.py", "laplax/api.py", "laplax/curv/cov.py"],
     [("64-bit mode handling", "laplax/curv/lanczos.py, laplax/curv/lobpcg.py"),
      ("metric list composition", "laplax/eval/utils.py"), ("registries", "laplax/curv/cov.py")],
     ["configuration snapshots around and during calls, deep snapshots of arguments, per-thread results"],
     [{"name": "jax_enable_x64", "meaning": "process-wide precision switch", "where": "jax.config"}])

prop("C19", "Registered methods are used exactly as registered",
     "After registering a curvature method, estimating curvature, building the posterior and evaluating its marginal likelihood under that name call exactly the supplied functions and, for each function not supplied, the default type's own, with results identical to calling them directly. Registering never changes the behaviour of any other method, re-registering a name replaces it, and a registration that has neither a default nor all functions is rejected without effect. Registered calibration methods are selected by name, and unknown names are rejected.",
     ["histories", "configurations"],
     "all subsets of supplied functions, defaults, sequences of registrations and uses",
     "Tests register one full set of functions and one default; subsets, isolation and sequences are not covered.",
     ["laplax/register.py", "laplax/curv/cov.py", "laplax/eval/likelihood.py", "laplax/api.py"],
     [("method registries", "laplax/register.py")],
     ["call log of registered functions", "results of other methods before/after"])

prop("C20", "Results are the same eager, jitted, vmapped and in either precision",
     "Curvature products, posteriors, both kinds of predictive and the marginal likelihood give the same values when called eagerly, under jit, under vmap over inputs versus one at a time, and with prior arguments given as Python numbers or traced arrays, up to rounding. Results computed in 32-bit and 64-bit mode agree to 32-bit accuracy and keep the ambient precision. Differentiating the marginal likelihood or a predictive variance with respect to the prior precision gives its true derivative.",
     ["inputs", "configurations"],
     "all models, posteriors, inputs and prior arguments; all combinations of eager/jit/vmap/grad and precision",
     "Tests fix one execution mode per case and 32-bit precision.",
     ["laplax/curv/cov.py", "laplax/eval/pushforward.py", "laplax/eval/likelihood.py", "laplax/curv/ggn.py"],
     [("pure functional construction", "laplax/curv/cov.py, laplax/eval/pushforward.py")],
     ["values across execution modes"])

prop("C21", "Posterior GP kernel is the consistent covariance between inputs",
     "For every model, posterior and pair of inputs, the posterior kernel equals J(x1) Sigma J(x2)^T, as a product with a vector and as a dense matrix; swapping the inputs transposes it, the Gram matrix over any set of inputs is positive semi-definite, and on equal inputs it equals the linearized predictive covariance. Requesting a dense kernel without an output layout is rejected.",
     ["inputs", "configurations"],
     "all models, curvature types, prior arguments, input pairs and sets, output layouts",
     "Tests do not evaluate the kernel off the diagonal or against an oracle.",
     ["laplax/eval/pushforward.py"],
     [("kernel product", "laplax/eval/pushforward.py:set_posterior_gp_kernel")],
     ["kernel values vs dense oracle"])

prop("C22", "Invalid requests are rejected, never silently answered",
     "Requests the documentation declares invalid always raise an error of the documented kind instead of returning a value: neither or both of loss and loss-Hessian, unknown losses, curvature types, predictive, pushforward, objective or calibration names, unsupported combinations (chi-squared for classification, calibration error for regression, closed-form predictives with sampling pushforward), malformed batches, empty loaders, missing or empty metrics, incompatible metric shapes, and missing layouts, keys or registry functions. Valid requests to the high-level entry points that differ only in letter case of an option name (curvature type, predictive, pushforward, calibration objective or method, metric suite), or in using an enum member instead of its string, are accepted with the same result.",
     ["inputs", "configurations"],
     "all invalid and boundary-valid combinations of options around valid calls",
     "Tests check two or three error paths.",
     ["laplax/api.py", "laplax/curv/ggn.py", "laplax/curv/utils.py", "laplax/eval/utils.py", "laplax/eval/metrics.py", "laplax/register.py"],
     [("validation helpers", "laplax/api.py"), ("argument checks", "laplax/curv/ggn.py, laplax/eval/utils.py")],
     ["exception type or returned value"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
