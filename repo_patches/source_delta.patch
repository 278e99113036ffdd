From e215160edf39c715d7137e004818c5ef2ed7b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 01/32] fix: keep the 64-bit switch of the low-rank methods
 local and exception-safe

The process-wide flag stayed on when the operator or the arguments raised, and
other threads saw it flip while a low-rank approximation was running.
---
 laplax/curv/lanczos.py | 81 +++++++++++++++++++-------------------
 laplax/curv/lobpcg.py  | 88 +++++++++++++++++++++---------------------
 2 files changed, 84 insertions(+), 85 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..e292a25 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 
 from laplax.curv.utils import LowRankTerms, get_matvec
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
@@ -198,47 +199,47 @@ def lanczos_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
-
-    # Obtain a uniform matrix-vector multiplication function.
-    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-
-    # Wrap to_dtype around mv if necessary.
-    if mv_dtype != calc_dtype:
-        matvec = wrap_function(
+    # Only this thread is switched, and the switch is undone if anything raises.
+    with enable_x64(calc_dtype == jnp.float64):
+        # Obtain a uniform matrix-vector multiplication function.
+        matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
+
+        # Wrap to_dtype around mv if necessary.
+        if mv_dtype != calc_dtype:
+            matvec = wrap_function(
+                matvec,
+                input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+                output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+            )
+
+        # Initialize starting vector.
+        if b is not None:
+            b = jnp.asarray(b, dtype=calc_dtype)
+        elif key is not None:
+            b = jax.random.normal(key, (size,), dtype=calc_dtype)
+        else:
+            msg = "Either key or b must be provided"
+            raise ValueError(msg)
+
+        # Run Lanczos iterations.
+        alpha, beta, V = lanczos_iterations(
             matvec,
-            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+            b,
+            maxiter=rank,
+            tol=tol,
+            full_reorthogonalize=full_reorthogonalize,
+            dtype=calc_dtype,
+            mv_jit=mv_jit,
+        )
+        eigvals, eigvecs = compute_eigendecomposition(
+            alpha, beta, V, compute_vectors=True
+        )
+
+        # Prepare and convert the results
+        low_rank_result = LowRankTerms(
+            U=jnp.asarray(eigvecs, dtype=return_dtype),
+            S=jnp.asarray(eigvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
         )
 
-    # Initialize starting vector.
-    if b is not None:
-        b = jnp.asarray(b, dtype=calc_dtype)
-    elif key is not None:
-        b = jax.random.normal(key, (size,), dtype=calc_dtype)
-    else:
-        msg = "Either key or b must be provided"
-        raise ValueError(msg)
-
-    # Run Lanczos iterations.
-    alpha, beta, V = lanczos_iterations(
-        matvec,
-        b,
-        maxiter=rank,
-        tol=tol,
-        full_reorthogonalize=full_reorthogonalize,
-        dtype=calc_dtype,
-        mv_jit=mv_jit,
-    )
-    eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
-
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigvecs, dtype=return_dtype),
-        S=jnp.asarray(eigvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
     return low_rank_result
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..b333ebd 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -67,6 +67,7 @@ import warnings
 
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 from jax.experimental.sparse import linalg
 from jax.experimental.sparse.linalg import (
     _check_inputs,  # noqa: PLC2701
@@ -356,52 +357,49 @@ def lobpcg_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
-
-    # Obtain a matrix-vector multiplication function.
-    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-
-    # Obtain a matrix-matrix product function.
-    matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
-
-    # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
-        rank = max(1, size // 5 - 1)
-        msg = f"reduced rank to {rank} due to insufficient size"
-        warnings.warn(msg, stacklevel=1)
-
-    # Wrap to_dtype around mv if necessary.
-    if mv_dtype != calc_dtype:
-        matmat = wrap_function(
-            matmat,
-            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+    # Only this thread is switched, and the switch is undone if anything raises.
+    with enable_x64(calc_dtype == jnp.float64):
+        # Obtain a matrix-vector multiplication function.
+        matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
+
+        # Obtain a matrix-matrix product function.
+        matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
+
+        # Adjust rank if it's too large compared to problem size
+        if size < rank * 5:
+            rank = max(1, size // 5 - 1)
+            msg = f"reduced rank to {rank} due to insufficient size"
+            warnings.warn(msg, stacklevel=1)
+
+        # Wrap to_dtype around mv if necessary.
+        if mv_dtype != calc_dtype:
+            matmat = wrap_function(
+                matmat,
+                input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+                output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+            )
+
+        # Initialize random search directions
+        if key is None:
+            key = jax.random.key(0)
+        X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
+
+        # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
+        eigenvals, eigenvecs, _ = lobpcg_standard(
+            A=matmat,
+            X=X,
+            m=rank,
+            tol=tol,
+            calc_dtype=calc_dtype,
+            a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
+            A_jit=mv_jit,
         )
 
-    # Initialize random search directions
-    if key is None:
-        key = jax.random.key(0)
-    X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
-
-    # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
-    eigenvals, eigenvecs, _ = lobpcg_standard(
-        A=matmat,
-        X=X,
-        m=rank,
-        tol=tol,
-        calc_dtype=calc_dtype,
-        a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
-        A_jit=mv_jit,
-    )
-
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigenvecs, dtype=return_dtype),
-        S=jnp.asarray(eigenvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
+        # Prepare and convert the results
+        low_rank_result = LowRankTerms(
+            U=jnp.asarray(eigenvecs, dtype=return_dtype),
+            S=jnp.asarray(eigenvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
 
     return low_rank_result
-- 
2.43.0


From a4f0d93cf8fb13fc470af74f753a54669686f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 02/32] fix: reduce the LOBPCG rank when the size equals five
 times the rank

LOBPCG requires 5 * rank < size, so the boundary case raised.
---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index b333ebd..c35b123 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -366,7 +366,7 @@ def lobpcg_lowrank(
         matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
         # Adjust rank if it's too large compared to problem size
-        if size < rank * 5:
+        if size <= rank * 5:
             rank = max(1, size // 5 - 1)
             msg = f"reduced rank to {rank} due to insufficient size"
             warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From 4c3ee58ce48dc6da966cc7332d983b1959641a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 03/32] fix: do not repeat a Lanczos vector after breakdown

Repeating it counted its curvature once per remaining iteration; a zero vector
contributes nothing.
---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index e292a25..95d86ec 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -67,7 +67,7 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
+            lambda _: jnp.zeros_like(v),  # In degenerate cases, no progress is made.
             operand=None,
         )
         alpha = alpha.at[i].set(a)
-- 
2.43.0


From 289846aaf56e6641adbacf7a6cc1dfa93a2be354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 04/32] fix: apply the loss scaling factor to the low-rank
 eigenvalues

Only the prior term was scaled, unlike for the full and diagonal precision.
---
 laplax/curv/low_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/low_rank.py b/laplax/curv/low_rank.py
index 411a388..d8bab0e 100644
--- a/laplax/curv/low_rank.py
+++ b/laplax/curv/low_rank.py
@@ -143,7 +143,7 @@ def low_rank_curvature_to_precision(
     U, S, _ = jax.tree.leaves(curv_estimate)
     return LowRankTerms(
         U=U,
-        S=(sigma_squared * S),
+        S=(sigma_squared * S) / loss_scaling_factor,
         scalar=prior_prec / loss_scaling_factor,
     )
 
-- 
2.43.0


From 23a07c2e4ed455acfcc989913cbafda5ce416c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 05/32] fix: use the documented log-determinant for low-rank
 evidence

The prior term counted the rank instead of the parameters and the eigenvalues
were multiplied by the prior precision instead of divided.
---
 laplax/eval/likelihood.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laplax/eval/likelihood.py b/laplax/eval/likelihood.py
index b25b52b..8d78587 100644
--- a/laplax/eval/likelihood.py
+++ b/laplax/eval/likelihood.py
@@ -235,11 +235,10 @@ def low_rank_marginal_log_likelihood(
     )
 
     # Log det of posterior precision
-    rank = posterior_precision.S.shape[0]
-    log_det_H = rank * jnp.log(posterior_precision.scalar) + jnp.sum(
-        jnp.log(1 + posterior_precision.scalar * posterior_precision.S)
-    )
     param_count = get_size(params)
+    log_det_H = param_count * jnp.log(posterior_precision.scalar) + jnp.sum(
+        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
+    )
     evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H
 
     # Compute the marginal log-likelihood
-- 
2.43.0


From ad18becd7df1372fadc3932c958972723ea3e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 06/32] fix: make the (binary) cross-entropy of model and loss
 a summed scalar

Cross-entropy used the elementwise sigmoid loss, returned an array, and did not
accept class indices; binary cross-entropy was documented but unknown. The
Hessian and the marginal likelihood failed for both.
---
 laplax/curv/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 4c44a20..a57b8ec 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -182,7 +182,22 @@ def concatenate_model_and_loss_fn(
         def loss_wrapper(
             input: InputArray, target: TargetArray, params: Params
         ) -> Num[Array, "..."]:
-            return log_sigmoid_cross_entropy(model_fn(input, params), target)
+            logits = model_fn(input, params)
+            if target.ndim < logits.ndim:  # Class indices
+                target = jax.nn.one_hot(target, logits.shape[-1], dtype=logits.dtype)
+            return -jnp.sum(target * jax.nn.log_softmax(logits, axis=-1))
+
+        return loss_wrapper
+
+    if loss_fn == LossFn.BINARY_CROSS_ENTROPY:
+
+        def loss_wrapper(
+            input: InputArray, target: TargetArray, params: Params
+        ) -> Num[Array, "..."]:
+            logits = model_fn(input, params)
+            return jnp.sum(
+                log_sigmoid_cross_entropy(logits, target.reshape(logits.shape))
+            )
 
         return loss_wrapper
 
-- 
2.43.0


From c3357b5e8d333309dcbc155f44a2279b7eb8fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 07/32] fix: scale the fitted curvature from the curvature
 samples to the total

The ratio was inverted with respect to the GGN and Hessian products.
---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..9848644 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -665,11 +665,11 @@ def laplace(
     curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
 
     # Calculate factor
-    factor = float(num_curv_samples) / float(num_total_samples)
+    factor = float(num_total_samples) / float(num_curv_samples)
     logger.debug(
         "Creating curvature MV - factor = {}/{} = {}",
-        num_curv_samples,
         num_total_samples,
+        num_curv_samples,
         factor,
     )
 
-- 
2.43.0


From cc7db15a8b4e9fa419a2a77d23ec9214382b19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/32] fix: treat a list batch as one batch when fitting
 curvature

It was streamed as if its input and target were batches, which silently used
two input examples and two targets as data.
---
 laplax/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 9848644..39be55a 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -175,7 +175,10 @@ def _maybe_wrap_loader_or_batch(
         else transform
     )
 
-    if isinstance(data, (tuple, dict)):
+    if isinstance(data, (tuple, dict)) or (
+        # A list is a batch `[input, target]`, unless it holds batches itself.
+        isinstance(data, list) and not isinstance(data[0], (tuple, dict, list))
+    ):
         logger.debug("Using *single batch* curvature evaluation.")
         return partial(mv_fn, data=transform(data))
 
-- 
2.43.0


From c4312df5cce5676c446f972f6f0e705a4ae91d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/32] fix: do not drop the first batch of an iterator in
 evaluation

---
 laplax/api.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 39be55a..dd1fa0f 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -956,9 +957,13 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    if is_data_loader:
+        batches = iter(data)
+        first_batch = next(batches)
+        data = chain([first_batch], batches)  # Put it back for one-shot iterators.
+        transform = _validate_and_get_transform(first_batch)
+    else:
+        transform = _validate_and_get_transform(data)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From e8b34bac7295428d206b6537db2246fb57ba0874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 10/32] fix: apply the requested reduction to metrics evaluated
 on a loader

It was ignored, unlike for a single batch.
---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index dd1fa0f..61066ca 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -971,7 +971,7 @@ def evaluation(
             data_generator=cast("Iterator[Data]", data),
             metrics=metrics_list,
             transform=transform,
-            reduce=jnp.concatenate,
+            reduce=lambda res: reduce(jnp.concatenate(res)),
             has_batch=True,
         )
     else:
-- 
2.43.0


From 4c9a21803a0f1ef8162aaf4a5e188d98bc119214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 11/32] fix: let the default classification metrics accept the
 other predictions

The Gaussian likelihood entry raised a TypeError for every evaluation.
---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 61066ca..ff8bbf3 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -532,7 +532,7 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs: nll_gaussian(  # noqa: ARG005
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From 54c629925e19be60dca6648ec70ccc0f5c6c54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 12/32] fix: report the class prediction of the sampling
 pushforward

The calibration error objective and the classification metrics need it.
---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index ff8bbf3..eae73eb 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -283,6 +283,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From 2dead0ca3e0c20f07d3e30f04e77a4cffcd8138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 13/32] fix: accept option names in any case in calibration as
 in the other calls

---
 laplax/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/laplax/api.py b/laplax/api.py
index eae73eb..9ea86aa 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -783,6 +783,9 @@ def calibration(
 
         - GRID_SEARCH: Grid search over prior precision
     """
+    curv_type = _convert_to_enum(CurvApprox, curv_type, str_default=True)
+    predictive_type = _convert_to_enum(Predictive, predictive_type)
+
     # If task is classification, then no NLL objective
     is_classification = predictive_type != Predictive.NONE
 
-- 
2.43.0


From 1b4be57568bf6909d8cb103978434bebb31da1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 14/32] fix: take the class axis of the Laplace bridge from the
 documented layout

It read axis 1, which does not exist for the logits of one example, and
normalised over all axes instead of over the classes.
---
 laplax/eval/predictives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..16947a9 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
@@ -47,7 +47,7 @@ def dirichlet_predictive(dirichlet_params: jax.Array) -> jax.Array:
     Returns:
         The predictive.
     """
-    predictive = dirichlet_params / jnp.sum(dirichlet_params)  # [C, ...]
+    predictive = dirichlet_params / jnp.sum(dirichlet_params, axis=0)  # [C, ...]
 
     return predictive
 
-- 
2.43.0


From bf80b4be2ba49e8a16c9288be5035fed3b10a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 15/32] fix: fall back to the ensemble variance in the
 nonlinear special predictives

---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..9dc5e15 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -113,8 +113,9 @@ def special_pred_act(
     if special_pred_type in var_pred_dict:
         pred_fn = var_pred_dict[special_pred_type]
 
-        if "pred_var" not in results:  # Fall back to `lin_pred_var`
-            results, aux = lin_pred_var(results, aux, **kwargs)
+        if "pred_var" not in results:  # Fall back to `(non)lin_pred_var`
+            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
+            results, aux = pred_var_fn(results, aux, **kwargs)
 
         pred_var = results["pred_var"]
 
-- 
2.43.0


From 7a2f2022c72501d49df3b6c87246346fb0a8f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 16/32] fix: accept the general precompute option for weight
 samples

It was passed on twice and raised a TypeError.
---
 laplax/eval/pushforward.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 9dc5e15..c9e52d7 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -79,12 +79,11 @@ def set_get_weight_sample(
     def get_weight_sample(idx):
         return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
 
+    precompute = kwargs.pop("precompute", None)
     return precompute_list(
         get_weight_sample,
         jnp.arange(num_samples),
-        precompute=kwargs.get(
-            "set_get_weight_sample_precompute", kwargs.get("precompute")
-        ),
+        precompute=kwargs.get("set_get_weight_sample_precompute", precompute),
         **kwargs,
     )
 
-- 
2.43.0


From a245e2d331ce132cf95146ccc3cf9e32fabbcf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 17/32] fix: normalise the ensemble covariance like the
 ensemble variance

Variance and standard deviation changed when the covariance was also requested.
---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index c9e52d7..dadc798 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -301,7 +301,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
     )
     return results, aux
 
-- 
2.43.0


From 540cdc362f069065f4ec174af4e8a59f02838fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 18/32] fix: flatten the output axes of the linearized
 covariance

It came out with reversed axes for outputs of rank two or more, and the variance
could not be taken from it.
---
 laplax/eval/pushforward.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index dadc798..d59c979 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -662,7 +662,11 @@ def lin_pred_cov(
     pred_mean = results["pred_mean"]
     cov_mv = aux["cov_mv"]
 
-    results["pred_cov"] = util.mv.to_dense(cov_mv, layout=pred_mean)
+    pred_cov = util.mv.to_dense(cov_mv, layout=pred_mean)
+    if pred_mean.ndim > 1:  # Flatten the output axes
+        size = math.prod(pred_mean.shape)
+        pred_cov = pred_cov.T.reshape(size, size).T
+    results["pred_cov"] = pred_cov
     return results, aux
 
 
-- 
2.43.0


From 6174301940c6e915314ced8daa038e7f2957102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 19/32] fix: accept array layouts for the dense posterior
 kernel

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index d59c979..9915498 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -1007,7 +1007,7 @@ def set_posterior_gp_kernel(
 
     if kwargs.get("dense"):
         output_layout = kwargs.get("output_layout")
-        if output_layout:
+        if output_layout is not None:
             return lambda x1, x2: util.mv.to_dense(
                 lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout
             ), dist_state
-- 
2.43.0


From 938d9d850d175d32efe54b53d192aa8af324e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 20/32] fix: stop the grid search after max_iterations
 evaluations

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From 6ff2ddc4dab5250ff8197cf56e6fa05a1f4821df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 21/32] fix: accept boolean correctness in the calibration
 errors

---
 laplax/eval/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index af1fc1c..97338ba 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -191,7 +191,7 @@ def calculate_bin_metrics(
 
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
-    bin_accuracies = jnp.zeros(num_bins, dtype=correctness.dtype)
+    bin_accuracies = jnp.zeros(num_bins, dtype=confidence.dtype)
 
     bin_counts = bin_counts.at[indices].add(1)
     bin_confidences = bin_confidences.at[indices].add(confidence)
-- 
2.43.0


From 29f9651b322e7cd8885724948d498e32561f4234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 22/32] fix: do not append to the metric list of the caller

---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From baffd24240cc5144a8925a9db288e31820ce669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 23/32] fix: support integer layouts in the full curvature
 estimate

---
 laplax/curv/full.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..6979efe 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -48,10 +48,12 @@ def create_full_curvature(
         )
         logger.warning(msg)
         mv_wrapped = mv
+        size = layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From 57bd4088937d54319089c78473c3e58718f921ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 24/32] fix: accept the documented options for the diagonal of
 a streaming product

---
 laplax/util/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/util/loader.py b/laplax/util/loader.py
index 1fdae31..519e11a 100644
--- a/laplax/util/loader.py
+++ b/laplax/util/loader.py
@@ -363,13 +363,13 @@ def _(mv: DataLoaderMV, layout: Layout, **kwargs: Kwargs) -> Array:
 
 
 @diagonal.register
-def _(mv: DataLoaderMV, layout: Layout | None = None) -> Array:
+def _(mv: DataLoaderMV, layout: Layout | None = None, **kwargs: Kwargs) -> Array:
     """Apply diagonal to DataLoaderMV.
 
     Returns:
         The result of applying the function to the data loader.
     """
-    return mv.lower_func(diagonal, layout=layout)
+    return mv.lower_func(diagonal, layout=layout, **kwargs)
 
 
 @wrap_function.register
-- 
2.43.0


From 41f1fa312c061157dadb973e4e0cfba7244793d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 25/32] fix: keep the three-term recurrence of Lanczos without
 full reorthogonalization

---
 laplax/curv/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 95d86ec..24ad0b9 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -58,6 +58,7 @@ def lanczos_iterations(
     def iteration_step(v, w, alpha, beta, V, i):
         a = jnp.dot(v, w)
         w = w - a * v
+        w = w - jnp.where(i > 0, beta[i - 1], 0.0) * V[i - 1]
         if full_reorthogonalize:
             w = reorthogonalize(w, V, i)
             w = reorthogonalize(w, V, i)
-- 
2.43.0


From a1c0fc33cec8c31d0d771c962f34b23d43e30395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 26/32] fix: report the covariance of a one-member ensemble
 over outputs, not samples

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 9915498..4e28650 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -301,7 +301,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1).T, ddof=0
     )
     return results, aux
 
-- 
2.43.0


From 431c6123c28518dffc30e9bdd67690dcd011d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 27/32] fix: keep the Laplace bridge finite for confident
 logits

---
 laplax/eval/predictives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index 16947a9..5c9da3f 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -27,15 +27,15 @@ def laplace_bridge(
         mean = mean / jnp.sqrt(c_expanded)  # [C, ...]
         var = var / c_expanded  # [C, ...]
 
-    # Laplace bridge
-    sum_exp_neg_mean_p = jnp.sum(jnp.exp(-mean), axis=0)  # [...]
-    sum_exp_neg_mean_p_expanded = jnp.expand_dims(
-        sum_exp_neg_mean_p, axis=0
+    # Laplace bridge. The Dirichlet parameters are scaled by a common factor, which
+    # cancels in the predictive, to keep the exponentials finite.
+    max_mean = jnp.max(mean, axis=0, keepdims=True)  # [1, ...]
+    log_scale = max_mean + jax.scipy.special.logsumexp(
+        -mean, axis=0, keepdims=True
     )  # [1, ...]
     dirichlet_params = (
-        1
-        - 2 / num_classes
-        + jnp.exp(mean) * sum_exp_neg_mean_p_expanded / (num_classes**2)
+        (1 - 2 / num_classes) * jnp.exp(-log_scale)
+        + jnp.exp(mean - max_mean) / (num_classes**2)
     ) / var  # [C, ...]
 
     return dirichlet_predictive(dirichlet_params)
-- 
2.43.0


From c48775b00b010951d63267b2ec688c5631052497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 28/32] fix: do not pass a stray keyword to the metrics of a
 loader in evaluation()

---
 laplax/api.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 9ea86aa..91e0d8f 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -976,7 +976,6 @@ def evaluation(
             metrics=metrics_list,
             transform=transform,
             reduce=lambda res: reduce(jnp.concatenate(res)),
-            has_batch=True,
         )
     else:
         results = evaluate_metrics_on_dataset(
-- 
2.43.0


From f35a2690c069e99e0aebf5e5bab22fc88ba1c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 29/32] fix: read the blocks of tree_matvec in the order of
 jax.hessian

---
 laplax/util/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/util/tree.py b/laplax/util/tree.py
index ab82b3c..1d234d4 100644
--- a/laplax/util/tree.py
+++ b/laplax/util/tree.py
@@ -183,7 +183,7 @@ def tree_matvec(tree: PyTree, vector: Array) -> PyTree:
     arr_flatten = [
         jnp.concatenate(
             [
-                arr_flatten[i * num_vec_flatten + j].reshape(*vec_flatten[j].shape, -1)
+                arr_flatten[j * num_vec_flatten + i].reshape(*vec_flatten[j].shape, -1)
                 for i in range(num_vec_flatten)
             ],
             axis=-1,
-- 
2.43.0


From a1b5ba725a4cc11abeab21f707b13001bded0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 30/32] fix: basis vectors of trees with empty leaves

---
 laplax/util/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laplax/util/tree.py b/laplax/util/tree.py
index 1d234d4..128057d 100644
--- a/laplax/util/tree.py
+++ b/laplax/util/tree.py
@@ -312,6 +312,8 @@ def basis_vector_from_index(idx: int, tree: PyTree) -> PyTree:
 
     # Define a function to update the k-th array with the basis vector
     def update_array(i, arr):
+        if arr.size == 0:  # No entry can be set.
+            return arr
         return jax.lax.cond(
             i == k,
             lambda: arr.flatten().at[idx_corr].set(1.0).reshape(arr.shape),
-- 
2.43.0


From 9bd769c10877b8942ee40028bcd95ad4799f43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 31/32] fix: a curvature registration with an unknown default
 leaves no partial entries

---
 laplax/register.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/laplax/register.py b/laplax/register.py
index 220064e..3f29917 100644
--- a/laplax/register.py
+++ b/laplax/register.py
@@ -90,6 +90,7 @@ def register_curvature_method(
 
     Raises:
         ValueError: If no default is provided and required functions are missing.
+        KeyError: If the default is not a registered method.
     """
     # Check whether default is given
     if default is None and not all((
@@ -129,6 +130,11 @@ def register_curvature_method(
         )
         raise ValueError(msg)
 
+    # Reject an unknown default before anything is registered
+    if default is not None and default not in CURVATURE_METHODS:
+        msg = f"Unknown default method: {default}."
+        raise KeyError(msg)
+
     CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
     CURVATURE_PRECISION_METHODS[name] = (
         curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
-- 
2.43.0


From 62d001681396385e241ce350aada0225aa200a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 32/32] fix: let curvature be estimated under jit

---
 laplax/curv/cov.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/laplax/curv/cov.py b/laplax/curv/cov.py
index caedf42..7d2cf97 100644
--- a/laplax/curv/cov.py
+++ b/laplax/curv/cov.py
@@ -122,12 +122,7 @@ def estimate_curvature(
     curv_estimate = CURVATURE_METHODS[curv_type](mv, layout=layout, **kwargs)
 
     # Ignore lazy evaluation
-    curv_estimate = jax.tree.map(
-        lambda x: x.block_until_ready() if isinstance(x, jax.Array) else x,
-        curv_estimate,
-    )
-
-    return curv_estimate
+    return jax.block_until_ready(curv_estimate)
 
 
 def set_posterior_fn(
-- 
2.43.0

