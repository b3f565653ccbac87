From 5a211d2659476f2bf333e98840fb7497adf3bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 01/38] fix: conformal classification sets must keep labels
 with low non-conformity scores

---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From 2c889408923226e07b1510d3d59ca1a274ca776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 02/38] fix: EnbPI must take in every residual of the new
 batch, without overwriting the given ones

---
 fortuna/conformal/regression/enbpi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..b6fb142 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,12 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        new_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        train_residuals = np.concatenate((train_residuals, new_residuals))[
+            -len(train_residuals) :
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From cdfefb249e78b328f33f31bfeec4d217a7b634e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 03/38] fix: std of a probabilistic output layer must be the
 square root of the given variances

---
 fortuna/prob_output_layer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..565dff2 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,7 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        return jnp.sqrt(self.variance(outputs) if variances is None else variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
-- 
2.43.0


From bfc87be1e1feb3ffcc274d499bf52b0539db4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 04/38] fix: predictive sampling must accept a random key, and
 return the auxiliary outputs it is asked for

---
 fortuna/prob_model/predictive/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..187b921 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -353,7 +353,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
@@ -381,10 +381,10 @@ class Predictive(WithRNG):
                         aux_outputs.append(
                             self.likelihood._unshard_array(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -397,10 +397,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From fbdd4b69f864183c09650cec2056d2d3ad1fe284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 05/38] fix: CV+ regression must not rewrite the lists of its
 caller

---
 fortuna/conformal/regression/cvplus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..fb513ee 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,10 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        # never rewrite the lists of the caller
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From a5fd58afaa159459aba94b47419942f70a14c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 06/38] fix: adaptive conformal methods must recognise scalar
 and one-element targets as members

---
 .../conformal/classification/adaptive_conformal_classifier.py   | 2 +-
 fortuna/conformal/regression/adaptive_conformal_regressor.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/classification/adaptive_conformal_classifier.py b/fortuna/conformal/classification/adaptive_conformal_classifier.py
index 21c372c..45238f2 100644
--- a/fortuna/conformal/classification/adaptive_conformal_classifier.py
+++ b/fortuna/conformal/classification/adaptive_conformal_classifier.py
@@ -110,7 +110,7 @@ class AdaptiveConformalClassifier(ConformalClassifier):
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], [conformal_set])
+        is_in = self.is_in(target.reshape(1), [conformal_set])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
diff --git a/fortuna/conformal/regression/adaptive_conformal_regressor.py b/fortuna/conformal/regression/adaptive_conformal_regressor.py
index 15fb66f..101e0f0 100644
--- a/fortuna/conformal/regression/adaptive_conformal_regressor.py
+++ b/fortuna/conformal/regression/adaptive_conformal_regressor.py
@@ -107,7 +107,7 @@ class AdaptiveConformalRegressor:
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], conformal_interval[None])[0]
+        is_in = self.is_in(target.reshape(1), conformal_interval[None])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
-- 
2.43.0


From 813cba0064f02899249a9795815ca7f5c8164399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 07/38] fix: multivalid calibration must keep the patch it
 converged with, and initialise values when there is none

---
 fortuna/conformal/multivalid/iterative/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..8828bb3 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -267,6 +267,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             if val_losses[-1] <= atol:
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             if val_losses[-1] > val_losses[-2]:
@@ -280,6 +281,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 and (val_losses[-2] - val_losses[-1]) / val_losses[-2] <= rtol
             ):
                 logging.info(f"Relative tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             old_losses = jnp.copy(losses)
@@ -331,13 +333,13 @@ class IterativeMultivalidMethod(MultivalidMethod):
             raise ValueError(
                 "At least one between `groups` and `values` must be provided."
             )
+        values = self._maybe_init_values(
+            values, groups.shape[0] if groups is not None else None
+        )
         if not len(self._patches):
             logging.warning("No patches available.")
             return values
 
-        values = self._maybe_init_values(
-            values, groups.shape[0] if groups is not None else None
-        )
         self._maybe_check_values(values)
 
         groups = self._init_groups(groups, values.shape[0])
-- 
2.43.0


From 6f6bc1a1dae5f71c081d6891976a25d6e886ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 08/38] fix: the loss of a one-dimensional multicalibrator must
 be a mean, as its name and the other cases say

---
 fortuna/conformal/multivalid/mixins/multicalibrator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/multicalibrator.py b/fortuna/conformal/multivalid/mixins/multicalibrator.py
index ac0f691..c90dc56 100644
--- a/fortuna/conformal/multivalid/mixins/multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/multicalibrator.py
@@ -27,5 +27,4 @@ class MulticalibratorMixin:
     def _loss_fn(values: Array, scores: Array) -> Array:
         if scores.ndim == 2 and values.ndim == 1:
             scores = scores[:, 0]
-            return jnp.mean(jnp.sum((values - scores) ** 2, axis=-1))
         return jnp.mean((values - scores) ** 2)
-- 
2.43.0


From 63ced5f7b89c17fdde4438d4ae0ca7493a2b0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 09/38] fix: multiplicative patches must not turn zero values
 into nan

---
 fortuna/conformal/multivalid/iterative/multicalibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/multicalibrator.py b/fortuna/conformal/multivalid/iterative/multicalibrator.py
index 8db676c..84bee29 100644
--- a/fortuna/conformal/multivalid/iterative/multicalibrator.py
+++ b/fortuna/conformal/multivalid/iterative/multicalibrator.py
@@ -142,7 +142,8 @@ class Multicalibrator(MulticalibratorMixin, IterativeMultivalidMethod):
                 values=values,
                 n_buckets=len(buckets),
             )
-            return ey / self._get_mean_values(values, b, c)
+            mean_values = self._get_mean_values(values, b, c)
+            return jnp.where(mean_values > 0, ey / mean_values, 1.0)
 
     @staticmethod
     def _get_mean_values(values: Array, b: Array, c: Array):
-- 
2.43.0


From c9c593117d6c6d3943573d32429a3701e2001871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 10/38] fix: the calibration error of BatchMVP must accept its
 default thresholds

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..eadb76d 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -279,7 +279,7 @@ class BatchMVPConformalMethod(
     def _maybe_check_values(
         values: Optional[Array], test_values: Optional[Array] = None
     ):
-        if jnp.any(values < 0) or jnp.any(values > 1):
+        if values is not None and (jnp.any(values < 0) or jnp.any(values > 1)):
             raise ValueError("All elements in `thresholds` must be within [0, 1].")
 
     @staticmethod
-- 
2.43.0


From 7dec896e1c9df5b3bed85125a59035e9a7eb7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 11/38] fix: binary multicalibration must accept targets that
 are all equal

---
 .../multivalid/mixins/classification/binary_multicalibrator.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py b/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py
index de100ae..63605b2 100644
--- a/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py
@@ -35,7 +35,7 @@ class BinaryClassificationMulticalibratorMixin(MulticalibratorMixin):
     def _check_scores(scores: Array):
         if scores.ndim != 1:
             raise ValueError("`targets` must be a 1-dimensional array of integers.")
-        if set(jnp.unique(scores).tolist()) != {0, 1}:
+        if not set(jnp.unique(scores).tolist()) <= {0, 1}:
             raise ValueError("All values in `targets` must be 0 or 1.")
         if scores.dtype not in ["int32", "int64"]:
             raise ValueError("All elements in `targets` must be integers")
-- 
2.43.0


From a57f1393d269df09b8f20693a1a56ab9032ca8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 12/38] fix: one-shot multicalibration must patch each value by
 its own bucket, whatever the rest of the batch

---
 fortuna/conformal/multivalid/one_shot/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index 1a73f40..15cc16c 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -136,14 +136,15 @@ class OneShotMultivalidMethod(MultivalidMethod):
         for i, v in enumerate(unique_values):
             for c in range(b.shape[2]):
                 idx_v = jnp.argmin(jnp.abs(buckets - v))
+                # only the entries equal to `v`: their neighbours may belong to another bucket
                 if values.ndim == 1:
-                    patched_values = patched_values.at[b[:, i, c]].set(
+                    patched_values = patched_values.at[b[:, i, c] & (values == v)].set(
                         self._patches[idx_v, c]
                     )
                 else:
-                    patched_values = patched_values.at[b[:, i, c], c].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] & (values[:, c] == v), c
+                    ].set(self._patches[idx_v, c])
         return patched_values
 
     @abc.abstractmethod
-- 
2.43.0


From 2839655e5abd9ca9c07061a4b3f0133ad0c9b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:29 +0000
Subject: [PATCH 13/38] fix: the true negative coverage must count the points
 its precision is about

---
 .../classification/maxcovfixprec_binary_classfication.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
index df57741..82c0dbd 100644
--- a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
+++ b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
@@ -117,7 +117,7 @@ class MaxCoverageFixedPrecisionBinaryClassificationCalibrator:
 
     @staticmethod
     def true_negative_coverage(probs: Array, threshold: float):
-        return jnp.mean(probs <= threshold)
+        return jnp.mean(probs <= 1 - threshold)
 
     @property
     def patches(self):
-- 
2.43.0


From 5f8ff92db8b8a5fd6f67c75753f420fbca3ef1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:38 +0000
Subject: [PATCH 14/38] fix: multivalid calibration must never patch a set less
 probable than the given minimum

---
 fortuna/conformal/multivalid/iterative/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index 8828bb3..e0a0b4a 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -210,7 +210,8 @@ class IterativeMultivalidMethod(MultivalidMethod):
                     f"No further sets with probability at least `min_prob_b` left available."
                 )
                 break
-            calib_error_tau_g_v_c *= cond_b
+            # errors are not negative, so that an improbable set is never chosen
+            calib_error_tau_g_v_c = jnp.where(cond_b, calib_error_tau_g_v_c, -1.0)
 
             taut, gt, vt, ct, bt = self._get_taut_and_gt_and_vt_and_ct_and_bt(
                 calib_error_tau_g_v_c=calib_error_tau_g_v_c,
-- 
2.43.0


From b20b03ce9b5b7269070e5d12a4a293ab6715d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:00 +0000
Subject: [PATCH 15/38] fix: the maximum calibration error is the largest gap
 of a bin, not weighted by its count

---
 fortuna/metric/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/metric/classification.py b/fortuna/metric/classification.py
index 3b121f0..aa23e51 100755
--- a/fortuna/metric/classification.py
+++ b/fortuna/metric/classification.py
@@ -177,7 +177,7 @@ def maximum_calibration_error(
     counts, confs, accs = compute_counts_confs_accs(
         preds, probs, targets, plot, plot_options
     )
-    mce = jnp.max(counts * jnp.abs(accs - confs))
+    mce = jnp.max(jnp.abs(accs - confs))
     return mce
 
 
-- 
2.43.0


From 19e017f1f7a8f200a0108a1dbfa23963ec5a7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 16/38] fix: an unknown interval type must be named in the
 error it raises

---
 fortuna/prob_output_layer/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/regression.py b/fortuna/prob_output_layer/regression.py
index 6577fb8..4af9f7d 100644
--- a/fortuna/prob_output_layer/regression.py
+++ b/fortuna/prob_output_layer/regression.py
@@ -122,7 +122,7 @@ class RegressionProbOutputLayer(ProbOutputLayer):
         if interval_type not in supported_types:
             raise ValueError(
                 "`type={}` not recognised. Please choose among the following supported types: {}.".format(
-                    supported_types
+                    interval_type, supported_types
                 )
             )
         q = (
-- 
2.43.0


From 373f686fe05026a93562cb072eac8f535dc2e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 17/38] fix: a targets loader built from a data loader must be
 a targets loader

---
 fortuna/data/loader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..8d2a675 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -459,7 +459,7 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(iterable=IterableData.data_loader_to_targets_iterable(data_loader))
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From da6f876c658395b86b551c853f16e1e0d097c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 18/38] fix: a loader of a single batch must shuffle it when
 asked to

---
 fortuna/data/loader/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/data/loader/utils.py b/fortuna/data/loader/utils.py
index dee5c35..c03ec6d 100644
--- a/fortuna/data/loader/utils.py
+++ b/fortuna/data/loader/utils.py
@@ -83,7 +83,7 @@ class IterableData:
                 rng = np.random.default_rng(seed)
                 perm = rng.choice(data.shape[0], data.shape[0], replace=False)
             if batch_size is None:
-                yield data
+                yield data[perm] if shuffle else data
             else:
                 batches = np.split(
                     data[perm] if shuffle else data,
@@ -113,7 +113,7 @@ class IterableData:
                 rng = np.random.default_rng(seed)
                 perm = rng.choice(data[0].shape[0], data[0].shape[0], replace=False)
             if batch_size is None:
-                yield data
+                yield (data[0][perm], data[1][perm]) if shuffle else data
             else:
                 x_batches = np.split(
                     data[0][perm] if shuffle else data[0],
-- 
2.43.0


From 5bf1c27f6d33226632f8fcf359acb63ee0c77621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 19/38] fix: the size of a Hugging Face data loader must not
 count the dropped last batch

---
 fortuna/data/dataset/huggingface_datasets.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortuna/data/dataset/huggingface_datasets.py b/fortuna/data/dataset/huggingface_datasets.py
index ec536e4..178080d 100644
--- a/fortuna/data/dataset/huggingface_datasets.py
+++ b/fortuna/data/dataset/huggingface_datasets.py
@@ -119,10 +119,14 @@ class HuggingFaceClassificationDatasetABC(abc.ABC):
         HuggingFaceDataLoader
             The dataloader
         """
+        batch_size = per_device_batch_size * jax.local_device_count()
+        num_inputs = len(dataset)
+        if drop_last:
+            num_inputs -= num_inputs % batch_size
         iterable = IterableData.from_callable(
             lambda *args, **kwargs: self._get_data_loader(
                 dataset,
-                batch_size=per_device_batch_size * jax.local_device_count(),
+                batch_size=batch_size,
                 shuffle=shuffle,
                 drop_last=drop_last,
                 rng=rng,
@@ -131,7 +135,7 @@ class HuggingFaceClassificationDatasetABC(abc.ABC):
         )
         return HuggingFaceDataLoader(
             iterable=iterable,
-            num_inputs=len(dataset),
+            num_inputs=num_inputs,
             num_unique_labels=self.num_unique_labels,
         )
 
-- 
2.43.0


From d975b67cd8baa720bdcae9f68cfac065285b3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 20/38] fix: without a freeze function every path is trainable
 and none is frozen

---
 fortuna/utils/freeze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/freeze.py b/fortuna/utils/freeze.py
index a5c3c8f..3929394 100644
--- a/fortuna/utils/freeze.py
+++ b/fortuna/utils/freeze.py
@@ -126,6 +126,8 @@ def get_frozen_paths(
     Tuple[List[AnyKey], ...]
         A tuple of sequences of keys pointing to the frozen parameters only.
     """
+    if freeze_fun is None:
+        return tuple()
     return get_paths_with_label(
         params, freeze_fun, "frozen", allowed_labels=["frozen", "trainable"]
     )
@@ -145,4 +147,4 @@ def get_paths_with_label(
             [list(p) for c, p in zip(conds, flatten_dict(paths)) if c == label]
         )
     else:
-        return tuple([list(p) for p in paths])
+        return tuple([list(p) for p in flatten_dict(paths)])
-- 
2.43.0


From 23a9d58286cf0463ca2b449b613e8cb1cc7681c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 21/38] fix: keep the order of decoded key paths after a
 checkpoint restore

---
 fortuna/utils/strings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/strings.py b/fortuna/utils/strings.py
index f54e50a..bca8aca 100644
--- a/fortuna/utils/strings.py
+++ b/fortuna/utils/strings.py
@@ -36,6 +36,10 @@ def decode_encoded_tuple_of_lists_of_strings_to_array(
         return None
     encoded = tree_map(lambda v: "".join([chr(o) for o in v]), encoded)
     if isinstance(encoded, dict):
-        return tuple([list(v.values()) for k, v in encoded.items()])
+        # a restored checkpoint turns sequences into dictionaries keyed by the position
+        def _in_order(d: Dict) -> List:
+            return [d[k] for k in sorted(d, key=int)]
+
+        return tuple([_in_order(v) for v in _in_order(encoded)])
     else:
         return encoded
-- 
2.43.0


From 53d7f1f0368c503ca412a43035c6e0077be0cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 22/38] fix: pull a state from an explicit checkpoint directory

---
 fortuna/training/train_state_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 25cd7fd..8a459ad 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -74,11 +74,11 @@ class TrainStateRepository(WithCheckpointingMixin):
             prefix=prefix,
             **kwargs,
         )
-        if checkpoint_path or self.checkpoint_dir:
-            os.remove(
-                checkpoint_path
-                or self.get_path_latest_checkpoint(self.checkpoint_dir, prefix=prefix)
-            )
+        path = checkpoint_path or self.checkpoint_dir
+        if path:
+            if os.path.isdir(path):
+                path = self.get_path_latest_checkpoint(path, prefix=prefix)
+            os.remove(path)
         return state
 
     def update(
-- 
2.43.0


From 8d06ddcb8970c00cda824f2e3eccee95a61c9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 23/38] fix: put a state into every slot of a multi-state
 repository

---
 .../prob_model/posterior/posterior_multi_state_repository.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/posterior_multi_state_repository.py b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
index 734aacb..5b35a42 100644
--- a/fortuna/prob_model/posterior/posterior_multi_state_repository.py
+++ b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
@@ -68,7 +68,7 @@ class PosteriorMultiStateRepository:
             _put(i)
         else:
             for i in range(self.size):
-                state.append(_put(i))
+                _put(i)
 
     def pull(
         self,
-- 
2.43.0


From 617e149f7d633a1533b5169836912aa5e0509085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 24/38] fix: get every slot of a SGMCMC repository with
 selected parameters

---
 .../posterior/sgmcmc/sgmcmc_posterior_state_repository.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
index be34312..976f39a 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
@@ -119,7 +119,7 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
             return state
 
         if isinstance(state, list):
-            return [_update_state(_state, modify=modify) for _state in state]
+            return [self._update_state(_state, modify=modify) for _state in state]
 
         if modify == "add":
             state = state.replace(
@@ -154,6 +154,6 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
                 step=state.step,
             )
         else:
-            raise RuntimeError(f"Invalid update state method {method}.")
+            raise RuntimeError(f"Invalid update state method {modify}.")
 
         return state
-- 
2.43.0


From b36d811f3bc94c8482ea380f817b612f8bad6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 25/38] fix: restore an output calibration state without
 mutable

---
 fortuna/output_calib_model/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/output_calib_model/state.py b/fortuna/output_calib_model/state.py
index 9d10be6..d21e30e 100644
--- a/fortuna/output_calib_model/state.py
+++ b/fortuna/output_calib_model/state.py
@@ -103,7 +103,7 @@ class OutputCalibState(TrainState):
         }
         return cls.init(
             FrozenDict(d["params"]),
-            FrozenDict(d["mutable"]),
+            FrozenDict(d["mutable"]) if d["mutable"] is not None else None,
             optimizer,
             **kwargs,
         )
-- 
2.43.0


From 1af457ff516c795d64d6708a1c61c6b0c680907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 26/38] fix: save the states of ensembles and chains in the
 given directory

---
 .../deep_ensemble/deep_ensemble_posterior.py       |  7 ++++++-
 .../posterior/sgmcmc/sgmcmc_posterior.py           | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index bf72cdb..d6fb824 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -220,7 +220,12 @@ class DeepEnsemblePosterior(Posterior):
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
         for i in range(self.posterior_approximator.ensemble_size):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
 
     def _init_map_state(
         self, state: Optional[MAPState], data_loader: DataLoader, fit_config: FitConfig
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index b6de41e..0966e97 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -76,8 +76,20 @@ class SGMCMCPosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        checkpoint_dir = pathlib.Path(checkpoint_dir)
         for i in range(self.posterior_approximator.n_samples):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            state = self.state.get(i)
+            self.state.put(
+                state=state,
+                i=i,
+                checkpoint_path=checkpoint_dir / str(i),
+                keep=keep_top_n_checkpoints,
+            )
+        # the state of the chain, which includes all the parameters, is needed to load
+        if self.get_path_latest_checkpoint(checkpoint_dir / "c") is None:
+            self.save_checkpoint(
+                state, checkpoint_dir / "c", keep=keep_top_n_checkpoints
+            )
 
     def _restore_state_from_somewhere(
         self,
-- 
2.43.0


From 79d20a68b1588f8401205260a5949ea34eed379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 27/38] fix: train when the gradient accumulation steps exceed
 the steps per epoch

---
 fortuna/training/trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 7703368..7fcc2c6 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -584,6 +584,9 @@ class TrainerABC(
     def _get_mean_losses_and_metrics(
         self, losses_and_metrics: List[Dict[str, jnp.ndarray]]
     ) -> Dict[str, float]:
+        if len(losses_and_metrics) == 0:
+            # no gradient accumulation cycle was completed within the epoch
+            return {}
         losses_and_metrics = stack_forest(losses_and_metrics)
         losses_and_metrics = tree_map(lambda x: x.mean(), losses_and_metrics)
         return losses_and_metrics
-- 
2.43.0


From 5ec7a224e2c12d30d28d6c07f2348f38be8b5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 28/38] fix: allow None as documented to disable the validation
 epochs

---
 fortuna/output_calib_model/output_calib_model_calibrator.py | 1 +
 fortuna/training/output_calibrator.py                       | 1 +
 fortuna/training/trainer.py                                 | 1 +
 3 files changed, 3 insertions(+)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index 2dfb5a9..ea53dbd 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -457,6 +457,7 @@ class OutputCalibModelCalibrator(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 7e7a774..9703392 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -443,6 +443,7 @@ class OutputCalibratorABC(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 7fcc2c6..d1a9e43 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -596,6 +596,7 @@ class TrainerABC(
     ) -> bool:
         return (
             validation_dataloader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
-- 
2.43.0


From c0abfd581a415c65ab12c4d90edc248f7039e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 29/38] fix: return the synchronised mutable from multi-device
 training

---
 fortuna/training/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index d1a9e43..da3641d 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -817,7 +817,7 @@ class MultiDeviceMixin:
 
     def on_train_end(self, state: TrainState) -> TrainState:
         state = super(MultiDeviceMixin, self).on_train_end(state)
-        return jax.device_get(tree_map(lambda x: x[0], state))
+        return self._sync_state(state)
 
     def training_step_start(self, rng: jax.Array, step: int) -> jax.Array:
         step = step if isinstance(step, int) or step.ndim == 0 else step[0]
-- 
2.43.0


From 2e10ae8a4d43211c5c21d5dac0a75c7b0bbf104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 30/38] fix: support regression models with mutable objects

---
 fortuna/model/model_manager/regression.py | 65 ++++++++++-------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index d915c4b..90a954c 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -63,50 +63,39 @@ class RegressionModelManager(ModelManager):
             model_rngs = None
             lik_log_var_rngs = None
 
-        if mutable is not None:
-            mutable["model"] = mutable.get("model")
-            mutable["lik_log_var"] = mutable.get("lik_log_var")
-
-        model_has_aux = train and mutable is not None and mutable["model"] is not None
-        lik_log_var_has_aux = (
-            train and mutable is not None and mutable["lik_log_var"] is not None
-        )
-
-        def apply_fn(p, x, m_mutable, llv_mutable):
-            model_outputs = self.model.apply(
-                p["model"],
+        has_aux = train and mutable is not None
+
+        def apply_model(_model, variables, x, _mutable, rngs):
+            if not _mutable:
+                _outputs = _model.apply(variables, x, train=train, rngs=rngs)
+                if isinstance(_outputs, tuple):
+                    _outputs = _outputs[0]
+                return _outputs, FrozenDict()
+            return _model.apply(
+                {**variables, **_mutable},
                 x,
                 train=train,
-                mutable=m_mutable,
-                rngs=model_rngs,
+                mutable=list(_mutable.keys()),
+                rngs=rngs,
             )
-            lik_log_var_outputs = self.likelihood_log_variance_model.apply(
+
+        def apply_fn(p, x, m_mutable, llv_mutable):
+            model_outputs, m_mutable = apply_model(
+                self.model, p["model"], x, m_mutable, model_rngs
+            )
+            lik_log_var_outputs, llv_mutable = apply_model(
+                self.likelihood_log_variance_model,
                 p["lik_log_var"],
                 x,
-                train=train,
-                mutable=llv_mutable,
-                rngs=lik_log_var_rngs,
+                llv_mutable,
+                lik_log_var_rngs,
             )
 
-            if isinstance(model_outputs, tuple) and not model_has_aux:
-                model_outputs = model_outputs[0]
-            if isinstance(lik_log_var_outputs, tuple) and not lik_log_var_has_aux:
-                lik_log_var_outputs = lik_log_var_outputs[0]
-
-            if model_has_aux:
-                model_outputs, m_mutable = model_outputs
-            if lik_log_var_has_aux:
-                lik_log_var_outputs, llv_mutable = lik_log_var_outputs
-
             self._check_outputs(model_outputs, lik_log_var_outputs)
 
             aux = dict()
-            if m_mutable or llv_mutable:
-                aux["mutable"] = dict()
-                if m_mutable:
-                    aux["mutable"]["model"] = m_mutable
-                if llv_mutable:
-                    aux["mutable"]["lik_log_var"] = m_mutable
+            if has_aux:
+                aux["mutable"] = dict(model=m_mutable, lik_log_var=llv_mutable)
 
             return jnp.concatenate(
                 (model_outputs, lik_log_var_outputs), axis=-1
@@ -118,9 +107,9 @@ class RegressionModelManager(ModelManager):
                 apply_fn=lambda p, x: apply_fn(
                     p,
                     x,
-                    m_mutable=mutable["model"] if mutable is not None else False,
+                    m_mutable=mutable.get("model") if mutable is not None else None,
                     llv_mutable=(
-                        mutable["lik_log_var"] if mutable is not None else False
+                        mutable.get("lik_log_var") if mutable is not None else None
                     ),
                 ),
                 model_params=params,
@@ -131,8 +120,8 @@ class RegressionModelManager(ModelManager):
             outputs, aux = apply_fn(
                 params,
                 inputs,
-                m_mutable=mutable["model"] if mutable is not None else False,
-                llv_mutable=mutable["lik_log_var"] if mutable is not None else False,
+                m_mutable=mutable.get("model") if mutable is not None else None,
+                llv_mutable=mutable.get("lik_log_var") if mutable is not None else None,
             )
 
         if len(aux) > 0:
-- 
2.43.0


From 46756fbfd11f286f7541f460828421089d77d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 31/38] fix: weight all the iterates of SWAG equally

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 2601d77..e94e8a5 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -34,6 +34,7 @@ class SWAGTrainer(MAPTrainer):
         self._mean_rav_params = None
         self._mean_squared_rav_params = None
         self._deviation_rav_params = None
+        self._n_iterates = 0
         self._encoded_which_params = encode_tuple_of_lists_of_strings_to_numpy(
             which_params
         )
@@ -86,13 +87,13 @@ class SWAGTrainer(MAPTrainer):
             self._mean_squared_rav_params = rav_params**2
             self._deviation_rav_params = jnp.zeros((len(rav_params), 1))
         else:
-            self._mean_rav_params *= current_epoch
+            self._mean_rav_params *= self._n_iterates
             self._mean_rav_params += rav_params
-            self._mean_rav_params /= current_epoch + 1
+            self._mean_rav_params /= self._n_iterates + 1
 
-            self._mean_squared_rav_params *= current_epoch
+            self._mean_squared_rav_params *= self._n_iterates
             self._mean_squared_rav_params += rav_params**2
-            self._mean_squared_rav_params /= current_epoch + 1
+            self._mean_squared_rav_params /= self._n_iterates + 1
             self._deviation_rav_params = jnp.concatenate(
                 (
                     self._deviation_rav_params[:, -kwargs["rank"] + 1 :],
@@ -100,6 +101,7 @@ class SWAGTrainer(MAPTrainer):
                 ),
                 axis=1,
             )
+        self._n_iterates += 1
         return super().training_step_end(
             current_epoch, state, aux, batch, metrics, callbacks, kwargs
         )
-- 
2.43.0


From fc961e43ad35d981c8bf385860c75b5c264d8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 32/38] fix: run the callbacks of the user in SGMCMC posteriors

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py   | 2 +-
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 59c945d..82ef651 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -185,7 +185,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[cyclical_sampling_callback],
+            callbacks=(fit_config.callbacks or []) + [cyclical_sampling_callback],
         )
         logging.info("Fit completed.")
 
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index cb84d46..706be57 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -180,7 +180,7 @@ class SGHMCPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[sghmc_sampling_callback],
+            callbacks=(fit_config.callbacks or []) + [sghmc_sampling_callback],
         )
         logging.info("Fit completed.")
 
-- 
2.43.0


From b43cca42de478aa573943a59bb48c2ac0a446f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 33/38] fix: constant step size when there are no burn-in steps

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
index 485a680..b3b206b 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
@@ -109,7 +109,7 @@ def constant_schedule_with_cosine_burnin(
         raise ValueError("`burnin_steps` should be >= 0.")
 
     def schedule(step: Array):
-        t = jnp.minimum(step / burnin_steps, 1.0)
+        t = jnp.minimum(step / burnin_steps, 1.0) if burnin_steps > 0 else 1.0
         coef = (1 + jnp.cos(t * np.pi)) * 0.5
         return coef * init_step_size + (1 - coef) * final_step_size
 
-- 
2.43.0


From ee9ef54dd11035fa4befa5b559ebfe4dc6a4882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 34/38] fix: name the unsupported auxiliary objects in the
 error raised for them

---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 187b921..b40705f 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From c56ccff267eb5b8f99c279f60394527fa783add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:00 +0000
Subject: [PATCH 35/38] fix: evaluate the negative log-joint without auxiliary
 objects

---
 fortuna/prob_model/joint/base.py      | 2 ++
 fortuna/prob_model/predictive/base.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fortuna/prob_model/joint/base.py b/fortuna/prob_model/joint/base.py
index 7af4d41..b75cbf4 100755
--- a/fortuna/prob_model/joint/base.py
+++ b/fortuna/prob_model/joint/base.py
@@ -135,6 +135,8 @@ class Joint(WithRNG):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> Union[float, Tuple[float, dict]]:
+        if return_aux is None:
+            return_aux = []
         outs = self._batched_log_joint_prob(
             params,
             batch,
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index b40705f..233519d 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -298,6 +298,8 @@ class Predictive(WithRNG):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]]:
+        if return_aux is None:
+            return_aux = []
         outs = self._batched_log_joint_prob(
             batch,
             n_data,
-- 
2.43.0


From 997da84729154234aa2bae158c06aa44ee743a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 36/38] fix: put predictive samples drawn on several devices in
 order

---
 fortuna/prob_model/predictive/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 233519d..cb39710 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -369,7 +369,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -378,10 +378,10 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
                 samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-- 
2.43.0


From 51d30bbced8f4bb8a6c289ee83cc7de251547e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 37/38] fix: update the mutable objects of output calibrators

---
 fortuna/calib_model/loss.py                            | 4 +++-
 fortuna/likelihood/base.py                             | 4 +++-
 fortuna/output_calib_model/loss.py                     | 2 +-
 fortuna/output_calib_model/predictive/base.py          | 2 +-
 fortuna/output_calibrator/output_calib_manager/base.py | 2 +-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..1ceaa30 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -114,7 +114,9 @@ class Loss(WithRNG):
             and "calib_mutable" in return_aux
         ):
             outputs, aux["calib_mutable"] = outs
-            aux["calib_mutable"] = dict(output_calibrator=aux["calib_mutable"])
+            aux["calib_mutable"] = dict(
+                output_calibrator=aux["calib_mutable"]["mutable"]
+            )
         else:
             outputs = outs
             if "calib_mutable" in return_aux:
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 722e260..5c65aef 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -242,7 +242,9 @@ class Likelihood(WithRNG):
             and "calib_mutable" in return_aux
         ):
             outputs, aux["calib_mutable"] = outs
-            aux["calib_mutable"] = dict(output_calibrator=aux["calib_mutable"])
+            aux["calib_mutable"] = dict(
+                output_calibrator=aux["calib_mutable"]["mutable"]
+            )
         else:
             outputs = outs
             if "calib_mutable" in return_aux:
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index 5142cb2..281cda2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -62,7 +62,7 @@ class Loss(WithRNG):
             and "mutable" in return_aux
         ):
             outputs, aux["mutable"] = outs
-            aux["mutable"] = dict(output_calibrator=aux["mutable"])
+            aux["mutable"] = dict(output_calibrator=aux["mutable"]["mutable"])
         else:
             outputs = outs
             if "mutable" in return_aux:
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index fa19b10..18c870a 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -294,7 +294,7 @@ class Predictive(WithRNG, abc.ABC):
             and "mutable" in return_aux
         ):
             outputs, aux["mutable"] = outs
-            aux["mutable"] = dict(output_calibrator=aux["mutable"])
+            aux["mutable"] = dict(output_calibrator=aux["mutable"]["mutable"])
         else:
             outputs = outs
             if "mutable" in return_aux:
diff --git a/fortuna/output_calibrator/output_calib_manager/base.py b/fortuna/output_calibrator/output_calib_manager/base.py
index 069e9ec..aef98e9 100644
--- a/fortuna/output_calibrator/output_calib_manager/base.py
+++ b/fortuna/output_calibrator/output_calib_manager/base.py
@@ -75,7 +75,7 @@ class OutputCalibManager(WithRNG):
             outputs, mutable = self.output_calibrator.apply(
                 variables, outputs, mutable=mutable, train=calib, rngs=rngs
             )
-            return outputs, {"mutable": mutable}
+            return outputs, {"mutable": FrozenDict(mutable)}
         else:
             return self.output_calibrator.apply(
                 variables, outputs, train=calib, mutable=False, rngs=rngs
-- 
2.43.0


From bbebc6d8ee168463e018510a9d9b87a659e615db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:13 +0000
Subject: [PATCH 38/38] fix: fit the temperature when some probabilities are
 zero

---
 .../temp_scaling/crossentropy_binary_temp_scaling.py          | 2 +-
 .../binary_classification/temp_scaling/f1_temp_scaling.py     | 2 +-
 fortuna/calibration/classification/temp_scaling/base.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py b/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py
index 6dc8254..3ef9d33 100644
--- a/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py
+++ b/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py
@@ -26,5 +26,5 @@ class CrossEntropyBinaryClassificationTemperatureScaling(
             )
 
         self._temperature = brute(
-            temp_scaling_fn, ranges=[(np.min(probs), 10)], Ns=1000
+            temp_scaling_fn, ranges=[(max(np.min(probs), 1e-6), 10)], Ns=1000
         )[0]
diff --git a/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py b/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py
index 3994b15..d2b07ad 100644
--- a/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py
+++ b/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py
@@ -38,7 +38,7 @@ class F1BinaryClassificationTemperatureScaling(
             return -2 * prec * rec / (prec + rec)
 
         self._temperature = brute(
-            loss_fn, ranges=[(np.min(probs), 1 / threshold)], Ns=1000
+            loss_fn, ranges=[(max(np.min(probs), 1e-6), 1 / threshold)], Ns=1000
         )[0]
 
     def predict(self, probs: np.ndarray):
diff --git a/fortuna/calibration/classification/temp_scaling/base.py b/fortuna/calibration/classification/temp_scaling/base.py
index 3c9e64e..49ae2a8 100644
--- a/fortuna/calibration/classification/temp_scaling/base.py
+++ b/fortuna/calibration/classification/temp_scaling/base.py
@@ -29,11 +29,11 @@ class ClassificationTemperatureScaling(abc.ABC):
         self._check_probs(probs)
         self._check_targets(targets)
         log_probs = np.log(probs)
-        one_hot_targets = np.eye(probs.shape[1])[targets.reshape(-1)]
+        rows = np.arange(len(targets))
 
         def temp_scaling_fn(tau):
             log_temp_probs = log_softmax(log_probs / tau, axis=1)
-            return -np.sum(one_hot_targets * log_temp_probs)
+            return -np.sum(log_temp_probs[rows, targets])
 
         self._temperature = brute(temp_scaling_fn, ranges=[(1e-6, 10)], Ns=1000)[0]
 
-- 
2.43.0

