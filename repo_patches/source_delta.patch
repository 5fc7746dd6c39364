From 0c30cce71da19c3f4f85816bbf08f9be31378b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 01/31] fix: Tweedie deviance with negative power drops the
 linear term of negative observations

---
 src/glum/_functions.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index deab5ae..808f89d 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -380,11 +380,11 @@ def tweedie_deviance(
     for i in prange(n, nogil=True):
 
         mu1mp = mu[i] ** (1 - p)
-        D += weights[i] * (mu1mp * mu[i]) / (2 - p)
+        yo1mp = y[i] / (1 - p)
+        D += weights[i] * ((mu1mp * mu[i]) / (2 - p) - yo1mp * mu1mp)
 
         if y[i] > 0:
-            yo1mp = y[i] / (1 - p)
-            D += weights[i] * ((y[i] ** (1 - p)) * yo1mp / (2 - p) - yo1mp * mu1mp)
+            D += weights[i] * (y[i] ** (1 - p)) * yo1mp / (2 - p)
 
     return 2 * D
 
-- 
2.43.0


From 0a5b298ff92c8669c1bf2f64719332eec756d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 02/31] fix: Tweedie variance derivative for power 0 is nan at
 a zero mean

---
 src/glum/_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index bb6f8a0..18e0d08 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -619,7 +619,9 @@ class TweedieDistribution(ExponentialDispersionModel):
         return numexpr.evaluate("mu ** p")
 
     def unit_variance_derivative(self, mu):  # noqa D
-        p = self.power  # noqa: F841
+        p = self.power
+        if p == 0:  # the general formula is not defined at `mu = 0`
+            return 0 if np.isscalar(mu) else np.zeros_like(mu)
         return numexpr.evaluate("p * mu ** (p - 1)")
 
     def deviance(self, y, mu, sample_weight=None) -> float:  # noqa D
-- 
2.43.0


From 9e2825e64e38e8947fbbbf49abafc5c73a6873d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 03/31] fix: Tweedie log-likelihood with negative power raises
 instead of returning nan

---
 src/glum/_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 18e0d08..31f9607 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -749,7 +749,7 @@ class TweedieDistribution(ExponentialDispersionModel):
             return poisson_log_likelihood(y, sample_weight, mu, 1.0)
         elif p == 2:
             return gamma_log_likelihood(y, sample_weight, mu, float(dispersion))
-        elif p < 2:
+        elif 1 < p < 2:
             return tweedie_log_likelihood(
                 y, sample_weight, mu, float(p), float(dispersion)
             )
-- 
2.43.0


From 38ef85eb8e3bbb6a90cf1e1f84a820c16fa5f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 04/31] fix: accept P1=None (documented) when checking the L1
 penalty

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..e69644f 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1929,7 +1929,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.check_input:
             # check if P1 has only non-negative values, negative values might
             # indicate group lasso in the future.
-            if not isinstance(self.P1, str):  # if self.P1 != 'identity':
+            # None is equivalent to 'identity'
+            if self.P1 is not None and not isinstance(self.P1, str):
                 if not np.all(np.asarray(self.P1) >= 0):
                     raise ValueError("P1 must not have negative values.")
 
-- 
2.43.0


From c76c9517c828e615129cdcd18a911c655b382839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 05/31] fix: reject L1 penalties along a penalty path with a
 solver that ignores them

---
 src/glum/_glm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e69644f..54c5c7c 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -567,6 +567,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 )
             return coef
 
+        if self._solver != "irls-cd" and np.any(P1 != 0):
+            raise ValueError(
+                f"The chosen solver (solver={self._solver}) can't deal "
+                "with L1 penalties."
+            )
+
         fixed_inner_tol = None
         if (
             isinstance(self._family_instance, NormalDistribution)
-- 
2.43.0


From f4d94ed03d002a518ea90ca8e8140167e6f11d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 06/31] fix: automatic solver choice fails for an array of
 penalties to search

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 54c5c7c..bfb8fa3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -394,8 +394,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -403,7 +403,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From 01937c9f2b451587515dcd529630a27988bbbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 07/31] fix: undo the scaling of columns exactly where tabmat
 applied it (float32 data, small standard deviations)

---
 src/glum/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..661c351 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -304,9 +304,10 @@ def _one_over_var_inf_to_val(arr: np.ndarray, val: float) -> np.ndarray:
     """
     Return 1/arr unless the values are zeros.
 
-    If values are zeros, return val.
+    If values are zeros, return val. The threshold must be that of
+    ``tabmat.MatrixBase.standardize``, whose scaling is undone with the result.
     """
-    zeros = np.where(np.abs(arr) < 10 * np.sqrt(np.finfo(arr.dtype).eps))
+    zeros = np.where(np.abs(arr) < 1e-7)
     with np.errstate(divide="ignore"):
         one_over = 1 / arr
     one_over[zeros] = val
-- 
2.43.0


From 3bad00757c27ac772eb2e812578608326605bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 08/31] fix: starting values of columns without variation are
 lost when standardising

---
 src/glum/_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 661c351..28bdc19 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -277,10 +277,9 @@ def standardize_warm_start(  # noda D
     if col_stds is None:
         coef[0] += np.squeeze(col_means).dot(coef[1:])
     else:
-        coef[1:] *= col_stds
-        coef[0] += np.squeeze(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
-            coef[1:]
-        )
+        inv_col_stds = _one_over_var_inf_to_val(col_stds, 1.0)
+        coef[1:] /= inv_col_stds
+        coef[0] += np.squeeze(col_means * inv_col_stds).dot(coef[1:])
 
 
 def unstandardize(  # noda D
-- 
2.43.0


From 231d2e9cf8a63f264ff770c0332c7a2123f7b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 09/31] fix: starting values for a design with a single column
 raise ValueError

---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 28bdc19..8d7925c 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -275,11 +275,11 @@ def standardize_warm_start(  # noda D
     coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
 ) -> None:
     if col_stds is None:
-        coef[0] += np.squeeze(col_means).dot(coef[1:])
+        coef[0] += np.ravel(col_means).dot(coef[1:])
     else:
         inv_col_stds = _one_over_var_inf_to_val(col_stds, 1.0)
         coef[1:] /= inv_col_stds
-        coef[0] += np.squeeze(col_means * inv_col_stds).dot(coef[1:])
+        coef[0] += np.ravel(col_means * inv_col_stds).dot(coef[1:])
 
 
 def unstandardize(  # noda D
-- 
2.43.0


From 2ecedf37196afed193f5f2aa6afb28bf090702df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 10/31] fix: checking a large sparse P2 raises AttributeError

---
 src/glum/_linalg.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 9ccb4ea..b643101 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -4,6 +4,7 @@ from typing import Optional, Union
 import numpy as np
 import tabmat as tm
 from scipy import linalg, sparse
+from scipy.sparse.linalg import ArpackNoConvergence, eigsh
 
 from ._utils import safe_toarray
 
@@ -27,21 +28,15 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-        # not huge, convert to dense. Otherwise, calculate 10% of its eigenvalues.
+        # not huge, convert to dense. Otherwise, look for the smallest one.
         p = typing.cast(sparse.spmatrix, p)
         if p.shape[0] < 2000:
             eigenvalues = linalg.eigvalsh(p.toarray())
         else:
-            n_evals_to_compuate = p.shape[0] // 10 + 1
-            sigma = -1000 * epsneg  # start searching near this value
-            which = "SA"  # find smallest algebraic eigenvalues first
-            eigenvalues = linalg.eigsh(
-                p,
-                k=n_evals_to_compuate,
-                sigma=sigma,
-                which=which,
-                return_eigenvectors=False,
-            )
+            try:
+                eigenvalues = eigsh(p, k=1, which="SA", return_eigenvectors=False)
+            except ArpackNoConvergence:
+                eigenvalues = linalg.eigvalsh(p.toarray())
     else:  # dense
         eigenvalues = linalg.eigvalsh(p)
 
-- 
2.43.0


From 78968eaaacf3eb75e39c1134fa65d34568a215f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 11/31] fix: positive semi-definite P2 with entries of some
 size is rejected

---
 src/glum/_linalg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index b643101..7aeb9d3 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -23,8 +23,10 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
         return not any_negative
 
     # 2d case
-    # About -6e-7 for 32-bit, -1e-15 for 64-bit
-    epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg
+    # About -6e-7 for 32-bit, -1e-15 for 64-bit, relative to the size of p: the
+    # eigenvalues of large matrices are only known up to rounding of that size
+    norm = np.max(abs(p).sum(axis=0))
+    epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg * max(1.0, norm)
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-- 
2.43.0


From 6ad6c40288405ee00aa8e6103fb17635637ac76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 12/31] fix: scalar sample weights are truncated to whole
 numbers for integer data

---
 src/glum/_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..3560873 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -190,6 +190,8 @@ def check_weights(
     force_all_finite: bool = True,
 ) -> np.ndarray:
     """Check that sample weights are non-negative and have the right shape."""
+    if not np.issubdtype(dtype, np.floating):
+        dtype = np.float64  # weights need not be whole numbers even if the data are
     if sample_weight is None:
         return np.ones(n_samples, dtype=dtype)
     if np.isscalar(sample_weight):
-- 
2.43.0


From 94790af4be286fad55dce96b471701d23c1f6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 13/31] fix: weights and offsets of another precision than the
 data raise an error

---
 src/glum/_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 3560873..1d15174 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,7 +163,7 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
@@ -203,7 +203,7 @@ def check_weights(
         sample_weight,
         accept_sparse=False,
         ensure_2d=False,
-        dtype=[np.float64, np.float32],
+        dtype=dtype,
         **{keyword_finiteness: force_all_finite},
     )
 
-- 
2.43.0


From 465c7c3cf1e221dc318cb2cd6629ea267cf9371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 14/31] fix: information criteria of an earlier fit or of other
 data are returned

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index bfb8fa3..71b97a5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3132,8 +3132,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         context_: Optional[Mapping[str, Any]] = capture_context(context)
 
-        if not hasattr(self, "_info_criteria"):
-            self._compute_information_criteria(X, y, sample_weight, context=context_)
+        # not cached: data, weights and coefficients may have changed since the last call
+        self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
             self.alpha is None or (self.alpha is not None and self.alpha > 0)
-- 
2.43.0


From bca69af34f7e267075bacc31c539fad54344fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 15/31] fix: an AICc of exactly zero is reported as undefined

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 71b97a5..2347587 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3076,7 +3076,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         """
         aicc = self._get_info_criteria("aicc", X, y, sample_weight, context=context)
 
-        if not aicc:
+        if aicc is None:
             msg = "Model degrees of freedom should be more than training data points."
             raise ValueError(msg)
 
-- 
2.43.0


From 68d286f3708f1147c0fc15a72e13930c3cecfabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 16/31] fix: starting values are clipped as if bounds were
 those of the standardized columns

---
 src/glum/_glm.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2347587..4d657a5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -56,6 +56,7 @@ from ._typing import (
     WaldTestResult,
 )
 from ._utils import (
+    _one_over_var_inf_to_val,
     add_missing_categories,
     align_df_categories,
     expand_categorical_penalties,
@@ -297,22 +298,30 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
         # If starting values are outside the specified bounds (if set),
-        # bring the starting value exactly at the bound.
+        # bring the starting value exactly at the bound. The bounds are those of the
+        # coefficients of the original columns, not of the standardized ones.
         idx = int(self.fit_intercept)
-        if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+        lower_bounds, upper_bounds = self.lower_bounds, self.upper_bounds
+        if col_stds is not None:
+            inv_col_stds = _one_over_var_inf_to_val(col_stds, 1.0)
+            if lower_bounds is not None:
+                lower_bounds = np.asarray(lower_bounds) / inv_col_stds
+            if upper_bounds is not None:
+                upper_bounds = np.asarray(upper_bounds) / inv_col_stds
+        if lower_bounds is not None:
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
-        if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
+        if upper_bounds is not None:
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
-- 
2.43.0


From 59e8a0dae75d0c040935e5a28389ba459ba8355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 17/31] fix: starting values without an intercept are taken for
 those of the standardized columns

---
 src/glum/_glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4d657a5..21e2a02 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -263,6 +263,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 coef = np.concatenate((np.array([intercept]), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef = coef / _one_over_var_inf_to_val(col_stds, 1.0)
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -296,6 +298,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef = coef / _one_over_var_inf_to_val(col_stds, 1.0)
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound. The bounds are those of the
-- 
2.43.0


From cb9ddb9ecef6e78d4437b03f8f9ab2b255983bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 18/31] fix: the penalty path starts at the wrong penalty when
 there is an offset

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 21e2a02..a1cc26f 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -499,6 +499,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From d2a6ec178095fce037ffa2f7f9510e05f082d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 19/31] fix: reject crossed bounds in cross-validation

---
 src/glum/_glm_cv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..05328b7 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -634,6 +634,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         lower_bounds = check_bounds(self.lower_bounds, X.shape[1], X.dtype)
         upper_bounds = check_bounds(self.upper_bounds, X.shape[1], X.dtype)
 
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-- 
2.43.0


From 87a4e2342982c31f13dac31e0e932b27b0811462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 20/31] fix: reject NaN bounds, which were silently ignored

---
 src/glum/_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 1d15174..571cb6e 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -97,6 +97,8 @@ def check_bounds(
     """Check that the bounds have the right shape."""
     if bounds is None:
         return None
+    if np.any(np.isnan(np.asarray(bounds, dtype=dtype))):
+        raise ValueError("Bounds must not be NaN.")
     if np.isscalar(bounds):
         return np.full(n_features, bounds, dtype=dtype)
 
-- 
2.43.0


From 11a3f6f96eaf4d94adebce3da67363a07d8242e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 21/31] fix: reject non-finite scalar weights and offsets, as
 for arrays

---
 src/glum/_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 571cb6e..e4692de 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -165,6 +165,8 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
+        if not np.isfinite(offset):  # type: ignore
+            raise ValueError("Offsets must be finite.")
         return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
@@ -199,6 +201,8 @@ def check_weights(
     if np.isscalar(sample_weight):
         if sample_weight <= 0:  # type: ignore
             raise ValueError("Sample weights must be non-negative.")
+        if force_all_finite and not np.isfinite(sample_weight):
+            raise ValueError("Sample weights must be finite.")
         return np.full(n_samples, sample_weight, dtype=dtype)
 
     sample_weight = skl.utils.check_array(
-- 
2.43.0


From 730ae400ec8e7c2baae4157b6c48c224281c41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 22/31] fix: reject NaN penalties, ratios and tolerances

---
 src/glum/_glm.py    | 11 +++++------
 src/glum/_glm_cv.py |  5 ++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a1cc26f..7e2bf37 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1850,14 +1850,14 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.gradient_tol is not None:
             if (
                 not isinstance(self.gradient_tol, (float, int))
-                or self.gradient_tol <= 0
+                or not self.gradient_tol > 0
             ):
                 raise ValueError(
                     "Tolerance for the gradient stopping criteria must be positive; "
                     f"got (gradient_tol={self.gradient_tol})."
                 )
         if self.step_size_tol is not None and (
-            not isinstance(self.step_size_tol, (float, int)) or self.step_size_tol <= 0
+            not isinstance(self.step_size_tol, (float, int)) or not self.step_size_tol > 0
         ):
             raise ValueError(
                 "Tolerance for the step-size stopping criteria must be positive; "
@@ -2651,7 +2651,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be an Iterable or None when `alpha_search` is True"
                 )
             if self.alpha is not None and (
-                (np.asarray(self.alpha) < 0).any()
+                not (np.asarray(self.alpha) >= 0).all()
                 or not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
             ):
                 raise ValueError("`alpha` must contain only non-negative numbers")
@@ -2661,7 +2661,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be a scalar or None when `alpha_search` is False"
                 )
             if self.alpha is not None and (
-                not isinstance(self.alpha, (int, float)) or self.alpha < 0
+                not isinstance(self.alpha, (int, float)) or not self.alpha >= 0
             ):
                 raise ValueError(
                     "Penalty term must be a non-negative number;"
@@ -2672,8 +2672,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             not np.isscalar(self.l1_ratio)
             # check for numeric, i.e. not a string
             or not np.issubdtype(np.asarray(self.l1_ratio).dtype, np.number)
-            or self.l1_ratio < 0  # type: ignore
-            or self.l1_ratio > 1  # type: ignore
+            or not 0 <= self.l1_ratio <= 1  # type: ignore
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1];"
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 05328b7..4910a8c 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -490,13 +490,12 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
     def _validate_hyperparameters(self) -> None:
-        if self.alphas is not None and np.any(np.asarray(self.alphas) < 0):
+        if self.alphas is not None and not np.all(np.asarray(self.alphas) >= 0):
             raise ValueError
         l1_ratio = np.asarray(self.l1_ratio)
         if (
             not np.issubdtype(l1_ratio.dtype, np.number)
-            or np.any(l1_ratio < 0)
-            or np.any(l1_ratio > 1)
+            or not np.all((l1_ratio >= 0) & (l1_ratio <= 1))
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1]; got "
-- 
2.43.0


From 3ea220978bf784ec542d9776deffeae762431a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 23/31] fix: do not accept family and link names with text
 around them

---
 src/glum/_glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 7e2bf37..9b49ec1 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3180,12 +3180,14 @@ def get_family(
     if family in name_to_dist:
         return name_to_dist[family]
 
-    custom_tweedie = re.search(r"tweedie\s?\((.+)\)", family)
+    custom_tweedie = re.fullmatch(r"tweedie\s?\((.+)\)", family)
 
     if custom_tweedie:
         return TweedieDistribution(float(custom_tweedie.group(1)))
 
-    custom_negative_binomial = re.search(r"negative.binomial\s?\((.+)\)", family)
+    custom_negative_binomial = re.fullmatch(
+        r"negative\.binomial\s?\((.+)\)", family
+    )
 
     if custom_negative_binomial:
         return NegativeBinomialDistribution(float(custom_negative_binomial.group(1)))
@@ -3234,7 +3236,7 @@ def get_link(link: Union[str, Link], family: ExponentialDispersionModel) -> Link
 
     if link in mapping:
         return mapping[link]
-    if custom_tweedie := re.search(r"tweedie\s?\((.+)\)", link):
+    if custom_tweedie := re.fullmatch(r"tweedie\s?\((.+)\)", link):
         return TweedieLink(float(custom_tweedie.group(1)))
 
     raise ValueError(
-- 
2.43.0


From c1650498ce8aca26def08a22241976f851f10f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 24/31] fix: reject NaN as power of Tweedie families and links

---
 src/glum/_distribution.py | 2 +-
 src/glum/_link.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 31f9607..f232ef8 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -608,7 +608,7 @@ class TweedieDistribution(ExponentialDispersionModel):
     def power(self, power):
         if not isinstance(power, (int, float, np.number)):
             raise TypeError(f"The power parameter must be numeric; got {power}.")
-        if (power > 0) and (power < 1):
+        if not ((power <= 0) or (power >= 1)):
             raise ValueError("For `0 < p < 1`, no distribution exists.")
 
         # Prevents upcasting when working with 32-bit data
diff --git a/src/glum/_link.py b/src/glum/_link.py
index 34f36cf..ebe6882 100644
--- a/src/glum/_link.py
+++ b/src/glum/_link.py
@@ -121,7 +121,7 @@ class TweedieLink(Link):
     def power(self, power):
         if not isinstance(power, (int, float, np.number)):
             raise TypeError(f"The power parameter must be numeric; got {power}.")
-        if (power > 0) and (power < 1):
+        if not ((power <= 0) or (power >= 1)):
             raise ValueError("For `0<p<1`, no distribution exists.")
 
         # Prevents upcasting when working with 32-bit data
-- 
2.43.0


From 7e77c9b3cece31da4a0378c813c3ebaa322f0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:03 +0000
Subject: [PATCH 25/31] fix: cross-validation with folds whose number depends
 on the data (LeaveOneOut)

---
 src/glum/_glm_cv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 4910a8c..c20f66d 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -803,26 +803,27 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             for this_l1_ratio, this_alphas in zip(l1_ratio, alphas)
         )
 
+        n_splits = cv.get_n_splits(X, y)
         paths_data = joblib.Parallel(n_jobs=self.n_jobs, prefer="processes")(jobs)
 
         self.intercept_path_ = np.reshape(
             [elmt[0] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.coef_path_ = np.reshape(
             [elmt[1] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.deviance_path_ = np.reshape(
             [elmt[2] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         self.train_deviance_path_ = np.reshape(
             [elmt[3] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
-- 
2.43.0


From dc985509b3e37e84aa573ebf59d9e61a19056b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:20 +0000
Subject: [PATCH 26/31] fix: sum clusters by their labels, whatever the labels
 are

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 9b49ec1..4cae9e4 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3356,7 +3356,8 @@ def setup_p2(
 
 def _group_sum(groups: np.ndarray, data: tm.MatrixBase):
     """Sum over groups."""
-    ngroups = len(np.unique(groups))
+    unique_groups, groups = np.unique(groups, return_inverse=True)
+    ngroups = len(unique_groups)
     out = np.empty((ngroups, data.shape[1]))
     eye_n = sps.eye(ngroups, format="csc")[:, groups]
     for i in range(data.shape[1]):
-- 
2.43.0


From 1dcfac6357940c04f6ca79321c4f712091dfb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:37 +0000
Subject: [PATCH 27/31] fix: Wald test of a restriction matrix against zero
 when r is left out

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4cae9e4..0e4c9da 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1234,7 +1234,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         }
 
         if R is not None:
-            return self._wald_test_matrix(R=R, r=np.asarray(r), **kwargs)
+            r = None if r is None else np.asarray(r)
+            return self._wald_test_matrix(R=R, r=r, **kwargs)
         if features is not None:
             return self._wald_test_feature_names(features=features, values=r, **kwargs)
         if terms is not None:
-- 
2.43.0


From 41b828d539a22c6e50517aa1622e3c5256467821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:10 +0000
Subject: [PATCH 28/31] fix: forget the model specification, category levels
 and paths of an earlier fit when refitting

---
 src/glum/_glm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 0e4c9da..16787a3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1995,6 +1995,20 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         Union[str, np.ndarray, Any],
         Union[str, np.ndarray, Any],
     ]:
+        # These are only set for some data and settings; do not keep them from an
+        # earlier fit.
+        for attr in (
+            "X_model_spec_",
+            "y_model_spec_",
+            "_feature_dtypes_",
+            "_categorical_levels_",
+            "has_missing_category_",
+            "_alphas",
+            "coef_path_",
+            "intercept_path_",
+        ):
+            self.__dict__.pop(attr, None)
+
         dtype = [np.float64, np.float32]
         stype = ["csc"] if self.solver == "irls-cd" else ["csc", "csr"]
 
-- 
2.43.0


From ff981fef4fe8a519f5ca368f19a7ae3e45764386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:07 +0000
Subject: [PATCH 29/31] fix: information criteria after a path over a given
 list of penalties

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 16787a3..a9c89b0 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3164,7 +3164,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
-            self.alpha is None or (self.alpha is not None and self.alpha > 0)
+            self.alpha is None or np.any(np.asarray(self.alpha) > 0)
         ) and self.l1_ratio < 1.0:
             warnings.warn(
                 "There is no general definition for the model's degrees of "
-- 
2.43.0


From 3353b8419338edbdded26d2f38dd2f3b874a23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:13 +0000
Subject: [PATCH 30/31] fix: P1=None and P2=None with categorical columns

---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 8d7925c..03e1cb3 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -131,14 +131,14 @@ def add_missing_categories(
 
 def expand_categorical_penalties(
     penalty, X: nw.DataFrame, drop_first: bool, has_missing_category: dict[str, bool]
-) -> Union[np.ndarray, str]:
+) -> Union[np.ndarray, str, None]:
     """Determine penalty matrices ``P1`` or ``P2`` after expanding categorical columns.
 
     If ``P1`` or ``P2`` has the same shape as ``X`` before expanding categorical
     columns, we assume that the penalty at the location of categorical columns
     is the same for all levels.
     """
-    if isinstance(penalty, str):
+    if penalty is None or isinstance(penalty, str):
         return penalty
     if not sparse.issparse(penalty):
         penalty = np.asanyarray(penalty)
-- 
2.43.0


From 4b0989d974062b81be5f6bacd25ec7abd343b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:17 +0000
Subject: [PATCH 31/31] fix: scalar offset when predicting for several
 penalties

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a9c89b0..dee08c3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -941,7 +941,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 _xb.append(X @ coef_path[idx] + intercept_path[idx])  # type: ignore
             xb = np.stack(_xb, axis=1)
             if offset is not None:
-                xb += np.asanyarray(offset)[:, np.newaxis]
+                xb += np.asanyarray(offset)[..., np.newaxis]
 
         return xb
 
-- 
2.43.0

