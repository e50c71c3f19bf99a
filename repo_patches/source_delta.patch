From 2260ab78c72dc2052ed3fd7f501671f613e0be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:27 +0000
Subject: [PATCH 01/14] fix: block soft-thresholding maps a row on the
 threshold to zero (0/0 gave NaN for a zero row)

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..24457f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
-- 
2.43.0


From cbbe1c74fa512c801de09666222da2f602abaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:27 +0000
Subject: [PATCH 02/14] fix: prox_05 of zero is zero when the threshold is zero
 too (was NaN)

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 24457f9..1e460ef 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x.abs() <= t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From 9cd5186debe2c89bf3d7c8eee1baa0cbeb19c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:49 +0000
Subject: [PATCH 03/14] fix: block L1+L2 violation of a zero row uses the norm
 of the gradient, not its square

---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 9ca15c33444e1c69e233a416b2bf484ff9aef406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:49 +0000
Subject: [PATCH 04/14] fix: block MCP violation below the knee takes the
 gradient into account

---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..7423eb7 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + scale * w_ij).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From b8eb6da15fabc7d1f7cbd698e0a7b8bc91c25731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:05 +0000
Subject: [PATCH 05/14] fix: linear solver pivots, so that zero pivots no
 longer give wrong solutions or wrong errors

---
 src/utils/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e460ef..3a1532c 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -125,8 +125,17 @@ pub mod helpers {
             }
         }
 
-        // Echelon form
-        for i in 0..size - 1 {
+        // Echelon form, with partial pivoting
+        for i in 0..size {
+            let mut pivot = i;
+            for j in (i + 1)..size {
+                if system[[j, i]].abs() > system[[pivot, i]].abs() {
+                    pivot = j;
+                }
+            }
+            for k in 0..size + 1 {
+                system.swap([i, k], [pivot, k]);
+            }
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From 6c3a57edfc6325183d577c753d704fbf0f4a0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:44 +0000
Subject: [PATCH 06/14] fix: Anderson extrapolation solves with the K x K Gram
 matrix of the differences (it panicked for working sets smaller than K)

---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From 83c922fa9a1c3295ee6e1d51d820772a2835d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 07/14] fix: block MCP hyper-parameters check gamma like the
 MCP ones do

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From 08a965328a57b03a7dda4bf7a4d17f060701d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:44 +0000
Subject: [PATCH 08/14] fix: NaN hyper-parameters are rejected (and -0.0 is
 accepted like 0.0)

---
 src/estimators/hyperparams.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index d6cf52d..8f59d02 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -154,11 +154,11 @@ impl<F: Float> ParamGuard for LassoParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if !(self.0.alpha >= F::zero()) {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if !(self.0.tolerance >= F::zero()) {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -329,11 +329,11 @@ impl<F: Float> ParamGuard for MultiTaskLassoParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if !(self.0.alpha >= F::zero()) {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if !(self.0.tolerance >= F::zero()) {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -516,13 +516,13 @@ impl<F: Float> ParamGuard for MCParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if !(self.0.alpha >= F::zero()) {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.gamma < F::one() {
+        } else if !(self.0.gamma >= F::one()) {
             Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
-        } else if self.0.tolerance.is_negative() {
+        } else if !(self.0.tolerance >= F::zero()) {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -707,13 +707,13 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if !(self.0.alpha >= F::zero()) {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.gamma < F::one() {
+        } else if !(self.0.gamma >= F::one()) {
             Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
-        } else if self.0.tolerance.is_negative() {
+        } else if !(self.0.tolerance >= F::zero()) {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -898,15 +898,15 @@ impl<F: Float> ParamGuard for ElasticNetParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if !(self.0.alpha >= F::zero()) {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.l1_ratio > F::one() || self.0.l1_ratio < F::zero() {
+        } else if !(self.0.l1_ratio >= F::zero() && self.0.l1_ratio <= F::one()) {
             Err(EstimatorError::InvalidL1Ratio(
                 self.0.l1_ratio.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if !(self.0.tolerance >= F::zero()) {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -1091,15 +1091,15 @@ impl<F: Float> ParamGuard for MultiTaskElasticNetParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if !(self.0.alpha >= F::zero()) {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.l1_ratio > F::one() || self.0.l1_ratio < F::zero() {
+        } else if !(self.0.l1_ratio >= F::zero() && self.0.l1_ratio <= F::one()) {
             Err(EstimatorError::InvalidL1Ratio(
                 self.0.l1_ratio.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if !(self.0.tolerance >= F::zero()) {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
-- 
2.43.0


From 895758ff223013868a57d236f07199f6ac2375aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:36 +0000
Subject: [PATCH 09/14] fix: the Python MCP regressors check gamma (they tested
 alpha against 1)

---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..6b5ad16 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
-- 
2.43.0


From 3b1b7e6b63bc257fb48f22d8b7eec27b10488776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:36 +0000
Subject: [PATCH 10/14] fix: the Python elastic nets check l1_ratio (they
 tested alpha against [0, 1])

---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 6b5ad16..0a5438f 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or not 0 <= l1_ratio <= 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or not 0 <= l1_ratio <= 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From ed0c31ba23d3a6c36f02b2fa95aec12eaec799cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:36 +0000
Subject: [PATCH 11/14] fix: predict works on a fitted estimator (the truth
 value of an array raised)

---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 0a5438f..8371122 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From 5930d23085655d468e5ecc65459f6d214e2005e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:36 +0000
Subject: [PATCH 12/14] fix: the Python estimators refuse K = 0, p0 = 0 and NaN
 with ValueError (the native code panicked)

---
 python/sparseglm/estimators.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 8371122..d6ffff2 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -32,12 +32,12 @@ class Estimator(BaseEstimator):
         self.coef_ = None
 
     def _validate_params(self):
-        def _check_types(var, type, var_name):
-            if not isinstance(var, type) or var < 0:
+        def _check_types(var, type, var_name, minimum=0):
+            if not isinstance(var, type) or not var >= minimum:
                 raise ValueError("{}={} must be a positive {}."
-                                 .format(var_name, self.alpha, type))
-        _check_types(self.K, int, "K")
-        _check_types(self.p0, int, "p0")
+                                 .format(var_name, var, type))
+        _check_types(self.K, int, "K", minimum=1)
+        _check_types(self.p0, int, "p0", minimum=1)
         _check_types(self.tol, float, "tol")
         _check_types(self.max_iter, int, "max_iter")
         _check_types(self.max_epochs, int, "max_epochs")
@@ -92,7 +92,7 @@ class Lasso(Estimator):
         super(Lasso, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, max_epochs=max_epochs, K=K,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -172,7 +172,7 @@ class MultiTaskLasso(Estimator):
         super(MultiTaskLasso, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, K=K, verbose=verbose,
             use_accel=use_accel, max_epochs=max_epochs)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -267,7 +267,7 @@ class MCPRegressor(Estimator):
         super(MCPRegressor, self).__init__(
             max_iter=max_iter, K=K, tol=tol, p0=p0, max_epochs=max_epochs,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
@@ -356,7 +356,7 @@ class BlockMCPRegressor(Estimator):
         super(BlockMCPRegressor, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, K=K, verbose=verbose,
             use_accel=use_accel, max_epochs=max_epochs)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
@@ -454,7 +454,7 @@ class ElasticNet(Estimator):
         super(ElasticNet, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, max_epochs=max_epochs, K=K,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -543,7 +543,7 @@ class MultiTaskElasticNet(Estimator):
         super(MultiTaskElasticNet, self).__init__(
             max_iter=max_iter, max_epochs=max_epochs, tol=tol, p0=p0,
             use_accel=use_accel, K=K, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-- 
2.43.0


From c1018f4156d1357b12403d20f4986fdba432111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:36 +0000
Subject: [PATCH 13/14] fix: float32 designs are converted (the native classes
 take float64 only and raised TypeError)

---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index d6ffff2..9bd55d4 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -109,7 +109,7 @@ class Lasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -189,7 +189,7 @@ class MultiTaskLasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -288,7 +288,7 @@ class MCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -377,7 +377,7 @@ class BlockMCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -477,7 +477,7 @@ class ElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -566,7 +566,7 @@ class MultiTaskElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
-- 
2.43.0


From 85ccccbe4cb383571c83331d0534ec525814c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:10 +0000
Subject: [PATCH 14/14] fix: make_correlated_data accepts w_true of the
 documented shape (n_features,) (adding the noise raised)

---
 python/sparseglm/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/sparseglm/utils.py b/python/sparseglm/utils.py
index 851edaf..e8d6ecf 100644
--- a/python/sparseglm/utils.py
+++ b/python/sparseglm/utils.py
@@ -95,6 +95,8 @@ def make_correlated_data(
         w_true = np.zeros((n_features, n_tasks))
         support = rng.choice(n_features, nnz, replace=False)
         w_true[support, :] = rng.randn(nnz, n_tasks)
+    elif w_true.ndim == 1:
+        w_true = w_true[:, np.newaxis]
 
     Y = X @ w_true
     if snr != np.inf:
-- 
2.43.0

