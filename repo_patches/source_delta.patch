From ee1d37da1b93d8953ecb07902a86330289f1c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 01/44] fix: non_negative_rightsolve accepts a single
 right-hand side given as a vector

---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..a23ce0e 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -18,7 +18,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis, :]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From c75ee811cd8380b7646939005d6b139846290695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 02/44] fix: rightsolve treats rounding-level singular values
 as zero

---
 src/tenkit/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index a23ce0e..e5688bf 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -8,7 +8,9 @@ def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
     U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
+    nonzero = S > S[0] * max(A.shape) * np.finfo(S.dtype).eps
+    S[nonzero] = 1/S[nonzero]
+    S[~nonzero] = 0
 
     return B @ (Vh.T * S @ U.T)
 
-- 
2.43.0


From 48a8e51532d8836cdcca49d8ec9110ea9db1f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 03/44] fix: orthogonal_solve returns an orthogonal matrix for
 rank deficient problems too

---
 src/tenkit/base.py                   | 6 ++----
 src/tenkit/decomposition/parafac2.py | 4 ----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index e5688bf..50d2488 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -38,11 +38,9 @@ def orthogonal_rightsolve(A, B):
 def orthogonal_solve(A, B):
     """Solve the equation AX = B wrt X with orthogonality on X
     """
-    U, S, Vh = np.linalg.svd(B.T@A, full_matrices=False)
-    S_tol = max(U.shape) * S[0] * (1e-16)
-    should_keep = (S > S_tol).astype(float)
+    U, _, Vh = np.linalg.svd(B.T@A, full_matrices=False)
 
-    return (Vh.T * should_keep)@ U.T
+    return Vh.T @ U.T
 
 
 def add_rightsolve_ridge(rightsolve, ridge_penalty):
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..c6b1f64 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -254,10 +254,6 @@ class BaseParafac2(BaseDecomposer):
                 self.X[k]
             ).T
 
-            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
-            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
-            #      Where the power is done by truncating very small singular values (for numerical stability)
-
 
 class Parafac2_ALS(BaseParafac2):
     r"""Decomposer for Parafac2 with ALS optimization
-- 
2.43.0


From 39002a6a34363c264df5896123276b528c6689a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:37 +0000
Subject: [PATCH 04/44] fix: rightsolve gives exactly zero for unknowns that do
 not enter the equations

---
 src/tenkit/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 50d2488..db1a513 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -12,7 +12,9 @@ def rightsolve(A, B):
     S[nonzero] = 1/S[nonzero]
     S[~nonzero] = 0
 
-    return B @ (Vh.T * S @ U.T)
+    X = B @ (Vh.T * S @ U.T)
+    X[..., ~A.any(axis=1)] = 0  # Unknowns that do not enter the equations
+    return X
 
 
 def non_negative_rightsolve(A, B):
-- 
2.43.0


From 0582b597238e83802fc7420a9408c84befaa62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:37 +0000
Subject: [PATCH 05/44] fix: compute the SSE of a CP model from its current
 factors and data

The cached matrix product went stale when the model was refitted, loaded
from a checkpoint or normalised (SSE wrong, refitting crashed).
---
 src/tenkit/decomposition/cp.py | 25 -------------------------
 1 file changed, 25 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..3b15a9b 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -165,26 +165,6 @@ class BaseCP(BaseDecomposer):
     def _fit(self):
         pass
 
-    @property
-    def SSE(self):
-        """Sum Squared Error"""
-        if hasattr(self, '_last_updated_mode') and self._last_updated_mode is not None:
-            # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
-            # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
-            
-            return (
-                self.X_norm**2
-                 + np.linalg.norm(self.reconstructed_X)**2
-                 - 2*self._inner_prod_X_reconstructed_X
-            )
-            
-        return np.linalg.norm(self.X - self.reconstructed_X)**2
-
-    @property
-    def _inner_prod_X_reconstructed_X(self):
-        M = self.factor_matrices[self._last_updated_mode]*self._matrix_khatri_rao_product_cache
-        return np.sum(self.weights*M.sum(0), axis=0)
-
     def fit(self, X, y=None, *, max_its=None, initial_decomposition=None):
         """Fit a CP model. Precomputed components must be specified if init method is `precomputed`.
 
@@ -348,8 +328,6 @@ class CP_ALS(BaseCP):
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
 
-        self._matrix_khatri_rao_product_cache = None
-        # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
@@ -389,9 +367,6 @@ class CP_ALS(BaseCP):
 
         rightsolve = self._get_rightsolve(mode)
 
-        self._last_updated_mode = mode
-        self._matrix_khatri_rao_product_cache = rhs
-
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
 
-- 
2.43.0


From 580fd189c64e989b7c58c6ef8b0cec856e44a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:37 +0000
Subject: [PATCH 06/44] fix: solve constrained and ridge-regularised CP updates
 on the full least squares problem

The normal equations have the same solution only without constraints and penalties.
---
 src/tenkit/decomposition/cp.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 3b15a9b..7752fc3 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -328,9 +328,19 @@ class CP_ALS(BaseCP):
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
 
+    def _is_plain_least_squares(self, mode):
+        """Only the unconstrained, unregularised problem has the same solution as its normal equations."""
+        return not (
+            self.non_negativity_constraints[mode]
+            or self.orthonormality_constraints[mode]
+            or self.ridge_penalties is not None
+        )
 
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
+        if not self._is_plain_least_squares(skip_mode):
+            return base.khatri_rao(*self.factor_matrices, skip=skip_mode).T
+
         V = np.ones((self.rank, self.rank))
         for i, factor in enumerate(self.factor_matrices):
             if i == skip_mode:
@@ -339,6 +349,9 @@ class CP_ALS(BaseCP):
         return V
     
     def _get_als_rhs(self, mode):
+        if not self._is_plain_least_squares(mode):
+            return base.unfold(self.X, mode)
+
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
     def _get_rightsolve(self, mode):
-- 
2.43.0


From 62bafb97c642bfb39fec11b2d278944ec1980cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:32 +0000
Subject: [PATCH 07/44] fix: CMTF_ALS checkpoints record checkpoint_its and
 decomposition_type like all decomposers

---
 src/tenkit/decomposition/cmtf.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..ef4f6b2 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -8,15 +8,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
+    #TODO: store the matrices as well in store_checkpoint
 
     @property
     def coupled_factor_matrices(self):
-- 
2.43.0


From 8be9b4beed6f14295f9758dc095e41b5e62b6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:32 +0000
Subject: [PATCH 08/44] fix: label checkpoints with the last completed
 iteration, write the label last, and resume after it

Resuming from a checkpoint repeated the stored iteration, a missing
checkpoint or an invalid one left the decomposer half loaded, the final
checkpoint was stored under an iteration that never ran, a disabled
frequency stored nothing and zero or one iterations crashed.
---
 src/tenkit/decomposition/base_decomposer.py | 43 +++++++++++++++------
 src/tenkit/decomposition/cp.py              |  5 ++-
 src/tenkit/decomposition/parafac2.py        |  9 ++---
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..64a0487 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -176,19 +176,24 @@ class BaseDecomposer(ABC):
         self._fit()
     
     def store_checkpoint(self):
+        """Store the current decomposition as the result of the last completed iteration.
+        """
+        last_iteration = self.current_iteration - 1
         with h5py.File(self.checkpoint_path, 'a') as h5:
-            if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
-            else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
-
-            h5.attrs['final_iteration'] = self.current_iteration
-            h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            checkpoint_group = h5.create_group(f'checkpoint_{last_iteration:05d}')
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
+
+            # Only refer to the checkpoint once it is complete
+            if 'checkpoint_its' not in h5.attrs:
+                h5.attrs['checkpoint_its'] = [last_iteration]
+            else:
+                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], last_iteration]
+
+            h5.attrs['decomposition_type'] = type(self).__name__
+            h5.attrs['final_iteration'] = last_iteration
     
     @abstractmethod
     def _check_valid_components(self, decomposition):
@@ -206,7 +211,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -217,13 +221,28 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
+        self.current_iteration = int(load_it) + 1
+        self._rel_function_change = np.inf
     
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        self.current_iteration += 1
+        if self._is_checkpoint_due():
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+    def _is_checkpoint_due(self):
+        return (
+            self.checkpoint_path is not None
+            and self.checkpoint_frequency > 0
+            and self.current_iteration % self.checkpoint_frequency == 0
+        )
+
+    def _after_fit(self, first_iteration):
+        """Checkpoint the last iteration, unless there was none or it is stored already.
+        """
+        if self.checkpoint_path is None or self.current_iteration == first_iteration:
+            return
+        if not self._is_checkpoint_due():
+            self.store_checkpoint()
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 7752fc3..c1bb468 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -396,6 +396,8 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
+        first_iteration = self.current_iteration
+        self.prev_SSE = self.SSE
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
@@ -411,8 +413,7 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index c6b1f64..9b8992f 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -385,6 +385,8 @@ class Parafac2_ALS(BaseParafac2):
     def _fit(self):
 
         self._prepare_cp_decomposer()
+        first_iteration = self.current_iteration
+        self.prev_loss = self.loss
         for it in range(self.max_its - self.current_iteration):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
@@ -398,12 +400,7 @@ class Parafac2_ALS(BaseParafac2):
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From 44bd217bba52bbfe5372bdea9f110358bccdf19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 09/44] fix: CP fits keep the component weights of the starting
 point

---
 src/tenkit/decomposition/cp.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index c1bb468..9161705 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -315,11 +315,11 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
         if self.orthonormality_constraints is None:
             self.orthonormality_constraints = [False]*len(self.factor_matrices)
+        self._absorb_weights()
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
@@ -328,6 +328,18 @@ class CP_ALS(BaseCP):
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
 
+    def _get_weight_absorbing_mode(self):
+        """The first mode that is not normalised by a constraint (and unconstrained if possible)."""
+        return min(
+            range(len(self.factor_matrices)),
+            key=lambda mode: (self.orthonormality_constraints[mode], self.non_negativity_constraints[mode])
+        )
+
+    def _absorb_weights(self):
+        """Multiply the weights into a factor matrix since the ALS updates require unit weights."""
+        self.factor_matrices[self._get_weight_absorbing_mode()][...] *= self.weights
+        self.decomposition.reset_weights()
+
     def _is_plain_least_squares(self, mode):
         """Only the unconstrained, unregularised problem has the same solution as its normal equations."""
         return not (
@@ -397,6 +409,7 @@ class CP_ALS(BaseCP):
         """Fit a CP model with Alternating Least Squares.
         """
         first_iteration = self.current_iteration
+        self._absorb_weights()
         self.prev_SSE = self.SSE
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
-- 
2.43.0


From 8ddd3e1a2bc36326ea2951e26ea7d3bb5de8e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 10/44] fix: CMTF fits keep the component weights when they
 start and continue

---
 src/tenkit/decomposition/cmtf.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index ef4f6b2..db8a6ae 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -70,8 +70,21 @@ class CMTF_ALS(CP_ALS):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-        
-        self.decomposition.normalize_components()
+
+    def _get_weight_absorbing_mode(self):
+        uncoupled_modes = [mode for mode in range(len(self.factor_matrices)) if mode not in self.coupling_modes]
+        return min(
+            uncoupled_modes or range(len(self.factor_matrices)),
+            key=lambda mode: (self.orthonormality_constraints[mode], self.non_negativity_constraints[mode])
+        )
+
+    def _absorb_weights(self):
+        # The weights only apply to the tensor, so the coupled matrices must not be rescaled
+        absorbing_mode = self._get_weight_absorbing_mode()
+        for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
+            if coupling_mode == absorbing_mode:
+                uncoupled_matrix[...] /= np.where(self.weights == 0, 1, self.weights)
+        super()._absorb_weights()
 
     def _fit(self):
         super()._fit()
-- 
2.43.0


From 14e7596906ceb2009519e3a7882c6dd0ad09497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 11/44] fix: CMTF supports non-negativity constraints again

---
 src/tenkit/decomposition/cmtf.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index db8a6ae..5235872 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -149,12 +149,7 @@ class CMTF_ALS(CP_ALS):
         return self.decomposition, [[A,V] for A, V in zip(self.coupled_factor_matrices, self.uncoupled_factor_matrices)]
 
     def _update_als_factors(self):
-        num_modes = len(self.X.shape) # TODO: Should this be cashed?
-        for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+        super()._update_als_factors()
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
-- 
2.43.0


From 9d8defb2456c75bc4974e285e198a944e6afda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 12/44] fix: the MSE of a CMTF model counts the elements of the
 coupled matrices

---
 src/tenkit/decomposition/cmtf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 5235872..dccc049 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -39,7 +39,7 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
-- 
2.43.0


From 0bd55c185805b9c69b2de75a5b90a24ba1e2c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 13/44] fix: the loss of a CMTF model includes its ridge
 penalties

---
 src/tenkit/decomposition/cmtf.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index dccc049..f37bb03 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -46,10 +46,6 @@ class CMTF_ALS(CP_ALS):
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From 90a88dc62f9fded375f944946b43233d941f633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 14/44] fix: CMTF fits all matrices that are coupled to the
 same mode

---
 src/tenkit/decomposition/cmtf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index f37bb03..105da74 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -151,25 +151,23 @@ class CMTF_ALS(CP_ALS):
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
-            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
-            return np.concatenate([khatri_rao_product, V], axis=0).T
+            Vs = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
+            return np.concatenate([khatri_rao_product, *Vs], axis=0).T
         else:
             return super()._get_als_lhs(mode)
     
     def _get_als_rhs(self, mode):
         if mode in self.mode_to_cm_idx:
             unfolded_X = base.unfold(self.X, mode)
-            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
+            coupled_Ys = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
 
-            return np.concatenate([unfolded_X, coupled_Y], axis=1)
+            return np.concatenate([unfolded_X, *coupled_Ys], axis=1)
         else:
             return super()._get_als_rhs(mode)
 
 
     def _update_uncoupled_matrix_factors(self):
-        for mode, cm_idx in self.mode_to_cm_idx.items():
-            cm_idx = self.mode_to_cm_idx[mode][0]
-            
+        for cm_idx, mode in enumerate(self.coupling_modes):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-- 
2.43.0


From 6d2c873f7dec889bb65ad8e14f3e134196d20352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 15/44] fix: CMTF computes the uncoupled factor matrices that
 belong to a loaded checkpoint

---
 src/tenkit/decomposition/cmtf.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 105da74..06ac34b 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -171,10 +171,7 @@ class CMTF_ALS(CP_ALS):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-            if self.non_negativity_constraints is None:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
-
-            if self.non_negativity_constraints[mode]:
+            if self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]:
                 new_fm = base.non_negative_rightsolve(lhs, rhs)
                 self.uncoupled_factor_matrices[cm_idx][...] = new_fm
             else:
@@ -298,6 +295,13 @@ class CMTF_ALS(CP_ALS):
 
 
     def init_components(self, initial_decomposition=None):
-        
+        self.uncoupled_factor_matrices = None
         super().init_components(initial_decomposition=initial_decomposition)
-        self._init_coupled_matrices()
\ No newline at end of file
+        if self.uncoupled_factor_matrices is None:
+            self._init_coupled_matrices()
+
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        # The uncoupled factor matrices are not stored, but are given by the shared factor matrices
+        self._init_coupled_matrices()
+        self._update_uncoupled_matrix_factors()
-- 
2.43.0


From 23353ee4995c5b066a7cf08b735e9c26cf14e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 16/44] fix: Parafac2 fit_transform passes its arguments on to
 fit

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 9b8992f..e296914 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -205,7 +205,7 @@ class BaseParafac2(BaseDecomposer):
         self._fit()
 
     def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition
 
     @property
-- 
2.43.0


From 5a8e7d63b0e3f1f988b32a0c605d91fff212bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 17/44] fix: num_elements of evolving tensors (and the PARAFAC2
 MSE) count all elements

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..bd29ff2 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -322,7 +322,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -600,7 +600,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From 727acbff7f44fcc0fcd70a042ab564c2daa8e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 18/44] fix: SVD initialisation of PARAFAC2 models

---
 src/tenkit/decomposition/parafac2.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index e296914..d3c5530 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,23 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
+        I = self.X_shape[0]
         K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        if self.rank > I:
+            raise ValueError(
+                "SVD initialisation does not work when rank is larger than the length of the first mode."
+                f" (rank: {self.rank}, length: {I})"
+            )
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J, self.rank) for J in self.X_shape[1]]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From 8314eeab243d395943ac73f1b1e713512ef52f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 19/44] fix: CP initialisation of PARAFAC2 gives each slice its
 own projection matrix

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index d3c5530..707fda3 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -131,7 +131,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From d4da351609f47ea2e027a76838dfac2d840402c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 20/44] fix: orthonormality constraints in PARAFAC2 apply to
 the fitted factor matrices

---
 src/tenkit/decomposition/cp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 9161705..ea4c7c5 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -323,7 +323,8 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+                Q, R = np.linalg.qr(fm)
+                fm[...] = Q*np.where(np.diag(R) < 0, -1, 1)  # Leaves orthonormal matrices unchanged
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 6641a038f2de4a1c46337cf847f2cfc04cc4d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 21/44] fix: a print frequency of zero means no printing for
 PARAFAC2

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 707fda3..d716337 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -398,7 +398,7 @@ class Parafac2_ALS(BaseParafac2):
             self._update_parafac2_factors()
             self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
                 print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                       f'improvement is {self._rel_function_change:g}')
 
-- 
2.43.0


From 8f2bcc23b43b8c5fcd41c1cb220765660d8c518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 22/44] fix: evolving tensors can be loaded from file

---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index bd29ff2..acadad0 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From 395227159b850a47a6acb3d7bce4c3d62aca96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 23/44] fix: conversion of a Kruskal tensor to an evolving
 tensor keeps the weights

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index acadad0..3fe264b 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -334,7 +334,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
         if len(ktensor.factor_matrices) != 3:
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
-        A = ktensor.factor_matrices[0]
+        A = ktensor.factor_matrices[0]*ktensor.weights
         B = ktensor.factor_matrices[1]
         C = ktensor.factor_matrices[2]
 
-- 
2.43.0


From 4fdcf2bc3b2042e3bc8e38b77cfcac6a375f9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 24/44] fix: factor match score and single components of
 irregular PARAFAC2 tensors

---
 src/tenkit/decomposition/decompositions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 3fe264b..caeb170 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -687,8 +687,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
@@ -697,12 +697,15 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [B_k[:, component, np.newaxis] for B_k in self.B]
+        if self.all_same_size:
+            B = np.array(B)
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
             A = A,
             B = B,
             C = C,
+            warning = self.warning,
         )
         return single_component_decomposition
-- 
2.43.0


From 4d6945f64d69a01354a3d597c6da70169dc89bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 25/44] fix: separate mode factor match scores of Kruskal and
 evolving tensors

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index caeb170..35ccdea 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From 6b4a184e03c988a03c55d7aab411a156f140576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 26/44] fix: factor match score and core consistency of Kruskal
 tensors take the weights into account

---
 src/tenkit/decomposition/decompositions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 35ccdea..b04fffb 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -208,11 +208,20 @@ class KruskalTensor(BaseDecomposedTensor):
     def __getitem__(self, item):
         return self.factor_matrices[item]
 
+    def _get_weighted_factor_matrices(self):
+        """Factor matrices of the same tensor with unit weights."""
+        return [self.factor_matrices[0]*self.weights, *self.factor_matrices[1:]]
+
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        return metrics.factor_match_score(self.factor_matrices, 
-                                          decomposition.factor_matrices, 
+        factors1, factors2 = self.factor_matrices, decomposition.factor_matrices
+        if weight_penalty:
+            factors1 = self._get_weighted_factor_matrices()
+            factors2 = decomposition._get_weighted_factor_matrices()
+
+        return metrics.factor_match_score(factors1, 
+                                          factors2, 
                                           weight_penalty=weight_penalty, 
                                           fms_reduction=fms_reduction)
     
@@ -273,7 +282,7 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        return metrics.core_consistency(X, *self._get_weighted_factor_matrices(), normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From 1246bb7f81dff12afdc74e5ad27ccf8a22c3b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 27/44] fix: create_data and create_non_negative_data construct
 their tensor

---
 src/tenkit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..896e87b 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -37,7 +37,7 @@ def create_random_factors(sizes, rank):
 
 def create_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
@@ -55,7 +55,7 @@ def create_random_uniform_factors(sizes, rank):
 
 def create_non_negative_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
-- 
2.43.0


From cc39785d802cedbd92436c319dadf02611448fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 28/44] fix: data-driven signs are never zero

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 src/tenkit/utils.py                        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index b04fffb..aa153c5 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -246,10 +246,10 @@ class KruskalTensor(BaseDecomposedTensor):
             ]
 
             for factor_num, factor_sign_score in enumerate(single_rank_sign_scores):
-                signs[factor_num][rank] = np.sign(factor_sign_score)
+                signs[factor_num][rank] = -1 if factor_sign_score < 0 else 1
 
             # Find the mode that should not be flipped
-            single_rank_signs = np.sign(single_rank_sign_scores)
+            single_rank_signs = [factor_signs[rank] for factor_signs in signs]
             if np.prod(single_rank_signs) == -1:
                 wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))
                 signs[wrongly_flipped][rank] *= -1
diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 896e87b..aad2c2e 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -186,7 +186,7 @@ def get_signs(factor_matrix, X):
         axis=1
     )
 
-    return np.sign(sign_weight), sign_weight
+    return np.where(sign_weight < 0, -1.0, 1.0), sign_weight
     
 def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
     fixed_evolving_factor = evolving_factor.copy()
-- 
2.43.0


From a1d7ef99a5188378a7064320b414600991d6dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 29/44] fix: Kruskal tensors with integer factors or weights
 can be normalised

The weights are also copied, so that normalising does not change the
array that was passed in.
---
 src/tenkit/decomposition/decompositions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index aa153c5..142489f 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -116,7 +116,11 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = factor_matrices
+        # Integer matrices are converted since the components are modified in place
+        self.factor_matrices = [
+            factor_matrix if factor_matrix.dtype.kind in 'fc' else factor_matrix.astype(float)
+            for factor_matrix in factor_matrices
+        ]
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -125,7 +129,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'There must be as many weights as there are columns in the factor matrices.'
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
-        self.weights = np.asarray(weights)
+        self.weights = np.array(weights, dtype=float)
     
     @property
     def shape(self):
-- 
2.43.0


From cb4a9a7b94313df5d14482af046d05b6e9866820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 30/44] fix: reject initial decompositions with the wrong
 number of modes or slices

---
 src/tenkit/decomposition/cp.py       | 5 +++++
 src/tenkit/decomposition/parafac2.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index ea4c7c5..87bed63 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -114,6 +114,11 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        if len(decomposition.factor_matrices) != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({len(decomposition.factor_matrices)}) "
+                f"is not the same as the number of modes of X ({len(self.X.shape)})."
+            )
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index d716337..e5e57bf 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -164,6 +164,12 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if len(decomposition.B) != len(self.X):
+            raise ValueError(
+                f"The number of evolving factor matrices ({len(decomposition.B)}) "
+                f"is not the same as the number of slices of X ({len(self.X)})"
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From 3a24f1b38eb3c94b83a744c9037fac39c2bb150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 31/44] fix: metadata can be given for several experiments in
 the same file

---
 src/tenkit/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tenkit/log.py b/src/tenkit/log.py
index a1f6072..128757b 100644
--- a/src/tenkit/log.py
+++ b/src/tenkit/log.py
@@ -108,6 +108,8 @@ class Experiment:
             g = h5['metadata']
 
         for name, value in metadata.items():
+            if name in g:
+                del g[name]
             g[name] = value
     
     def _init_h5_file(self, attributes, metadata):
-- 
2.43.0


From 2e0430013af3d15241895e3b1a43f03f0da53aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 32/44] fix: CMTF weights are not absorbed into an orthonormal
 mode when another mode can take them

---
 src/tenkit/decomposition/cmtf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 06ac34b..3f53918 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -68,10 +68,13 @@ class CMTF_ALS(CP_ALS):
         self.prev_SSE = self.SSE
 
     def _get_weight_absorbing_mode(self):
-        uncoupled_modes = [mode for mode in range(len(self.factor_matrices)) if mode not in self.coupling_modes]
         return min(
-            uncoupled_modes or range(len(self.factor_matrices)),
-            key=lambda mode: (self.orthonormality_constraints[mode], self.non_negativity_constraints[mode])
+            range(len(self.factor_matrices)),
+            key=lambda mode: (
+                self.orthonormality_constraints[mode],
+                mode in self.coupling_modes,
+                self.non_negativity_constraints[mode]
+            )
         )
 
     def _absorb_weights(self):
-- 
2.43.0


From 734a580735a08d64500d42f45809c28550853540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 33/44] fix: refitting a CP or CMTF model to data with another
 number of modes

---
 src/tenkit/decomposition/cp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 87bed63..e0e558d 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -319,11 +319,12 @@ class CP_ALS(BaseCP):
 
 
     def _init_fit(self, X, max_its, initial_decomposition):
+        # The number of modes may have changed if the model is fitted to new data
+        if self.non_negativity_constraints is None or not any(self.non_negativity_constraints):
+            self.non_negativity_constraints = [False]*len(X.shape)
+        if self.orthonormality_constraints is None or not any(self.orthonormality_constraints):
+            self.orthonormality_constraints = [False]*len(X.shape)
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False]*len(self.factor_matrices)
-        if self.orthonormality_constraints is None:
-            self.orthonormality_constraints = [False]*len(self.factor_matrices)
         self._absorb_weights()
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
-- 
2.43.0


From a4dee670c422d8901a6010c2e76e091dc641922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:15 +0000
Subject: [PATCH 34/44] fix: flip_factors works for integer factor matrices

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index aad2c2e..1f4ba63 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -14,7 +14,7 @@ def flip_factors(factor_matrices):
             if s == 0:
                 sign[k] = _find_first_nonzero_sign(factor[:, k])
 
-        factor_matrices[i] *= sign
+        factor_matrices[i] = factor*sign
         signs.append(sign)
     return factor_matrices, signs
 
-- 
2.43.0


From af898ce5d5ccf36ae13d519d5288ddd6b31c6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:42 +0000
Subject: [PATCH 35/44] fix: PARAFAC2 tensors of integer factors can be fitted

The components are updated in place through a Kruskal tensor, which
converts integer matrices, so the conversion must happen when the
PARAFAC2 tensor is created.
---
 src/tenkit/decomposition/decompositions.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 142489f..002c12b 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -9,6 +9,11 @@ from .. import utils
 __all__ = ['KruskalTensor', 'EvolvingTensor', 'Parafac2Tensor']
 
 
+def _as_floating(matrix):
+    """Convert integer matrices, since the components are modified in place."""
+    return matrix if matrix.dtype.kind in 'fc' else matrix.astype(float)
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -116,11 +121,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        # Integer matrices are converted since the components are modified in place
-        self.factor_matrices = [
-            factor_matrix if factor_matrix.dtype.kind in 'fc' else factor_matrix.astype(float)
-            for factor_matrix in factor_matrices
-        ]
+        self.factor_matrices = [_as_floating(factor_matrix) for factor_matrix in factor_matrices]
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -603,11 +604,11 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = A
-        self._blueprint_B = blueprint_B
-        self._C = C
-        self._projection_matrices = tuple(projection_matrices)
-        self._B = ProjectedFactor(blueprint_B, self._projection_matrices)
+        self._A = _as_floating(A)
+        self._blueprint_B = _as_floating(blueprint_B)
+        self._C = _as_floating(C)
+        self._projection_matrices = tuple(_as_floating(matrix) for matrix in projection_matrices)
+        self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
-- 
2.43.0


From 81fdb46287512fe4a80e697412a648ca8752e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:29 +0000
Subject: [PATCH 36/44] fix: more checkpoints than fit in an attribute of the
 older HDF5 formats can be stored

---
 src/tenkit/decomposition/base_decomposer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 64a0487..f7e596b 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -179,7 +179,8 @@ class BaseDecomposer(ABC):
         """Store the current decomposition as the result of the last completed iteration.
         """
         last_iteration = self.current_iteration - 1
-        with h5py.File(self.checkpoint_path, 'a') as h5:
+        # The list of checkpoint iterations may exceed the size limit that attributes have in older file formats
+        with h5py.File(self.checkpoint_path, 'a', libver='v108') as h5:
             checkpoint_group = h5.create_group(f'checkpoint_{last_iteration:05d}')
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
-- 
2.43.0


From c17f5ef76bb652f3aba8063fa7dd56e07e81e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:19 +0000
Subject: [PATCH 37/44] fix: PCA loadings of matrices with more columns than
 rows

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 1f4ba63..4ccf529 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -22,7 +22,7 @@ def flip_factors(factor_matrices):
 def get_pca_loadings(Y, rank):
     """Returns the pca loadings of the Y matrix.
     """
-    U, S, Vh = np.linalg.svd(Y)
+    U, S, Vh = np.linalg.svd(Y, full_matrices=False)
     A = (Vh.T @ np.diag(S))[:, :rank]
     return A
 
-- 
2.43.0


From 114a3dc1a8dfa4c1d16923c93e038bc83edb00e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:20 +0000
Subject: [PATCH 38/44] fix: checkpoints are iterated in order also after
 iteration 99999

---
 src/tenkit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 4ccf529..060ca68 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -218,7 +218,8 @@ def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
     return fixed_evolving_tensor
 
 def iter_checkpoints(h5_checkpoint_file):
-    for groupname in sorted(h5_checkpoint_file):
+    # Labels have at least five digits, so longer names belong to later iterations
+    for groupname in sorted(h5_checkpoint_file, key=lambda name: (len(name), name)):
         if groupname.startswith('checkpoint'):
             yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0


From fa6952cacec1975477fa165b5479cc88f8ef40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:44 +0000
Subject: [PATCH 39/44] fix: third-order MTTKRP returned nothing for modes
 counted from the end

---
 src/tenkit/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index db1a513..2cb793c 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -164,9 +164,9 @@ def matrix_khatri_rao_product(X, factors, mode):
 
 
 def _mttkrp3(X, factors, mode):
-    if mode == 0:
+    if mode == 0 or mode == -3:
         return X.reshape(X.shape[0], -1) @ khatri_rao(*tuple(factors), skip=mode)
-    elif mode == 1:
+    elif mode == 1 or mode == -2:
         return _mttkrp_mid(X, factors)
     elif mode == 2 or mode == -1:
         return np.moveaxis(X, -1, 0).reshape(X.shape[-1], -1) @ khatri_rao(
-- 
2.43.0


From 7cb5ea36ab3222930235b4014eab12152e15f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:44 +0000
Subject: [PATCH 40/44] fix: single component decompositions shared memory with
 the whole, so that normalising one corrupted the other

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 002c12b..48ed606 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -267,7 +267,7 @@ class KruskalTensor(BaseDecomposedTensor):
         weights = self.weights
 
         single_component_factor_matrices = [
-            factor_matrix[:, component, np.newaxis] for factor_matrix in factor_matrices
+            factor_matrix[:, component, np.newaxis].copy() for factor_matrix in factor_matrices
         ]
         single_component_weights = [weights[component]]
 
-- 
2.43.0


From 11e61310828223b245783859951e0e7a06c6c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:53 +0000
Subject: [PATCH 41/44] fix: a fresh CP or CMTF model could load a checkpoint
 but not continue from it

---
 src/tenkit/decomposition/cp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index e0e558d..6f559c0 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -318,12 +318,15 @@ class CP_ALS(BaseCP):
         self.orthonormality_constraints = orthonormality_constraints
 
 
-    def _init_fit(self, X, max_its, initial_decomposition):
+    def set_target(self, X):
+        super().set_target(X)
         # The number of modes may have changed if the model is fitted to new data
         if self.non_negativity_constraints is None or not any(self.non_negativity_constraints):
             self.non_negativity_constraints = [False]*len(X.shape)
         if self.orthonormality_constraints is None or not any(self.orthonormality_constraints):
             self.orthonormality_constraints = [False]*len(X.shape)
+
+    def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self._absorb_weights()
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
-- 
2.43.0


From 0cde99fcd4cebd567e5080b2a7bc1675b8bf46b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:53 +0000
Subject: [PATCH 42/44] fix: evolving tensors made from Kruskal tensors shared
 a factor with them, so that normalising the one corrupted the other

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 48ed606..14cb352 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -350,7 +350,7 @@ class EvolvingTensor(BaseDecomposedTensor):
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
         A = ktensor.factor_matrices[0]*ktensor.weights
         B = ktensor.factor_matrices[1]
-        C = ktensor.factor_matrices[2]
+        C = ktensor.factor_matrices[2].copy()
 
         B = np.ones((len(C), 1, 1))*B[np.newaxis]
 
-- 
2.43.0


From 2261110c0ff63418bf4bf8e2da4e38024334588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:32 +0000
Subject: [PATCH 43/44] fix: matrices that shared memory within one
 decomposition were overwritten through each other

---
 src/tenkit/decomposition/decompositions.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 14cb352..1f71415 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -14,6 +14,17 @@ def _as_floating(matrix):
     return matrix if matrix.dtype.kind in 'fc' else matrix.astype(float)
 
 
+def _as_independent(matrices):
+    """Copy matrices that share memory with another one, since they are modified in place."""
+    independent = []
+    for matrix in matrices:
+        matrix = _as_floating(matrix)
+        if any(np.may_share_memory(matrix, other) for other in independent):
+            matrix = matrix.copy()
+        independent.append(matrix)
+    return independent
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -121,7 +132,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = [_as_floating(factor_matrix) for factor_matrix in factor_matrices]
+        self.factor_matrices = _as_independent(factor_matrices)
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -604,10 +615,10 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = _as_floating(A)
-        self._blueprint_B = _as_floating(blueprint_B)
-        self._C = _as_floating(C)
-        self._projection_matrices = tuple(_as_floating(matrix) for matrix in projection_matrices)
+        self._A, self._blueprint_B, self._C, *projection_matrices = _as_independent(
+            [A, blueprint_B, C, *projection_matrices]
+        )
+        self._projection_matrices = tuple(projection_matrices)
         self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
-- 
2.43.0


From 57a69f6f9af916e433a697f28ac1cd0bbb1a6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:32 +0000
Subject: [PATCH 44/44] fix: components taken from a PARAFAC2 tensor changed
 when its fit was continued

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 1f71415..e2c2447 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -721,11 +721,11 @@ class Parafac2Tensor(EvolvingTensor):
                                           fms_reduction=fms_reduction)
 
     def get_single_component_decomposition(self, component):
-        A = self.A[:, component, np.newaxis]
+        A = self.A[:, component, np.newaxis].copy()
         B = [B_k[:, component, np.newaxis] for B_k in self.B]
         if self.all_same_size:
             B = np.array(B)
-        C = self.C[:, component, np.newaxis]
+        C = self.C[:, component, np.newaxis].copy()
 
         single_component_decomposition = EvolvingTensor(
             A = A,
-- 
2.43.0

