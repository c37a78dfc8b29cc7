From e0498e441b1a47a2452a71f9ef0ccbf093b40fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:14 +0000
Subject: [PATCH 01/11] fix: autogrid no longer changes the caller's grid-size
 array

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..25cbc42 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -209,7 +209,7 @@ def autogrid(Xs, lo, hi, m):
     delta = (hi - lo) / m
     lo -= 2 * delta
     hi += 2 * delta
-    m += 4
+    m = m + 4
 
     grids = [np.linspace(l, h, int(mm)) for l, h, mm in zip(lo, hi, m)]
     return grids
-- 
2.43.0


From 80d26a585e017f45752cad6c2a63bbc3d6137582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 02/11] fix: identity kernel accepts a scalar distance like the
 other kernels

---
 runlmc/kern/identity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/kern/identity.py b/runlmc/kern/identity.py
index 179e4cc..c0d97b6 100644
--- a/runlmc/kern/identity.py
+++ b/runlmc/kern/identity.py
@@ -5,6 +5,8 @@
 The identity kernel (no covariance).
 """
 
+import numpy as np
+
 from .stationary_kern import StationaryKern
 from ..util.docs import inherit_doc
 
@@ -27,7 +29,7 @@ class Identity(StationaryKern):
         super().__init__(name=name, active_dims=active_dims)
 
     def from_dist(self, dists):
-        return (dists == 0.0).astype(float)
+        return np.equal(dists, 0.0).astype(float)
 
     def to_gpy(self):
         raise NotImplementedError('requires manual impl')
-- 
2.43.0


From 25c2ae3156081fe8fc5d03c92f59d9af108f7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 03/11] fix: link the scale parameter of the scaled kernel

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From 2cd8779ce4c40d23778b351b912f5c7bc7c7c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:56 +0000
Subject: [PATCH 04/11] fix: absent parts of the low-rank grid kernel
 contribute zero, not an identity

---
 runlmc/lmc/grid_kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..fcc06b6 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -77,7 +77,8 @@ def gen_grid_kernel(fk, grid_dists, interpolants, lens_per_output):
 def _gen_slfm_grid(functional_kernel, grid_k, m, active_dim):
     coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, m, active_dim)
     diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, m, active_dim)
-    return SumMatrix([coreg_Ks, diag_Ks])
+    # an absent part contributes nothing to the sum
+    return SumMatrix([K for K in (coreg_Ks, diag_Ks) if K is not None])
 
 
 def _gen_coreg_Ks(fk, grid_k, m, active_dim):
@@ -85,7 +86,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return None
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -102,7 +103,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
 
 def _gen_diag_Ks(fk, grid_k, m, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return None
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From 3afdf24a899985df0f2e1695e1d46485198d3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:02 +0000
Subject: [PATCH 05/11] fix: on-the-fly prediction accepts a request without
 any test points

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..93ba182 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -391,7 +391,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T  # also if no points
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From c615f305f6b17a9aa802ac40a95f74cdd50caa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 06/11] fix: precomputed variances work when all kernels share
 a proper subset of dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 93ba182..184e521 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -369,7 +369,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        (W, WT), = self.interpolants.values()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From 922bc2900af04ce444e1c4427531ea296508bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:31 +0000
Subject: [PATCH 07/11] fix: prior variances are plain numbers when an identity
 kernel is mixed with others

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 184e521..4aa0e74 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,8 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1)
+                     for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From 44a3790911f090ff8699a103e7aa0e5035495842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:50 +0000
Subject: [PATCH 08/11] fix: _log_prior_gradients collects every index that has
 a prior

The set comprehension's clauses were in the wrong order and raised
NameError whenever the objective's gradient was taken with a prior on a
constrained parameter.
---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From 7b54b70b55fc584ab623560274838c5846ff4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 09/11] fix: accept a kernel specification that omits the LMC
 lists

---
 runlmc/lmc/functional_kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..1befe08 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,13 +95,14 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = lmc_ranks or []
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
         slfm_kernels = slfm_kernels or []
         indep_gp = indep_gp or []
         indep_gp_index = indep_gp_index or range(len(indep_gp))
-- 
2.43.0


From 646f8f48dd4cbcc6c72c79b79b8821eeb2ee10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 10/11] fix: reject constant outputs whose computed std rounds
 to nonzero

---
 runlmc/models/multigp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/multigp.py b/runlmc/models/multigp.py
index c27a512..8e7c55e 100644
--- a/runlmc/models/multigp.py
+++ b/runlmc/models/multigp.py
@@ -221,7 +221,8 @@ class MultiGP(Model):
                 'Found inputs of varying dimensions {}'.format(dims))
 
         for i, Y in enumerate(Ys):
-            if np.std(Y) == 0:
+            # comparing values, since np.std may round to a tiny nonzero
+            if len(Y) and np.all(Y == Y[0]):
                 raise ValueError('Output {} has std dev 0'.format(i))
 
         return dims.pop(), len(Xs)
-- 
2.43.0


From e9ff699da132e9eabefc2cdc0d22d32b3bd3c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 11/11] fix: map_entries keeps entries in place whatever the
 memory layout

---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b22445c..b2c9ae8 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -22,7 +22,7 @@ def map_entries(f, nparr):
     """
     if nparr.size == 0:
         return nparr
-    it = np.nditer(nparr)
+    it = np.nditer(nparr, order='C')
     shape = nparr.shape
     dtype = nparr.dtype
     return np.fromiter(map(f, it), dtype).reshape(shape)
-- 
2.43.0

