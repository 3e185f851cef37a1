From c7c0668683acb42eaa9a4e1cbc2ca4e99435cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 1/8] fix: Jacobian gradient covers every prior's parameters,
 not only the last one's

---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From 3e9495c6608cd17a0c07ca6762e3393be7ea6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 2/8] fix: autogrid no longer enlarges the caller's grid-size
 array in place

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..da96f4a 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -202,7 +202,7 @@ def autogrid(Xs, lo, hi, m):
     if m is None:
         m = np.ones(P) * (sum(len(X) for X in Xs) // len(Xs))
     else:
-        m = np.asarray(m)
+        m = np.array(m)
     lo = (max_lo if lo is None else np.minimum(lo, max_lo)).astype(float)
     hi = (min_hi if hi is None else np.maximum(hi, min_hi)).astype(float)
 
-- 
2.43.0


From 0d5cc0a0ca1d8a719768dcddf86cd4fb723b4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 3/8] fix: register the scale of a Scaled kernel as a parameter

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From 6fc52df506b781716c3764cc179173352e3b04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 4/8] fix: accept omitted LMC kernels and ranks as documented
 by their defaults

---
 runlmc/lmc/functional_kernel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..11fa590 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,17 +95,18 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = [] if lmc_ranks is None else lmc_ranks
+        slfm_kernels = slfm_kernels or []
+        indep_gp = indep_gp or []
+        indep_gp_index = indep_gp_index or range(len(indep_gp))
+
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
-        slfm_kernels = slfm_kernels or []
-        indep_gp = indep_gp or []
-        indep_gp_index = indep_gp_index or range(len(indep_gp))
-
         if len(indep_gp) != len(indep_gp_index):
             raise ValueError('indep GP number of kernels should match indices')
 
-- 
2.43.0


From 91d4427ce658b20a971debf4c78ff5049bc70419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 5/8] fix: an absent coregionalized or diagonal part adds
 nothing to the grid covariance

---
 runlmc/lmc/grid_kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..70b8929 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -77,7 +77,7 @@ def gen_grid_kernel(fk, grid_dists, interpolants, lens_per_output):
 def _gen_slfm_grid(functional_kernel, grid_k, m, active_dim):
     coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, m, active_dim)
     diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, m, active_dim)
-    return SumMatrix([coreg_Ks, diag_Ks])
+    return SumMatrix([K for K in (coreg_Ks, diag_Ks) if K is not None])
 
 
 def _gen_coreg_Ks(fk, grid_k, m, active_dim):
@@ -85,7 +85,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return None
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -102,7 +102,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
 
 def _gen_diag_Ks(fk, grid_k, m, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return None
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From aaf9e58ce6699bf754d275b17e774c6e1cb757d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 6/8] fix: evaluate the prior variance on an array so that
 every kernel supports it

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..1f52fe2 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,7 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1) for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From 1b1f5fb294bacd6c69478625ea94355e2bffae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 7/8] fix: precomputed variance works when all kernels share a
 subset of dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 1f52fe2..7cfb2ea 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -369,7 +369,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        (W, WT), = self.interpolants.values()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From aff0bec0a730700bac1d2d789db4b13b3b8d1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:37 +0000
Subject: [PATCH 8/8] fix: on-the-fly variance accepts a request with no test
 points

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 7cfb2ea..241cfd4 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -391,7 +391,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0

