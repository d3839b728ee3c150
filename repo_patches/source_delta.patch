From 395ee58bb40a0d2b97d93f98e099c4795dc7d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 01/34] fix: seed the Latin hypercube with the option that the
 installed smt provides

LHS(random_state=...) raises 'Option random_state has not been declared', so
set_hpara('optz') failed whenever more than one hyperparameter is optimized.
---
 gpgradpy/src/optz/GpHparaX0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 5d52a9c..7abd99b 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -177,7 +177,7 @@ class GpHparaX0:
             hp_x0       = np.linspace(lhs_lb[0], lhs_ub[0], n_x0+2)[1:-1,None]
         else:
             para_limit  = np.array([lhs_lb, lhs_ub]).T
-            sampling    = LHS(xlimits=para_limit, random_state = 1)
+            sampling    = LHS(xlimits=para_limit, seed = 1)
             hp_x0       = sampling(n_x0) 
         
         return hp_x0, hp_optz_bounds
-- 
2.43.0


From e66571dccdb153caf8be91cca5c02ff676897879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 02/34] fix: noise vector of a gradient-free GP with unknown
 noise

std_fval is None when the noise is unknown, use the no. of evaluations instead.
---
 gpgradpy/src/kernel/Kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 40b6d6d..05e564e 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -333,7 +333,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 assert not np.any(np.isnan(std_fval)), f'There are nan values: std_fval = {std_fval}'
                 var_noise = std_fval**2
             else:
-                var_noise = np.full(std_fval.size, hp_vals.var_fval)
+                var_noise = np.full(self.n_eval, hp_vals.var_fval, dtype=float)
             
         else:
             var_noise = np.zeros(self.n_data)
-- 
2.43.0


From 564652aa3c64fec3a627b5c49a814f3150c2208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 03/34] fix: kernel hyperparameter is a scalar after it has
 been optimized

It was left as an array of size 1, which could not be stored in the history and
made set_hpara('optz') fail for the rational quadratic kernel.
---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9694678..2c2f78f 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -78,7 +78,7 @@ class GpHpara:
             theta = None
         
         if hp_optz_info.has_kernel:
-            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel]
+            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel].item() # Scalar, see HparaOptzVal
         else:
             hp_kernel = None
         
-- 
2.43.0


From 177907843dbb5cd8f293e6f09b495e0c09b4bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 04/34] fix: rescaling of the nonlinear constraint data and of
 a prescribed shift

set_xscale_data() called methods that do not exist once nonlinear constraint
data was set, the default nlc_scl_method was rejected, and prescribing the shift
failed on misspelled numpy names.
---
 gpgradpy/src/base/Rescaling.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bb2d613..6461d02 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -58,16 +58,13 @@ class RescalingXdata:
             self._calc_n_set_scl_obj()
             
         if self._nlc_data_set:
-            self._calc_n_set_scl_nlc_data()
+            self._calc_n_set_scl_nlc()
             
         if self._boxcon_set:
             self._calc_n_set_scl_boxcon()
             
         if self._lincon_set:
             self._calc_n_set_scl_lincon()
-        
-        if self._nlc_data_set:
-            self._calc_n_set_scl_nonlincon()
     
     def _calc_x_shift_n_scale(self, x_shift_in = None, xvec_scale_in = None):
         
@@ -84,8 +81,8 @@ class RescalingXdata:
                 x_shift = np.zeros(self.dim)
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
-            assert x_shift_in.dim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atlest_1d(x_shift_in)
+            assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
+            x_shift = 1 * np.atleast_1d(x_shift_in)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
@@ -267,7 +264,7 @@ class RescalingNonlincon:
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = (mu_in - self.nlc_shift[None,:]) * self.nlc_scale
-        sig_scl      = sig_in * self.nlc_scale 
+        sig_scl      = None if sig_in is None else sig_in * self.nlc_scale 
         
         # Scale the gradients
         scl_vec      = normz_xvec_scale_inv * self.nlc_scale
@@ -485,7 +482,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
-    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'dflt_max'):
+    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = None):
         
         n_eval, self.nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
-- 
2.43.0


From e693458a7170e4fae30fa9778faea15e770d442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 05/34] fix: rescale the Hessian with the scales of both of its
 coordinates

Entry (i,j) of a Hessian scales with s_i * s_j, not with s_j**2, which gave wrong
and nonsymmetric Hessians when the coordinates are not scaled equally.
---
 gpgradpy/src/base/Rescaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 6461d02..e8a45e2 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -140,7 +140,7 @@ class RescalingObjData:
         
         scale_inv    = 1 / self.xvec_scale[None,:]
         scl_grad_vec = scale_inv    * self.obj_scale
-        scl_hess_vec = scale_inv**2 * self.obj_scale
+        scl_hess_vec = scale_inv.T * scale_inv * self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = None if mu_in       is None else (mu_in - self.obj_shift) * self.obj_scale
@@ -165,7 +165,7 @@ class RescalingObjData:
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
         
         scl_grad_vec = self.xvec_scale[None,:]    / self.obj_scale
-        scl_hess_vec = self.xvec_scale[None,:]**2 / self.obj_scale
+        scl_hess_vec = np.outer(self.xvec_scale, self.xvec_scale) / self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu       = None if mu_scl       is None else mu_scl  / self.obj_scale + self.obj_shift
@@ -272,7 +272,7 @@ class RescalingNonlincon:
         dsigdx_scl   = None if dsigdx_in is None else dsigdx_in * scl_vec
         
         # Scale the Hessians
-        scl_vec      = normz_xvec_scale_inv**2 * self.nlc_scale
+        scl_vec      = self.nlc_scale / np.outer(self.xvec_scale, self.xvec_scale)
         d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_vec
         d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_vec
         
@@ -290,7 +290,7 @@ class RescalingNonlincon:
         assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
-        scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
+        scl_hess_vec  = np.outer(self.xvec_scale, self.xvec_scale) / self.nlc_scale
         
         mu       = None if mu_scl  is None else mu_scl  / self.nlc_scale + self.nlc_shift[None,:]
         sig      = None if sig_scl is None else sig_scl / self.nlc_scale
-- 
2.43.0


From 16d56e6cd1c7b5c987bfa4f9674fa8b3323e199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 06/34] fix: normalize the noise with varK when the surrogate
 is set up for evaluation

The noise variance was added to the normalized kernel matrix as if varK were 1,
so a surrogate of noisy data did not use the same covariance matrix as the
likelihood that selected its hyperparameters.
---
 gpgradpy/src/kernel/Kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 05e564e..0a027de 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -193,10 +193,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             assert hp_vals.varK  is not None, f'varK is not provided and hp_vals.varK is None, hp_vals = {hp_vals}'
             varK = hp_vals.varK 
             
-        if b_normlz_w_varK:
-            varK = 1.0
-        else:
-            assert varK > 0, f'varK must be positive but varK = {varK}'
+        assert varK > 0, f'varK must be positive but varK = {varK}'
             
         assert np.sum(np.isnan(theta)) == 0, f'There are nan values theta = {theta}'
         
@@ -217,6 +214,9 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             
         Kern_w_noise = Kern + np.diag(noise_vec / varK) 
         
+        if b_normlz_w_varK:
+            varK = 1.0 # The noise has been normalized above with the actual varK
+        
         if self.wellcond_mtd == 'precon':
             
             assert self.use_grad is True, 'self.wellcond_mtd should be base if use_grad is False'
-- 
2.43.0


From abc8d4cb53358f129952ba35a9d14388a0f85bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 07/34] fix: derivatives when only some of the gradients are
 used to construct the GP

---
 gpgradpy/src/eval/GpEvalModel.py       | 8 ++++----
 gpgradpy/src/kernel/KernelMatern5f2.py | 9 +++++----
 gpgradpy/src/kernel/KernelRatQuad.py   | 8 ++++----
 gpgradpy/src/kernel/KernelSqExp.py     | 7 ++++---
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c6bd211..e4dd53c 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -149,7 +149,7 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -283,7 +283,7 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -355,7 +355,7 @@ class GpEvalModel(GpMeanFun):
 
     def calc_d2mudx2(self, d2Kxy_dx2):
         
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_data
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2mudx2 can only be used on one point per call'
         
         d2mudx2 = np.matmul(d2Kxy_dx2, self.invKernEta_fdiff[None,:,None])[:,:,0]
@@ -365,7 +365,7 @@ class GpEvalModel(GpMeanFun):
     def calc_d2sigdx2(self, sig, dsigdx, Kxy_invKernEta, dKxy_dx, d2Kxy_dx2, sigK):
         
         # Preliminaries
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_data
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2sigdx2 can only be used on one point per call'
         
         # Calculate d2sig2_dx2
diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 33914d6..f76b423 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -519,7 +519,7 @@ class KernelMatern5f2GradMod:
                     Rj_til   = Rtensor_g2[j] * theta[j]
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = -(25/3) * (theta[i]   * delta_ik * Rj_til 
@@ -568,7 +568,7 @@ class KernelMatern5f2GradMod:
             Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             Abase_g1      = Abase_gg      = Abase
-            mat1_g1       = mat1 
+            mat1_g1       = mat1_gg       = mat1
             nu_mat_gg     = nu_mat
         else:
             n_grad        = np.sum(bvec_use_grad)
@@ -583,6 +583,7 @@ class KernelMatern5f2GradMod:
             Abase_gg      = Abase_g1[:, bvec_use_grad]
             
             mat1_g1       = mat1[bvec_use_grad, :]
+            mat1_gg       = mat1_g1[:, bvec_use_grad]
             
             nu_mat_g1     = nu_mat[bvec_use_grad,:]
             nu_mat_gg     = nu_mat_g1[:,bvec_use_grad]
@@ -611,7 +612,7 @@ class KernelMatern5f2GradMod:
             KernGrad_grad_th[d, :n1, rd1:rd2] += term.T
             
             # Covariance grad with grad for case of d == i == j
-            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1
+            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1_gg
             
             for i in range(dim):
                 ri1 = n1 + i * n_grad
@@ -623,7 +624,7 @@ class KernelMatern5f2GradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -((25./3.) * theta[i]) * Rtensor_g1[i] * Rtensor_g1[d] * Abase_g1
+                term = -((25./3.) * theta[i]) * Rtensor_gg[i] * Rtensor_gg[d] * Abase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term.T
                 
diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 2cdf6d0..797fe77 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -499,7 +499,7 @@ class KernelRatQuadGradMod:
                 
                 Rtensor_sq_gg   = Rtensor_sq_g1
                 
-                B_m_alpha_m1_g2 = B_m_alpha_m1_g1
+                B_m_alpha_m1_g2 = B_m_alpha_m1
                 B_m_alpha_m1_gg = B_m_alpha_m1_g1
                 
                 B_m_alpha_m2_gg = B_m_alpha_m2_g1
@@ -601,7 +601,7 @@ class KernelRatQuadGradMod:
             rk2 = rk1 + n1
             
             ck1 = n2 + k * n2_grad
-            ck2 = ck1 + n2 
+            ck2 = ck1 + n2_grad
             
             KernGrad_grad_x[k, rk1:rk2, :n2] -= 2 * theta[k] * B_m_alpha_m1
             
@@ -610,7 +610,7 @@ class KernelRatQuadGradMod:
                 ri2 = ri1 + n1
                 
                 ci1 = n2 + i * n2_grad
-                ci2 = ci1 + n2 
+                ci2 = ci1 + n2_grad
                 
                 # Covariance obj with grad
                 KernGrad_grad_x[k, ri1:ri2, :n2] += (scalar1 * theta[i] * theta[k]) * Rtensor[i,:,:] * Rtensor[k,:,:] * B_m_alpha_m2
@@ -624,7 +624,7 @@ class KernelRatQuadGradMod:
                 
                 for j in range(dim):
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         += (scalar2 * theta[i] * theta[j] * theta[k]) * Rtensor_g2[i] * Rtensor_g2[j] * Rtensor_g2[k] * B_m_alpha_m3_g2
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index da085a3..bba4c94 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -458,7 +458,7 @@ class KernelSqExpGradMod:
                     delta_ij = int(i == j)
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = (-4* theta[i] * theta[j] * (delta_ik * Rtensor_g2[j] + delta_jk * Rtensor_g2[i])
@@ -505,13 +505,14 @@ class KernelSqExpGradMod:
         
         if bvec_use_grad is None:
             n_grad        = n1
-            Rtensor_g1    = Rtensor
+            Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             KernBase_g1   = KernBase_gg   = KernBase
         else:
             n_grad        = np.sum(bvec_use_grad)
             
             Rtensor_g1    = Rtensor[:, bvec_use_grad,:]
+            Rtensor_gg    = Rtensor_g1[:,:, bvec_use_grad]
             
             Rtensor_sq_g1 = Rtensor_sq[:,bvec_use_grad,:]
             Rtensor_sq_gg = Rtensor_sq_g1[:,:,bvec_use_grad]
@@ -549,7 +550,7 @@ class KernelSqExpGradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -4 * theta[i] * Rtensor[d,:,:] * Rtensor[i,:,:] * KernBase
+                term = -4 * theta[i] * Rtensor_gg[d,:,:] * Rtensor_gg[i,:,:] * KernBase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
-- 
2.43.0


From 62c88cf6e5d355a56a378310801793dfa37734e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 08/34] fix: likelihood and its gradient when the Cholesky
 decomposition fails

The failure branch negated a gradient that is None for the preconditioning
method, discarded the condition number for noisy data, skipped the log10
transformation of the gradient, and hid interrupts and memory errors.
---
 gpgradpy/src/kernel/Kernel.py |  4 ++--
 gpgradpy/src/optz/CalcLkd.py  |  8 ++++----
 gpgradpy/src/optz/OptzLkd.py  | 13 +++++++++++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 0a027de..37c5930 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -250,7 +250,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 try:
                     Kcov_precon_chofac = cho_factor(Kcov_precon, lower = True)
                     Kcov_chofac        = (P @ Kcov_precon_chofac[0], Kcov_precon_chofac[1])
-                except:
+                except (np.linalg.LinAlgError, ValueError):
                     n_nan = np.sum(np.isnan(Kcov_precon))
                     print(f'Failure of the Cholesky decomposition, n_nan = {n_nan}')
                     
@@ -289,7 +289,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             if calc_chofac:
                 try:
                     Kcov_chofac = cho_factor(Kcov)
-                except:
+                except (np.linalg.LinAlgError, ValueError):
                     Kcov_chofac = None
                     
                     eig_val = np.linalg.eigvalsh(Kcov)
diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 8887f73..fcbf7fb 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -314,10 +314,10 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
             
-            if calc_cond and calc_grad:
-                lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
-            else:
-                lkd_info.cond = cond_K
+                if calc_cond and calc_grad:
+                    lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
+                else:
+                    lkd_info.cond = cond_K
         else:
             Kern, _, Kern_w_eta, Kern_chofac, cond_K, etaK, idx_etaK_argmax \
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 56c5406..2bf8b00 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -73,8 +73,17 @@ class OptzLkd(CalcLkd):
                         cond_grad[bvec] *= transformation
             else:
                 # If the Cholesky decomposition fails use the condition number as the obj
-                ln_lkd_val  = -cond_val
-                ln_lkd_grad = -cond_grad
+                if calc_grad:
+                    if cond_grad is None: # Not available for the preconditioning method
+                        cond_grad = np.zeros(hp_vec.size)
+                    
+                    bvec             = self.hp_info_optz_lkd.bvec_log_optz
+                    cond_grad[bvec] *= 10**hp_vec[bvec] * np.log(10)
+                    ln_lkd_grad      = -cond_grad
+                else:
+                    ln_lkd_grad = None
+                
+                ln_lkd_val = -cond_val
                 
             # Store values
             self._lkd_val   = ln_lkd_val
-- 
2.43.0


From 2a9934c34783abcd7d4f729d6f3a4eb2ea96d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 09/34] fix: select a start for the hyperparameter optimization
 when Cholesky decompositions fail

---
 gpgradpy/src/optz/GpHparaX0.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 7abd99b..b54ead7 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -42,21 +42,20 @@ class GpHparaX0:
                     
                 if b_chofac_good:
                     ln_lkd_all[i] = lkd_info.ln_lkd 
-                    cond_all[i]   = lkd_info.cond
+                
+                cond_all[i] = lkd_info.cond
             
             if calc_cond:
-                bvec_cond_no_good = cond_all > (1.2*self.cond_max)
-                
-                # Esure theere is at least one valid initial solution
-                if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
-                    idx = np.nanargmin(cond_all) 
-                    bvec_cond_no_good[idx] = False
-                
-                ln_lkd_all[bvec_cond_no_good] = np.nan
+                ln_lkd_all[cond_all > (1.2*self.cond_max)] = np.nan
+            
+            if np.all(np.isnan(ln_lkd_all)):
+                # No candidate is valid, start from the one with the smallest cond
+                idx_max = np.nanargmin(cond_all)
+            else:
+                # Use hyperparameter with highest marginal log likelihood to start optz
+                idx_max = np.nanargmax(ln_lkd_all)
             
-            # Use hyperparameter with highest marginal log likelihood to start optz
-            idx_max = np.nanargmax(ln_lkd_all)
-            hp_x0   = hp_x0[idx_max, :][None,:]
+            hp_x0 = hp_x0[idx_max, :][None,:]
         
         ''' Return hp_x0 '''
         
-- 
2.43.0


From 3a6d72c25bf2d35b1ff596300e0c5fd9448632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 10/34] fix: rescaling methods keep the optimized
 hyperparameters

The data were not rescaled between the optimizations and the returned theta
was an estimate that did not correspond to the scale that was set.
---
 gpgradpy/src/optz/OptzLkd.py | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 2bf8b00..456ec44 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -148,7 +148,6 @@ class OptzLkd(CalcLkd):
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
         max_iter      = self.cond_vreq_max_iter
-        theta_all     = np.full((max_iter, self.dim), np.nan)
         dist2line_all = np.full(max_iter, np.nan)
         scale_vec_all = np.full((max_iter, self.dim), np.nan)
         
@@ -156,36 +155,38 @@ class OptzLkd(CalcLkd):
             cnt      = 0
             not_done = True
             
-            theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
+            idx_theta   = self.hp_info_optz_lkd.idx_theta
+            best_hp_all = np.full((max_iter, best_hp.size), np.nan)
             
             while not_done:
                 x_scl      = self.DataScl.x_scl
                 xvec_scale = self.DataScl.xvec_scale
                 
-                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_new_xo)
+                _, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, best_hp[idx_theta])
+                
+                # The scale that is set also satisfies the x_scl_method, use it 
+                # to get the theta that gives the same correlation
+                self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
+                x0_hp_vec            = np.copy(best_hp)
+                x0_hp_vec[idx_theta] = self.theta_w_new_xscale(best_hp[idx_theta], xvec_scale, self.DataScl.xvec_scale)
                 
-                theta_all[cnt,:]     = theta_new_xo
                 dist2line_all[cnt]   = est_dist2sol
                 scale_vec_all[cnt,:] = xvec_scale_new
+                best_hp_all[cnt,:]   = x0_hp_vec
                 
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
                 else:
-                    x0_hp_vec = np.copy(best_hp)
-                    x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
-                    
-                    best_hp,cond_val = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[:2]
+                    best_hp = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[0]
                 
                 cnt += 1
                 
             idx_min_dist    = np.nanargmin(dist2line_all)
-            theta_final     = theta_all[idx_min_dist, :]
             scale_vec_final = scale_vec_all[idx_min_dist, :]
+            best_hp_final   = best_hp_all[idx_min_dist, :]
             
             self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)
-            
-            best_hp_final = np.copy(best_hp)
-            best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
+            cond_val = self.calc_final_cond(best_hp_final)
         else:
             best_hp_final = best_hp
         
@@ -331,12 +332,23 @@ class OptzLkd(CalcLkd):
         
         ''' Calculate the final condition number '''
         
+        cond_val = self.calc_final_cond(best_hp)
+        
+        return best_hp, cond_val, surr_optz_info
+    
+    def calc_final_cond(self, best_hp):
+        
         x_scl, Rtensor = self.get_scl_x_w_dist()
         best_hp_vals = self.hp_vec2dataclass(self.hp_info_optz_lkd, best_hp)
         
         if self.b_has_noisy_data:
-            cond_val = self.calc_all_K_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
+            return self.calc_all_K_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
         else:
-            cond_val = self.calc_Kern_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
+            return self.calc_Kern_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
+    
+    def theta_w_new_xscale(self, hp_theta, xvec_scale_old, xvec_scale_new):
         
-        return best_hp, cond_val, surr_optz_info
+        if self.optz_log_hp_theta:
+            return hp_theta + 2 * np.log10(xvec_scale_old / xvec_scale_new)
+        else:
+            return hp_theta * (xvec_scale_old / xvec_scale_new)**2
-- 
2.43.0


From dd48db47843194257c88ad707b3a5466b19907cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 11/34] fix: save the data of the GP to file and load it

The paths and the methods that save the data did not exist. A save is atomic:
either the new or the previous file is complete after a crash.
---
 gpgradpy/src/base/CommonFun.py | 53 ++++++++++++++++++++++++++++++++++
 gpgradpy/src/base/GpInfo.py    |  2 +-
 gpgradpy/src/base/GpParaDef.py | 13 +++++----
 3 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/gpgradpy/src/base/CommonFun.py b/gpgradpy/src/base/CommonFun.py
index c61fe5b..99e1b06 100644
--- a/gpgradpy/src/base/CommonFun.py
+++ b/gpgradpy/src/base/CommonFun.py
@@ -6,6 +6,7 @@ Created on Wed Jun 14 09:40:59 2023
 @author: andremarchildon
 """
 
+import os
 import numpy as np 
 from numba import jit
 from scipy.spatial.distance import cdist
@@ -148,6 +149,58 @@ class CommonFun:
         
         return fd_grad, grad_x0
 
+    @classmethod
+    def save_npz_data(cls, data2save, file2save, file2save_old):
+        '''
+        Save the dictionary data2save, see save_file() for the other inputs
+        '''
+        
+        cls.save_file(lambda file: np.savez(file, **data2save), file2save, file2save_old)
+    
+    @classmethod
+    def save_txt_data(cls, txt2save, file2save, file2save_old):
+        '''
+        Save the string txt2save, see save_file() for the other inputs
+        '''
+        
+        cls.save_file(lambda file: file.write(txt2save.encode()), file2save, file2save_old)
+    
+    @staticmethod
+    def save_file(fh_write, file2save, file2save_old):
+        '''
+        Either file2save or file2save_old always holds complete data, even if 
+        the save fails or is interrupted.
+        
+        Parameters
+        ----------
+        fh_write : function handle
+            Writes the data to the binary file that it is provided.
+        file2save : str
+            File that will hold the data.
+        file2save_old : str
+            The file file2save is moved here if it already exists.
+        '''
+        
+        file_tmp = file2save + '.tmp'
+        
+        with open(file_tmp, 'wb') as file:
+            fh_write(file)
+            file.flush()
+            os.fsync(file.fileno())
+        
+        if os.path.isfile(file2save):
+            os.replace(file2save, file2save_old)
+        
+        os.replace(file_tmp, file2save)
+        
+        # The new name of the file is only durable once the folder is synced
+        fd_folder = os.open(os.path.dirname(file2save) or '.', os.O_RDONLY)
+        
+        try:
+            os.fsync(fd_folder)
+        finally:
+            os.close(fd_folder)
+
     @staticmethod
     def make_data_vec(fval, fgrad = None):
         '''
diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index b5000fe..48facc1 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -31,7 +31,7 @@ class GpInfo:
             print(data2print)
 
         if save2file:
-            self.save_txt_data(data2print, self.path_data_surr_txt, self.path_data_surr_old_txt)
+            self.save_txt_data(data2print, self.path_surr_txt, self.path_surr_old_txt)
 
         return data2print
 
diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 9e09b6e..a126279 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -117,14 +117,17 @@ class GpParaDef:
         assert self._save_data, 'If the method init_optz_surr has not been called, then load_data_surr cannot be used'
         
         if all_data is None: 
-            file2load = self.path_data_acq_npz
+            file2load = self.path_surr_npz
             
+            # The previous file is the latest one if the last save was interrupted
+            if not os.path.isfile(file2load): file2load = self.path_surr_old_npz
             if not os.path.isfile(file2load): return 
             
-            all_data = np.load(file2load)
+            with np.load(file2load) as npzfile:
+                all_data = {key: npzfile[key] for key in npzfile.files}
 
         name = self.surr_name
-        idx  = all_data[name + 'hp_beta_all'].size
+        idx  = all_data[name + 'hp_beta_all'].shape[0]
 
         # The hyper-parameters at each iteration
         self.hp_beta_all[:idx,:]          = all_data[name + 'hp_beta_all']
@@ -209,8 +212,8 @@ class GpParaDef:
                      }
 
         if save2file:
-            if file2save     is None: file2save     = self.path_data_surr_npz
-            if file2save_old is None: file2save_old = self.path_data_surr_old_npz
+            if file2save     is None: file2save     = self.path_surr_npz
+            if file2save_old is None: file2save_old = self.path_surr_old_npz
             
             self.save_npz_data(data2save, file2save, file2save_old)
                 
-- 
2.43.0


From d516c88aa0b2837ce64326476046ef61daac3993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 12/34] fix: copy the data that are provided to the GP and
 exported from it

---
 gpgradpy/src/GaussianProcess.py | 5 +++++
 gpgradpy/src/base/GpParaDef.py  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1a41609..af73fb1 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -6,6 +6,7 @@ Created on Mon Aug 24 13:00:59 2020
 @author: andremarchildon
 """
 
+import copy
 import numpy as np
 from scipy.optimize import NonlinearConstraint
 
@@ -238,6 +239,10 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             The default is None.
         '''
         
+        # The caller may modify its arrays after this method
+        x_eval, fval, std_fval, grad, std_grad, bvec_use_grad \
+            = copy.deepcopy((x_eval, fval, std_fval, grad, std_grad, bvec_use_grad))
+        
         ''' Check inputs '''
         
         # Calculate the no. of function evaluations and gradients to use
diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index a126279..130b7b5 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -211,6 +211,9 @@ class GpParaDef:
                      name + 'varK_var_fval'          : self.varK_var_fval
                      }
 
+        # The arrays of the GP continue to change after they are exported
+        data2save = {key: np.copy(val) for key, val in data2save.items()}
+
         if save2file:
             if file2save     is None: file2save     = self.path_surr_npz
             if file2save_old is None: file2save_old = self.path_surr_old_npz
-- 
2.43.0


From 75425655456f8393c978bf766fec89f3426afb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 13/34] fix: clip variances that are negative due to round-off
 errors instead of failing

---
 gpgradpy/src/eval/GpEvalModel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index e4dd53c..f42f03a 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -160,8 +160,6 @@ class GpEvalModel(GpMeanFun):
                                  calc_grad = calc_grad, calc_hess = calc_hess)
         
         sig2_wo_sigK = one_nx - np.diag(Kxy @ Kxy_invKernEta.T)
-        assert np.min(sig2_wo_sigK) >= 0, f'The variance of the surr should be non-negative but min(sig2_wo_sigK) = {np.min(sig2_wo_sigK)}'
-        
         sig2_wo_sigK[sig2_wo_sigK<0] = 0 # Clip very small negative values 
         sig = np.sqrt(sig2_wo_sigK) * sigK
 
@@ -294,7 +292,8 @@ class GpEvalModel(GpMeanFun):
                                  calc_grad = calc_grad, calc_hess = calc_hess)
         
         sig2 = varK * (one_nx - np.diag(Kxy @ Kxy_invKernEta.T))
-        assert np.min(sig2) >= 0, f'The variance of the surr should be non-negative but min(sig2) = {np.min(sig2)}'
+        
+        sig2[sig2<0] = 0 # Clip very small negative values 
 
         if calc_grad:
             dsig2dx = self.calc_dsig2dx(sig2, Kxy_invKernEta, dKxy_dx, varK)
-- 
2.43.0


From 02fcc3168bce32cf5b183b1e5d956572aef06ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 14/34] fix: measure durations with a clock that cannot go
 backwards

---
 gpgradpy/src/kernel/Kernel.py    | 6 +++---
 gpgradpy/src/optz/GpHparaOptz.py | 4 ++--
 gpgradpy/src/optz/GpHparaX0.py   | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 37c5930..259c66f 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -244,7 +244,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             else:
                 condK = None
             
-            time_chofac_start = time.time()
+            time_chofac_start = time.perf_counter()
             
             if calc_chofac:
                 try:
@@ -284,7 +284,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             else:
                 condK = None
         
-            time_chofac_start = time.time()
+            time_chofac_start = time.perf_counter()
         
             if calc_chofac:
                 try:
@@ -301,7 +301,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             else:
                 Kcov_chofac = None
                 
-        time_chofac = time.time() - time_chofac_start
+        time_chofac = time.perf_counter() - time_chofac_start
         self._time_chofac += time_chofac
         
         return Kern, Kcor, Kcov, Kcov_chofac, condK, etaK, idx_etaK_argmax
diff --git a/gpgradpy/src/optz/GpHparaOptz.py b/gpgradpy/src/optz/GpHparaOptz.py
index 5fefd86..c13851b 100644
--- a/gpgradpy/src/optz/GpHparaOptz.py
+++ b/gpgradpy/src/optz/GpHparaOptz.py
@@ -164,7 +164,7 @@ class GpHparaOptz(OptzLkd, GpHparaX0, GpHparaCon, GpHparaGrad):
             
             ''' Perform optimization starting at all rows in hp_x0 '''
             
-            start_time = time.time() 
+            start_time = time.perf_counter() 
             
             if ('rescale' in self.wellcond_mtd) and (self.cond_vreq_max_iter > 1):
                 hp_optz, cond_val, surr_optz_info = self.optz_hp_max_lkd_mtd_rescale(i_optz, hp_x0, optz_bound)
@@ -174,7 +174,7 @@ class GpHparaOptz(OptzLkd, GpHparaX0, GpHparaCon, GpHparaGrad):
                 if self._gp_optz_plt_lkd_bool:
                     self.plt_debug_lkd(i_optz, optz_bound, hp_x0, hp_optz)
                     
-            time_hp_optz = time.time() - start_time    
+            time_hp_optz = time.perf_counter() - start_time    
             time_chofac  = self._time_chofac
             hp_vals      = self.hp_vec2dataclass(self.hp_info_optz_lkd, hp_optz)
             
diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index b54ead7..83d4882 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -15,7 +15,7 @@ class GpHparaX0:
     
     def select_hp_optz_x0(self, i_optz, hp_optz_info):
         
-        start_time = time.time() # Time to select points from LHS
+        start_time = time.perf_counter() # Time to select points from LHS
         
         ''' Select hp_x0 with LHS ''' 
         
@@ -59,7 +59,7 @@ class GpHparaX0:
         
         ''' Return hp_x0 '''
         
-        time_pick_hp0 = time.time() - start_time    
+        time_pick_hp0 = time.perf_counter() - start_time    
         
         return hp_x0, optz_bound, time_pick_hp0
         
-- 
2.43.0


From da6d25833b4a9bf99065172f2ca8bdd3d891dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 15/34] fix: never evaluate a model with data or
 hyperparameters it was not set up for

The factorization of the previous data was used after set_data(), in place
changes to the hyperparameters were not detected, equal hyperparameters were
rejected, and stored hyperparameters were views of the history that ignored
the rescaling they were optimized with.
---
 gpgradpy/src/GaussianProcess.py  |  7 ++++++
 gpgradpy/src/base/GpHpara.py     |  9 +++++++-
 gpgradpy/src/eval/GpEvalModel.py | 38 +++++++++++++++++---------------
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index af73fb1..8e3a1b7 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -131,6 +131,10 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
     _std_grad_in        = None
     bvec_use_grad       = None
     
+    hp_vals              = None
+    _hp_vals_model_setup = None
+    KernEta_chofac       = None # None if the GP is not setup to be evaluated
+    
     _vmin_req_grad      = np.nan
     
     # Initiate timers
@@ -239,6 +243,9 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             The default is None.
         '''
         
+        # The hyperparameters must be set with set_hpara() for the new data
+        self.KernEta_chofac = None
+        
         # The caller may modify its arrays after this method
         x_eval, fval, std_fval, grad, std_grad, bvec_use_grad \
             = copy.deepcopy((x_eval, fval, std_fval, grad, std_grad, bvec_use_grad))
diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 2c2f78f..22760a6 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -32,6 +32,9 @@ class GpHpara:
     
     def set_hp_from_idx(self, i_optz):
         
+        assert not (np.any(np.isnan(self.hp_theta_all[i_optz,:])) or np.isnan(self.hp_varK_all[i_optz])), \
+            f'There are no stored hyperparameters for i_optz = {i_optz}'
+        
         if np.isnan(self.hp_var_fval_all[i_optz]):
             self.known_eps_fval = True
             hp_var_fval = None
@@ -46,8 +49,12 @@ class GpHpara:
             self.known_eps_fgrad = False
             hp_var_fgrad = self.hp_var_fgrad_all[i_optz]
         
+        if self.b_use_data_scl:
+            # The hyperparameters depend on how the data were rescaled
+            self.DataScl.set_xscale_data(xvec_scale_in = self.xvec_rescaling_all[i_optz,:])
+        
         hp_vals = self.make_hp_class(
-            self.hp_beta_all[i_optz,:], self.hp_theta_all[i_optz,:], 
+            np.copy(self.hp_beta_all[i_optz,:]), np.copy(self.hp_theta_all[i_optz,:]), 
             self.hp_kernel_all[i_optz], self.hp_varK_all[i_optz], 
             hp_var_fval,                hp_var_fgrad)
         
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index f42f03a..051d59f 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -22,7 +22,8 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
-        self._hp_vals_model_setup = copy.copy(self.hp_vals)
+        self.KernEta_chofac       = None # The previous setup is no longer valid
+        self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
         fval_scl, _, grad_scl = self.get_scl_eval_data()[:3]
@@ -56,6 +57,21 @@ class GpEvalModel(GpMeanFun):
         else:
             self.invKernEta_fdiff = linalg.cho_solve(KernEta_chofac, f_diff)
         
+    def check_model_setup(self):
+        
+        assert self.KernEta_chofac is not None, 'To evaluate the surr the Cholesky decomposition is required'
+        
+        hp_setup, hp_now = vars(self._hp_vals_model_setup), vars(self.hp_vals)
+        check_hp_vals    = all(np.array_equal(np.array(hp_setup[key], dtype=float), 
+                                              np.array(hp_now[key],   dtype=float), 
+                                              equal_nan=True) for key in hp_setup)
+        
+        if check_hp_vals is False:
+            print('hp_vals has changed since setup_eval_model() was called')
+            print(f'hp_vals_model_setup = \n{self._hp_vals_model_setup}')
+            print(f'hp_vals = \n{self.hp_vals}')
+            raise Exception('Cannot change hp_vals between calling setup_eval_model() and eval_model()')
+        
     def eval_model(self, x2model_in, calc_grad = False, calc_hess = False, squeeze_nx = False):
         '''
         Parameters
@@ -88,7 +104,7 @@ class GpEvalModel(GpMeanFun):
         
         ''' Check inputs '''
         
-        assert self.KernEta_chofac is not None, 'To evaluate the surr the Cholesky decomposition is required'
+        self.check_model_setup()
         
         if x2model_in.ndim == 1:
             x2model = x2model_in[None,:]
@@ -102,14 +118,6 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
-        
-        if check_hp_vals is False:
-            print('hp_vals has changed since setup_eval_model() was called')
-            print(f'hp_vals_model_setup = \n{self._hp_vals_model_setup}')
-            print(f'hp_vals = \n{self.hp_vals}')
-            raise Exception('Cannot change hp_vals between calling setup_eval_model() and eval_model()')
-
         theta     = self.hp_vals.theta 
         hp_kernel = self.hp_vals.kernel
         hp_beta   = self.hp_vals.beta
@@ -221,6 +229,8 @@ class GpEvalModel(GpMeanFun):
         
         ''' Check inputs '''
         
+        self.check_model_setup()
+        
         if x2model_in.ndim == 1:
             x2model = x2model_in[None,:]
         elif x2model_in.ndim == 2:
@@ -233,14 +243,6 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
-        
-        if check_hp_vals is False:
-            print('hp_vals has changed since setup_eval_model() was called')
-            print(f'hp_vals_model_setup = \n{self._hp_vals_model_setup}')
-            print(f'hp_vals = \n{self.hp_vals}')
-            raise Exception('Cannot change hp_vals between calling setup_eval_model() and eval_model()')
-
         theta     = self.hp_vals.theta 
         hp_kernel = self.hp_vals.kernel
         hp_beta   = self.hp_vals.beta
-- 
2.43.0


From 5607cb2adfe92ba730c5b19b17a5ea7b21b51706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 16/34] fix: a call that fails or is interrupted leaves the GP
 as it was

---
 gpgradpy/src/GaussianProcess.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 8e3a1b7..c4077cb 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -7,6 +7,7 @@ Created on Mon Aug 24 13:00:59 2020
 """
 
 import copy
+import functools
 import numpy as np
 from scipy.optimize import NonlinearConstraint
 
@@ -22,6 +23,28 @@ from .eval   import GpEvalModel
 from .kernel import Kernel
 from .optz   import GpHparaOptz
     
+def all_or_nothing(method):
+    '''
+    Decorator for the methods that change the state of the GP. If the method 
+    fails or is interrupted, then the GP is left as it was before the call.
+    '''
+    
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        
+        state = dict(vars(self))
+        
+        if 'DataScl' in state:
+            state['DataScl'] = copy.copy(state['DataScl']) # It can be changed in place
+        
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = state
+            raise
+    
+    return wrapper
+    
 class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond, 
                       GpEvalModel, Kernel, GpHparaOptz):
 
@@ -221,6 +244,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         else:
             self.b_use_data_scl = False
         
+    @all_or_nothing
     def set_data(self, x_eval, fval, std_fval, 
                  grad = None, std_grad = None, bvec_use_grad = None):
         '''
@@ -374,6 +398,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         else:
             self.Rtensor_init = self.calc_Rtensor(x_eval, x_eval, 1)
             
+    @all_or_nothing
     def set_hpara(self, method2set_hp, i_optz, hp_vals = None, calc_cond = False):
         
         assert type(method2set_hp) is str, 'method2set_hp must be a string'
-- 
2.43.0


From 15782b5a0fdfae4dfff76f5f15bc89be7f2ba257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 17/34] fix: results loader clips all of the arrays that it
 returns and closes the files

---
 gpgradpy/results/PltOptzResults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index 20276f6..e675f49 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -41,7 +41,8 @@ class PltOptzResults:
             if '.npz' not in file_vec[i_file]:
                 raise Exception(f'Unknown format for {file_vec[i_file]}')
             
-            npzfile = np.load(fullpath)
+            with np.load(fullpath) as file:
+                npzfile = {key: file[key] for key in file.files}
             
             merit            = npzfile['merit_all']
             n_x0_i, n_iter_i = merit.shape
@@ -66,6 +67,7 @@ class PltOptzResults:
         else:
             merit_all = merit_all[:, :n_x0_max, :]
             opt_all   = opt_all[:, :n_x0_max, :]
+            fsb_all   = fsb_all[:, :n_x0_max, :]
             
         return merit_all, opt_all, fsb_all
     
-- 
2.43.0


From ff1494ece49ef755d87998bf9818cdfaddd77719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 18/34] fix: gradient of the likelihood and of the condition
 number when the nugget is not constant

---
 gpgradpy/src/optz/CalcLkd.py     |   6 +-
 gpgradpy/src/optz/GpHparaGrad.py | 111 ++++++++++++++++++++++++++-----
 2 files changed, 98 insertions(+), 19 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index fcbf7fb..70d0930 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -301,7 +301,8 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 = self.calc_all_K_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
             
             if calc_grad:
-                Kcov_grad_hp = self.calc_Kcov_grad_hp(self.hp_info_optz_lkd, hp_vals, Kern, Rtensor)
+                Kcov_grad_hp = self.calc_Kcov_grad_hp(self.hp_info_optz_lkd, hp_vals, Kern, Rtensor, 
+                                                      etaK, idx_etaK_argmax)
             else:
                 Kcov_grad_hp = None
             
@@ -323,7 +324,8 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
             
             if calc_grad:
-                KernGrad_hp = self.calc_KernGrad_hp(self.hp_info_optz_lkd, hp_vals, Rtensor)
+                KernGrad_hp = self.calc_KernGrad_hp(self.hp_info_optz_lkd, hp_vals, Rtensor, 
+                                                    etaK, idx_etaK_argmax, Kern)
             else:
                 KernGrad_hp = None
             
diff --git a/gpgradpy/src/optz/GpHparaGrad.py b/gpgradpy/src/optz/GpHparaGrad.py
index 623572d..09bc3b2 100644
--- a/gpgradpy/src/optz/GpHparaGrad.py
+++ b/gpgradpy/src/optz/GpHparaGrad.py
@@ -10,7 +10,8 @@ import numpy as np
 
 class GpHparaGrad:
     
-    def calc_KernGrad_hp(self, hp_optz_info, hp_vals, Rtensor, etaK = None):
+    def calc_KernGrad_hp(self, hp_optz_info, hp_vals, Rtensor, etaK = None, 
+                         idx_etaK_argmax = None, Kern = None):
         '''
         Parameters
         ----------
@@ -20,6 +21,11 @@ class GpHparaGrad:
             Class that contains all of the hyperparameters
         Rtensor : 3D numpy array of floats of shape [dim, n_data, n_data]
             Distance between two sets of nodes along all dim coordinates.
+        etaK : float, optional
+            Nugget that is used. The default is None, ie self._etaK is used.
+        idx_etaK_argmax : int, optional
+            Row of the matrix that determines the nugget. The default is None, 
+            ie the nugget does not depend on the hyperparameters.
 
         Returns
         -------
@@ -52,10 +58,58 @@ class GpHparaGrad:
         if hp_optz_info.has_kernel:
             KernGrad_hp[hp_optz_info.idx_kernel,:,:] \
                 = self.calc_Kern_grad_alpha(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad)
+        
+        if idx_etaK_argmax is not None:
+            KernGrad_hp += self.calc_Kmat_grad_from_etaK(KernGrad_hp, Kern, KernGrad_hp, Kern, 
+                                                         1.0, etaK, idx_etaK_argmax)
 
         return KernGrad_hp
+    
+    def calc_Kmat_grad_from_etaK(self, Kmat_grad_hp, Kmat, Kern_grad_hp, Kern, 
+                                 varK, etaK, idx_etaK_argmax):
+        '''
+        Parameters
+        ----------
+        Kmat_grad_hp : 3D numpy array of floats
+            Derivative of the regularized matrix when the nugget is held constant.
+        Kmat : 2D numpy array of floats
+            Matrix, including the noise if any, without its nugget.
+        Kern_grad_hp : 3D numpy array of floats
+            Derivative of the kernel matrix (not used if wellcond_mtd is 'precon')
+        Kern : 2D numpy array of floats
+            Kernel matrix (not used if wellcond_mtd is 'precon')
+        varK, etaK, idx_etaK_argmax
+            See calc_all_K_w_chofac()
+
+        Returns
+        -------
+        3D numpy array of floats
+            Change in the derivative since the nugget depends on the hyperparameters.
+        '''
+        
+        idx = idx_etaK_argmax
+        
+        if self.wellcond_mtd == 'precon':
+            # The nugget is added to the diagonal of the correlation matrix
+            diag          = np.diag(Kmat)
+            diag_frac     = np.einsum('kii->ki', Kmat_grad_hp) / ((1 + etaK) * diag)
+            Kmat_grad_row = Kmat_grad_hp[:,idx,:].copy()
+            Kmat_grad_row[:,idx] /= 1 + etaK
+            
+            row      = Kmat[idx,:] / np.sqrt(diag[idx] * diag)
+            row_grad = (Kmat_grad_row / np.sqrt(diag[idx] * diag) 
+                        - 0.5 * row * (diag_frac[:,[idx]] + diag_frac))
+            der_etaK = np.diag(diag)
+        else:
+            row      = Kern[idx,:]
+            row_grad = Kern_grad_hp[:,idx,:]
+            der_etaK = varK * np.eye(Kern.shape[0])
+            
+        etaK_grad = np.sum(np.sign(row) * row_grad, axis=1) / (self.cond_max_target - 1)
+        
+        return etaK_grad[:,None,None] * der_etaK
 
-    def calc_Kcov_grad_hp(self, hp_optz_info, hp_vals, Kern, Rtensor):
+    def calc_Kcov_grad_hp(self, hp_optz_info, hp_vals, Kern, Rtensor, etaK = None, idx_etaK_argmax = None):
         '''
         Parameters
         ----------
@@ -65,6 +119,11 @@ class GpHparaGrad:
             Class that contains all of the hyperparameters
         Rtensor : 3D numpy array of floats of shape [dim, n_data, n_data]
             Distance between two sets of nodes along all dim coordinates.
+        etaK : float, optional
+            Nugget that is used. The default is None, ie self._etaK is used.
+        idx_etaK_argmax : int, optional
+            Row of the matrix that determines the nugget. The default is None, 
+            ie the nugget does not depend on the hyperparameters.
 
         Returns
         -------
@@ -74,49 +133,63 @@ class GpHparaGrad:
         
         assert hp_vals.varK is not None, 'The method calc_Kcov_grad_hp() only needs to be called if varK is a hyperparameter'
         
+        if etaK is None: etaK = self._etaK
+        
         Kcov_grad_hp = np.zeros((hp_optz_info.n_hp, self.n_data, self.n_data))
 
         if hp_optz_info.has_theta:
             Kcov_grad_hp[hp_optz_info.idx_theta,:,:] \
-                = self.calc_Kcov_grad_theta(hp_vals, Rtensor)
+                = self.calc_Kcov_grad_theta(hp_vals, Rtensor, etaK)
 
         if hp_optz_info.has_kernel:
-            Kcov_grad_hp[hp_optz_info.idx_kernel,:,:] = self.calc_Kcov_grad_alpha(hp_vals, Rtensor)
+            Kcov_grad_hp[hp_optz_info.idx_kernel,:,:] = self.calc_Kcov_grad_alpha(hp_vals, Rtensor, etaK)
             
         if hp_optz_info.has_varK:
             Kcov_grad_hp[hp_optz_info.idx_varK,:,:] \
-                = self.calc_Kcov_grad_varK(hp_vals, Kern)
+                = self.calc_Kcov_grad_varK(hp_vals, Kern, etaK)
 
         if hp_optz_info.has_var_fval:
             Kcov_grad_hp[hp_optz_info.idx_var_fval,:,:] \
-                = self.calc_Kcov_grad_var_fval(hp_vals)
+                = self.calc_Kcov_grad_var_fval(hp_vals, etaK)
 
         if hp_optz_info.has_var_fgrad:
             Kcov_grad_hp[hp_optz_info.idx_var_fgrad,:,:] \
-                = self.calc_Kcov_grad_var_fgrad(hp_vals)
+                = self.calc_Kcov_grad_var_fgrad(hp_vals, etaK)
+        
+        if idx_etaK_argmax is not None:
+            Kern_grad_hp = np.zeros(Kcov_grad_hp.shape) # Kern does not depend on varK nor on the noise
+            
+            for idx_hp in (hp_optz_info.idx_theta, hp_optz_info.idx_kernel):
+                Kern_grad_hp[idx_hp,:,:] = Kcov_grad_hp[idx_hp,:,:] / hp_vals.varK
+            
+            Kcov_w_noise  = hp_vals.varK * Kern + np.diag(self.calc_noise_vec(hp_vals))
+            Kcov_grad_hp += self.calc_Kmat_grad_from_etaK(Kcov_grad_hp, Kcov_w_noise, Kern_grad_hp, Kern, 
+                                                          hp_vals.varK, etaK, idx_etaK_argmax)
 
         return Kcov_grad_hp
 
-    def calc_Kcov_grad_theta(self, hp_vals, Rtensor):
+    def calc_Kcov_grad_theta(self, hp_vals, Rtensor, eta = None):
+        
+        if eta is None: eta = self._etaK
         
         varK         = self.hp_varK if hp_vals.varK is None else hp_vals.varK
         Kcov_grad_th = varK * self.calc_Kern_grad_theta(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad) 
         
         if self.wellcond_mtd == 'precon':
-            eta = self._etaK
             for i in range(self.dim):
                 diag_Kcov_grad_th_i = np.diag(Kcov_grad_th[i])
                 Kcov_grad_th[i]    += np.diag(diag_Kcov_grad_th_i) * eta
             
         return Kcov_grad_th
 
-    def calc_Kcov_grad_alpha(self, hp_vals, Rtensor):
+    def calc_Kcov_grad_alpha(self, hp_vals, Rtensor, eta = None):
+        
+        if eta is None: eta = self._etaK
         
         varK            = self.hp_varK if hp_vals.varK is None else hp_vals.varK
         Kcov_grad_alpha = varK * self.calc_Kern_grad_alpha(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad)
         
         if self.wellcond_mtd == 'precon':
-            eta = self._etaK
             n_alpha = Kcov_grad_alpha.shape[0]
             
             for i in range(n_alpha):
@@ -125,9 +198,9 @@ class GpHparaGrad:
         
         return Kcov_grad_alpha
 
-    def calc_Kcov_grad_varK(self, hp_vals, Kern):
+    def calc_Kcov_grad_varK(self, hp_vals, Kern, eta = None):
         
-        eta = self._etaK
+        if eta is None: eta = self._etaK
         
         if self.wellcond_mtd == 'precon':
             Kcov_der_varK = Kern + eta * np.diag(np.diag(Kern))
@@ -136,19 +209,23 @@ class GpHparaGrad:
 
         return Kcov_der_varK
 
-    def calc_Kcov_grad_var_fval(self, hp_vals):
+    def calc_Kcov_grad_var_fval(self, hp_vals, eta = None):
+        
+        if eta is None: eta = self._etaK
         
         if self.wellcond_mtd == 'precon':
-            scalar = 1 + self._etaK
+            scalar = 1 + eta
         else:
             scalar = 1
         
         return scalar * np.diag(np.hstack((np.ones(self.n_eval), np.zeros(self.n_grad * self.dim))))
         
-    def calc_Kcov_grad_var_fgrad(self, hp_vals):
+    def calc_Kcov_grad_var_fgrad(self, hp_vals, eta = None):
+        
+        if eta is None: eta = self._etaK
         
         if self.wellcond_mtd == 'precon':
-            scalar = 1 + self._etaK
+            scalar = 1 + eta
         else:
             scalar = 1
             
-- 
2.43.0


From 9c1235be791e4b6b8dc4df4af8a34d44e03f48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 19/34] fix: a failed call also leaves the history of the
 hyperparameters as it was

---
 gpgradpy/src/GaussianProcess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index c4077cb..613b414 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -32,7 +32,9 @@ def all_or_nothing(method):
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
         
-        state = dict(vars(self))
+        # Arrays are copied since the ones of the history are changed in place
+        state = {key: np.copy(val) if isinstance(val, np.ndarray) else val 
+                 for key, val in vars(self).items()}
         
         if 'DataScl' in state:
             state['DataScl'] = copy.copy(state['DataScl']) # It can be changed in place
-- 
2.43.0


From e5557a5d47fc049b61b9697938f699e6e1509424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 20/34] fix: kernel hyperparameter is not lost when it is not
 optimized

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 22760a6..002e5e1 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -87,7 +87,7 @@ class GpHpara:
         if hp_optz_info.has_kernel:
             hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel].item() # Scalar, see HparaOptzVal
         else:
-            hp_kernel = None
+            hp_kernel = self.hp_kernel_default # None if the kernel has no hyperparameter
         
         if hp_optz_info.has_varK:
             assert self.b_has_noisy_data
-- 
2.43.0


From 383844b89a17958bc705e01f2faf367dea200ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 21/34] fix: derivative of the gradient-free Matern 5/2 kernel
 with respect to theta

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index f76b423..32d0ae5 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -117,20 +117,16 @@ class KernelMatern5f2Base:
         
         nu_mat = np.sqrt(nu_mat)
         
-        # Take the inverse of nu_mat without causing error for values of zero
-        # Use 1e-16 as min value, does not change final calculations since
-        # nu_mat[i,j] is zero iff Rtensor[k,i,j] is zero for all 0<=k<=(dim-1) 
-        inv_nu_mat = 1 / (2*np.maximum(nu_mat, 1e-16))
-        # inv_nu_mat = np.divide(0.5, nu_mat, out=np.zeros_like(nu_mat[0,0]), where=nu_mat!=0)
-
         sqrt5      = np.sqrt(5)
         Rtensor_sq = Rtensor**2
-        KernBase   = (1 + sqrt5 * nu_mat + (5.0/3.0) * nu_mat**2) * np.exp(-sqrt5 * nu_mat)
+        
+        # Derivative of KernBase wrt nu_mat**2
+        KernBase_grad_nu_sq = -(5.0/6.0) * (1 + sqrt5 * nu_mat) * np.exp(-sqrt5 * nu_mat)
 
         KernBase_grad_th = np.zeros((dim, n1, n1))
 
         for d in range(dim):
-            KernBase_grad_th[d,:,:] = -sqrt5 * Rtensor_sq[d,:,:] * inv_nu_mat * KernBase
+            KernBase_grad_th[d,:,:] = Rtensor_sq[d,:,:] * KernBase_grad_nu_sq
 
         return KernBase_grad_th
     
-- 
2.43.0


From 3cb63639d9f897ba30278e4172c6199f70802a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 22/34] fix: log the number of failed Cholesky decompositions
 and the largest initial condition number

---
 gpgradpy/src/optz/OptzLkd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 456ec44..48d7f2e 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -86,6 +86,8 @@ class OptzLkd(CalcLkd):
                 ln_lkd_val = -cond_val
                 
             # Store values
+            self._chofac_good = b_chofac_good
+            
             self._lkd_val   = ln_lkd_val
             self._lkd_grad  = ln_lkd_grad
             
@@ -263,9 +265,9 @@ class OptzLkd(CalcLkd):
             ''' Calculate parameters related to the condition number '''
             
             if self.b_use_cond_cstr:
-                lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
-                optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
-                if np.isnan(lkd_val):        optz_n_cho_fail += 1
+                cond_val           = self.calc_store_likelihood(x0_i)[2]
+                optz_max_init_cond = np.fmax(optz_max_init_cond, cond_val) # Initially nan
+                if not self._chofac_good:    optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
             ''' Optimization '''
-- 
2.43.0


From 84fd83f76aad4c5233d4ee571c1033ef9ec6c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 23/34] fix: start the hyperparameter optimization within its
 bounds

---
 gpgradpy/src/optz/OptzLkd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 48d7f2e..e32b5c1 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -260,7 +260,8 @@ class OptzLkd(CalcLkd):
         
         for i in range(n_optz):
 
-            x0_i = hp_x0_all[i, :]
+            # A start can be outside of the bounds, eg after rescaling
+            x0_i = np.clip(hp_x0_all[i, :], optz_bound.lb, optz_bound.ub)
             
             ''' Calculate parameters related to the condition number '''
             
-- 
2.43.0


From 608688fe747a737b10519d08a97a1073d8975876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 24/34] fix: a repeated iteration keeps no diagnostics of the
 previous hyperparameter search

---
 gpgradpy/src/base/GpParaDef.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 130b7b5..ada1766 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -281,9 +281,18 @@ class GpParaDef:
             self.optz_n_cho_fail_all[idx]    = surr_optz_info['optz_n_cho_fail']
             self.optz_n_cond2big_all[idx]    = surr_optz_info['optz_n_cond2big']
             self.optz_max_init_cond_all[idx] = surr_optz_info['optz_max_init_cond']
+        else:
+            # The row can have the info of an earlier optimization for this iteration
+            for info_all in (self.hp_optz_success,     self.hp_optz_iter_mean, 
+                             self.hp_optz_iter_max,    self.hp_optz_con_good, 
+                             self.optz_n_cho_fail_all, self.optz_n_cond2big_all, 
+                             self.optz_max_init_cond_all):
+                info_all[idx] = np.nan
             
         # Misc
         self.var_fval[idx]      = np.var(self._fval_in)
         
         if self.var_fval[idx] > 0:
             self.varK_var_fval[idx] = self.hp_varK_all[idx] / self.var_fval[idx]
+        else:
+            self.varK_var_fval[idx] = np.nan
-- 
2.43.0


From 79ada27bb9748ab55838ce70f4133e2a807c8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 25/34] fix: an update of the rescaled data that fails changes
 nothing

---
 gpgradpy/src/base/Rescaling.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index e8a45e2..bd23dae 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -6,6 +6,8 @@ Created on Fri Aug 26 15:59:10 2022
 @author: andremarchildon
 """
 
+from functools import wraps
+
 import numpy as np 
 
 from . import CommonFun
@@ -17,6 +19,23 @@ This is used by the rescaling method, which is presented in the following paper:
     Gradient-Enhanced Gaussian Covariance Matrix for Gaussian Processes
 '''
 
+def all_or_nothing(method):
+    
+    ''' An update that fails leaves the original and the scaled data as they were '''
+    
+    @wraps(method)
+    def update(self, *args, **kwargs):
+        
+        state = vars(self).copy()
+        
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = state
+            raise
+    
+    return update
+
 class RescalingXdata:
     
     def x_init_2_scl(self, x_init):
@@ -41,6 +60,7 @@ class RescalingXdata:
     def dist_scl_2_init(self, dist_scl):
         return dist_scl / np.mean(self.xvec_scale) # Scale by the mean of xvec_scale  
     
+    @all_or_nothing
     def set_xscale_data(self, x_shift_in = None, xvec_scale_in = None):
         
         ''' Rescale x data '''
@@ -179,6 +199,7 @@ class RescalingObjData:
         
         return mu, sig, dmudx, dsigdx, d2mudx2, d2sigdx2
     
+    @all_or_nothing
     def set_obj_scaling(self, obj_shift = None, obj_scale = None):
         
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
@@ -308,6 +329,7 @@ class RescalingNonlincon:
         
         return mu, sig, dmudx, dsigdx, d2mudx2, d2sigdx2
     
+    @all_or_nothing
     def set_nlc_scaling(self, nlc_shift = None, nlc_scale = None):
         
         # The rescaling is the same for the gradient of the standard deviation 
@@ -453,6 +475,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
     def get_scl_x_w_dist(self):
         return self.x_scl, self.Rtensor_scl
     
+    @all_or_nothing
     def set_obj_data(self, obj_init, std_obj_init, grad_init, std_grad_init, use_obj_shift = True, obj_scl_method = 'dflt_max'):
         
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
@@ -482,6 +505,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
+    @all_or_nothing
     def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = None):
         
         n_eval, self.nlc_n = nlc_val_init.shape
@@ -514,6 +538,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
     
     ''' Set and get scalled constraints '''    
     
+    @all_or_nothing
     def set_boxcon(self, lb_init, ub_init):
         
         assert self._xdata_set, 'Must call set_xdata before this method'
@@ -533,6 +558,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._boxcon_set, 'Must call set_boxcon before this method'
         return self.boxcon_lb_scl, self.boxcon_ub_scl
         
+    @all_or_nothing
     def set_lincon(self, A_init, lb_init, ub_init):
         
         assert self._xdata_set, 'Must call set_xdata before this method'
-- 
2.43.0


From 013b7abc8db30a3efe44bf1cdee5b1a52fe74b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 26/34] fix: incomplete data or data of another surrogate are
 refused before any are loaded

---
 gpgradpy/src/base/GpParaDef.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index ada1766..72a2b40 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -129,6 +129,12 @@ class GpParaDef:
         name = self.surr_name
         idx  = all_data[name + 'hp_beta_all'].shape[0]
 
+        assert idx <= self.hp_varK_all.size, f'Data from {idx} iterations but there is only room for {self.hp_varK_all.size}'
+
+        # Incomplete data or data from another surrogate must not be partly loaded
+        for key, val in self.export_data_surr(save2file=False).items():
+            assert all_data[key].shape == (idx, *val.shape[1:]), f'Unexpected shape for {key}: {all_data[key].shape}'
+
         # The hyper-parameters at each iteration
         self.hp_beta_all[:idx,:]          = all_data[name + 'hp_beta_all']
         self.hp_varK_all[:idx]            = all_data[name + 'hp_varK_all']
-- 
2.43.0


From 4add8713fe080655fa30e4db9fe21c2dd585917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 27/34] fix: info_surr_all_data prints when it is asked to

---
 gpgradpy/src/base/GpInfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index 48facc1..d99a73f 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -40,7 +40,10 @@ class GpInfo:
         data2print  = self.info_surr_summary(False)
         data2print += self.info_surr_theta(False)
         data2print += self.info_surr_optz(False)
-        
+
+        if print2screen:
+            print(data2print)
+
         return data2print
 
     def info_surr_options(self, print2screen=True):
-- 
2.43.0


From 82d705761189f690890909a24b60020280fffc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 28/34] fix: data provided in single precision is evaluated in
 double precision

---
 gpgradpy/src/GaussianProcess.py  | 9 ++++++---
 gpgradpy/src/eval/GpEvalModel.py | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 613b414..e448441 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -272,9 +272,12 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         # The hyperparameters must be set with set_hpara() for the new data
         self.KernEta_chofac = None
         
-        # The caller may modify its arrays after this method
-        x_eval, fval, std_fval, grad, std_grad, bvec_use_grad \
-            = copy.deepcopy((x_eval, fval, std_fval, grad, std_grad, bvec_use_grad))
+        # The caller may modify its arrays after this method. The surrogate is 
+        # evaluated in double precision even if the data is provided in single
+        x_eval, fval, std_fval, grad, std_grad \
+            = [None if val is None else np.array(val, dtype = float) 
+               for val in (x_eval, fval, std_fval, grad, std_grad)]
+        bvec_use_grad = copy.deepcopy(bvec_use_grad)
         
         ''' Check inputs '''
         
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 051d59f..916bf69 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -113,7 +113,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
-        nx = x2model.shape[0]
+        x2model = np.array(x2model, dtype = float)
+        nx      = x2model.shape[0]
         
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
@@ -238,7 +239,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
-        nx = x2model.shape[0]
+        x2model = np.array(x2model, dtype = float)
+        nx      = x2model.shape[0]
         
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
-- 
2.43.0


From 09729749552ffae43f3c5bad32f4f2c4d63b97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 29/34] fix: gradients that are used at none of the points are
 accepted

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index e448441..a606216 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -356,7 +356,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_fgrad_zero       = True
         elif self.known_eps_fgrad:
             self.b_optz_var_fgrad   = False 
-            self.b_fgrad_zero       = True if (np.max(std_grad) < 1e-10) else False
+            self.b_fgrad_zero       = True if (np.max(std_grad, initial = 0) < 1e-10) else False
         else:
             self.b_optz_var_fgrad   = True 
             self.b_fgrad_zero       = False
-- 
2.43.0


From a68c5fa5085238e26518755cec72fbd209527036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:35 +0000
Subject: [PATCH 30/34] fix: the constraint on the condition number is also
 satisfied after the rescaling

---
 gpgradpy/src/optz/OptzLkd.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index e32b5c1..8033726 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -150,15 +150,23 @@ class OptzLkd(CalcLkd):
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
         max_iter      = self.cond_vreq_max_iter
-        dist2line_all = np.full(max_iter, np.nan)
-        scale_vec_all = np.full((max_iter, self.dim), np.nan)
+        dist2line_all = np.full(max_iter + 1, np.nan)
+        scale_vec_all = np.full((max_iter + 1, self.dim), np.nan)
+        cond_all      = np.full(max_iter + 1, np.nan)
         
         if self.n_eval > 1:
             cnt      = 0
             not_done = True
             
             idx_theta   = self.hp_info_optz_lkd.idx_theta
-            best_hp_all = np.full((max_iter, best_hp.size), np.nan)
+            best_hp_all = np.full((max_iter + 1, best_hp.size), np.nan)
+            
+            # The last entry is the solution before the rescaling, only used 
+            # if all of the others do not satisfy the constraint
+            dist2line_all[-1]   = np.finfo(float).max
+            scale_vec_all[-1,:] = self.DataScl.xvec_scale
+            best_hp_all[-1,:]   = best_hp
+            cond_all[-1]        = cond_val
             
             while not_done:
                 x_scl      = self.DataScl.x_scl
@@ -175,6 +183,7 @@ class OptzLkd(CalcLkd):
                 dist2line_all[cnt]   = est_dist2sol
                 scale_vec_all[cnt,:] = xvec_scale_new
                 best_hp_all[cnt,:]   = x0_hp_vec
+                cond_all[cnt]        = self.calc_final_cond(x0_hp_vec)
                 
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
@@ -183,6 +192,12 @@ class OptzLkd(CalcLkd):
                 
                 cnt += 1
                 
+            # The rescaling changes the condition number
+            bvec_con_good = cond_all < 1.01 * self.cond_max
+            
+            if np.any(bvec_con_good):
+                dist2line_all[~bvec_con_good] = np.nan
+            
             idx_min_dist    = np.nanargmin(dist2line_all)
             scale_vec_final = scale_vec_all[idx_min_dist, :]
             best_hp_final   = best_hp_all[idx_min_dist, :]
-- 
2.43.0


From db02b8ea9607b0bd6761868e3915cc8721766e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:01 +0000
Subject: [PATCH 31/34] fix: an interrupted setup of the model is not used for
 evaluations

---
 gpgradpy/src/eval/GpEvalModel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 916bf69..f9f4ebf 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -41,21 +41,23 @@ class GpEvalModel(GpMeanFun):
             = self.calc_all_K_w_chofac(Rtensor, self.hp_vals, 
                                        b_normlz_w_varK = True, calc_cond = calc_cond)[:6]
         
-        f_diff = data_vec - mean_fun_vec
+        if KernEta_chofac is None:
+            invKernEta_fdiff = None
+        else:
+            f_diff           = data_vec - mean_fun_vec
+            invKernEta_fdiff = linalg.cho_solve(KernEta_chofac, f_diff)
         
         ''' Store data '''
         
         self.data_vec       = data_vec
         self.Kern           = Kern
         self.KernEta        = KernEta
-        self.KernEta_chofac = KernEta_chofac
         self.condK          = condK
         self.etaK_eval      = etaK
         
-        if KernEta_chofac is None:
-            self.invKernEta_fdiff = None
-        else:
-            self.invKernEta_fdiff = linalg.cho_solve(KernEta_chofac, f_diff)
+        # KernEta_chofac indicates that the setup is complete so it is set last
+        self.invKernEta_fdiff = invKernEta_fdiff
+        self.KernEta_chofac   = KernEta_chofac
         
     def check_model_setup(self):
         
-- 
2.43.0


From 73a9745cc83b079084fd33525014f089e4f121a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:26 +0000
Subject: [PATCH 32/34] fix: the Frobenius condition number can be used with
 noisy data

The diagonal of the covariance matrix is scaled with varK, it does not need
to be greater than 1.
---
 gpgradpy/src/optz/GpHparaCon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 9457df9..1a70ded 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -235,8 +235,6 @@ class GpHparaCon:
         return cond, cond_grad
     
     def calc_cond_fronorm_w_grad(self, Kmat_w_eta, Kmat_chofac, Kmat_grad_hp = None):
-        assert Kmat_w_eta[0,0] > 1, 'Kmat_w_eta should have diagonal entries greater than 1 since it contains the nugget and noise'
-        
         n     = Kmat_w_eta.shape[0]
         K_inv = cho_solve(Kmat_chofac, np.eye(n))
         
-- 
2.43.0


From 5ea1fd78d9f68dad88e30427d0457e968a007725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:26 +0000
Subject: [PATCH 33/34] fix: the gradient of the condition number is right for
 small varK

The smallest eigenvalue of the covariance matrix was limited to 1e-16 but it
can legitimately be smaller when the variance of the function is small.
---
 gpgradpy/src/optz/GpHparaCon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 1a70ded..e5fedb5 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -185,7 +185,9 @@ class GpHparaCon:
                 eig_min  = eigval_all[idx_mmin]
                 v_min    = eigvec_all[:,idx_mmin]
                 
-                eig_min_mod  = np.max((eig_min, 1e-16))
+                # Relative to the largest eigenvalue since Kmat_w_eta can be a 
+                # covariance matrix, ie can be scaled by a small varK
+                eig_min_mod  = np.max((eig_min, 1e-16 * eigval_all[idx_max]))
                 
                 v_outer_diff = np.outer(v_max, v_max) - cond * np.outer(v_min, v_min)
                 cond_grad    = np.zeros(nder)
-- 
2.43.0


From 574c1552c7d48c512ac9bb8aa8571c821b535f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:07 +0000
Subject: [PATCH 34/34] fix: the data must be given again after the method
 against ill-conditioning was changed

Otherwise the surrogate was evaluated with the factorisation and the
distances of the previous method.
---
 gpgradpy/src/GaussianProcess.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index a606216..ea36733 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -159,6 +159,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
     hp_vals              = None
     _hp_vals_model_setup = None
     KernEta_chofac       = None # None if the GP is not setup to be evaluated
+    wellcond_mtd         = None # Set with set_wellcond_mtd()
     
     _vmin_req_grad      = np.nan
     
@@ -232,6 +233,12 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         if not self.use_grad:
             wellcond_mtd = 'base'
         
+        if wellcond_mtd != self.wellcond_mtd:
+            # The data is set up for the previous method, set_data() is needed
+            self.KernEta_chofac = None
+            self.Rtensor_init   = None
+            self.DataScl        = None
+        
         self.wellcond_mtd    = wellcond_mtd
         
         if self.wellcond_mtd == 'precon':
-- 
2.43.0

