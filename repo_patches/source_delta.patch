From 40f5017f190241a98c66211aa9e1026931df5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 01/34] fix: do not accept the first cycle of a hysteretic
 force as steady state

The end of the first cycle was compared with the (zero) force of the initial
guess, so a cycle that happens to end at zero force was returned with the
transient of the first cycle still in it.
---
 tmdsimpy/nlforces/nonlinear_force.py | 6 ++++--
 tmdsimpy/nlforces/vector_iwan4.py    | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6ad59e8..6a0abf8 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -517,7 +517,9 @@ class HystereticForce(NonlinearForce):
         self.init_history_harmonic(unlth0, h)
         fp = self.fp
         
-        while( (its == 0) 
+        # The force before the first cycle is an initial guess (not the end of a
+        # cycle), so it cannot be used to conclude that the cycle has converged.
+        while( (its < max(1, min(2, max_repeats))) 
               or (acheck > atol and rcheck > rtol and its < max_repeats) ):
             
             # Time Loop                
@@ -536,7 +538,7 @@ class HystereticForce(NonlinearForce):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh
         
diff --git a/tmdsimpy/nlforces/vector_iwan4.py b/tmdsimpy/nlforces/vector_iwan4.py
index ab42b49..b864ed6 100644
--- a/tmdsimpy/nlforces/vector_iwan4.py
+++ b/tmdsimpy/nlforces/vector_iwan4.py
@@ -169,7 +169,10 @@ class VectorIwan4(Iwan4Force):
         self.init_history_harmonic(unlth0, h)
         fp = self.fp
         
-        while( (its == 0) or (acheck > atol and rcheck > rtol and its < max_repeats) ):
+        # The force before the first cycle is an initial guess (not the end of a
+        # cycle), so it cannot be used to conclude that the cycle has converged.
+        while( (its < max(1, min(2, max_repeats))) \
+              or (acheck > atol and rcheck > rtol and its < max_repeats) ):
             
             # Time Loop                
             for ti in range(Nt):
@@ -191,7 +194,7 @@ class VectorIwan4(Iwan4Force):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh, fsliders, dfslidersduh
     
-- 
2.43.0


From 9cc0e1b02b7b0ac5b566b19475764d081c53b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 02/34] fix: size of the conditioning vector with many unknowns
 after the harmonics

---
 tmdsimpy/utils/harmonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..68da36d 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -373,8 +373,9 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
         CtoP = CtoP.reshape(-1, order='F')[Ndof*h0:]
         
         if extras:
-            # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+            # Exactly m extra entries at end (m may exceed 2*Ndof)
+            Nharm = Nhc(h)*Ndof
+            CtoP = np.concatenate((CtoP[:Nharm], CtoP[Nharm]*np.ones(m)))
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From 76bff2ec2116134d176725d98a2ebf1c931d14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 03/34] fix: keep damping when set_new_C gets no arguments and
 forget stale proportional coefficients

---
 tmdsimpy/vibration_system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..aff00d8 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -260,10 +260,11 @@ class VibrationSystem:
             
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
+        elif not (C is None):
+            # Previous proportional coefficients do not describe the new C
+            self.ab = None
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        if not (C is None):
             self.C = C
         
         return
-- 
2.43.0


From bf6c6f88b7eb0362076d3a60ae529983ea11f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:25 +0000
Subject: [PATCH 04/34] fix: include every nonlinear force (or none) in the
 shooting equation of motion

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index aff00d8..c5f812c 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2091,7 +2091,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From bf326671a86495182794a45475951308a8a29947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 05/34] fix: stop silent continuation at a failed step and keep
 the verbosity setting

---
 tmdsimpy/continuation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..395c5f5 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -713,8 +713,7 @@ class Continuation:
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-        if silent:
-            self.config['verbose'] = 0
+        verbose = 0 if silent else self.config['verbose']
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -816,7 +815,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -830,21 +829,22 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From 1be9c09a1294f823da856143ac8d016887204f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 06/34] fix: do not modify the caller's FracLamList nor leave a
 retry value in FracLam

---
 tmdsimpy/continuation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 395c5f5..46d1c45 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -204,6 +204,9 @@ class Continuation:
         for key in config.keys():
             default_config[key] = config[key]
             
+        # Copy, so that the list of the caller is not modified
+        default_config['FracLamList'] = list(default_config['FracLamList'])
+        
         # Make sure to always start with the value of 'FracLam' that is passed 
         # in before proceeding to the list of other possible values. 
         if len(default_config['FracLamList']) == 0 \
@@ -865,6 +868,9 @@ class Continuation:
             
         #} End Continuation step loop  
         
+        # Later steps would start with the first value of FracLam again
+        self.config['FracLam'] = self.config['FracLamList'][0]
+        
         # Only return solved history.
         XlamP_full = XlamP_full[:step]
         
-- 
2.43.0


From e7ba41a54cfbf03307e400ff46bbaad0596158b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 07/34] fix: xtol_rel and etol_rel tolerances were swapped

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From 51ffb1e747364257dbeed766f5156eafaf46ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 08/34] fix: an exception in the residual function no longer
 changes the solver settings

---
 tmdsimpy/jax/solvers.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e9c921c..ec1d8d2 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -534,10 +534,9 @@ class NonlinearSolverOMP(NonlinearSolver):
         if verbose is None:
             verbose = self.config['verbose']
             
-        # Save out the setting from xtol in config, then will overwrite
-        # here to update to be used for this call. 
-        xtol_setting = self.config['xtol'] 
-        self.config['xtol'] = xtol
+        # Tolerances for this call, self.config is not changed since fun may
+        # raise an exception.
+        tol_dict = dict(self.config, xtol=xtol)
         
         max_iter = self.config['max_steps']
         
@@ -699,7 +698,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                               curr_iter))
             
             # Check for final convergence
-            converged = _check_convg(self.config['stopping_tol'], self.config, 
+            converged = _check_convg(self.config['stopping_tol'], tol_dict, 
                                      r_curr, e_curr, u_curr, 
                                      r_curr/r0, e_curr/e0, u_curr/u0)
             if converged:
@@ -729,7 +728,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         if no_nan_vals and not sol['success']:
             
             # Check convergence against the second set of tolerances
-            converged = _check_convg(self.config['accepting_tol'], self.config, 
+            converged = _check_convg(self.config['accepting_tol'], tol_dict, 
                                  r_curr, e_curr, u_curr, 
                                  r_curr/r0, e_curr/e0, u_curr/u0)
             
@@ -744,9 +743,6 @@ class NonlinearSolverOMP(NonlinearSolver):
         if(verbose):
             print(sol['message'], ' Nfev=', sol['nfev'], ' Njev=', sol['njev'])
         
-        # Set xtol in config back to the value passed in. 
-        self.config['xtol'] = xtol_setting
-        
         return X, R, dRdX, sol
     
     
-- 
2.43.0


From 063c7616fea9b4c11ff705fdc955dd0b56e2289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 09/34] fix: eigs does not modify the requested subset

---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..0310f20 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,8 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        subset_by_index = [subset_by_index[0], 
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From c73bc0a2316af00374f136f7bb7ded250f2ead02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 10/34] fix: scale rows of the Jacobian with a vector residual
 conditioning

---
 tmdsimpy/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 0310f20..3d0c435 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -287,7 +287,7 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         R, dRdXp = fun(Xp)[:2]
         
         Rc = RPtoC * R
-        dRcdXc = RPtoC*dRdXp*CtoP
+        dRcdXc = (RPtoC*(dRdXp*CtoP).T).T
         
         return (Rc, dRcdXc)
         
-- 
2.43.0


From f5ef44872bd0d01f44c60695c59fe2e506fe0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 11/34] fix: saving continuation results survives an
 interruption

---
 tmdsimpy/utils/continuation.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index a021f3a..e0815d2 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -9,6 +9,7 @@ tmdsimpy.postprocess.continuation :
     Module for post-processing functions from continuation solutions
 """
 
+import os
 from os.path import exists
 import numpy as np
 from . import harmonic as hutils
@@ -98,20 +99,32 @@ def continuation_save(XlamP, dirP_prev, fname):
 
     """
     
+    # Same file name as is used by numpy.savez
+    fname = os.fspath(fname)
+    if not fname.endswith('.npz'):
+        fname = fname + '.npz'
+    
     if exists(fname):
         # Load previous solutions + Augment
-        loaded = np.load(fname, allow_pickle=False)
+        with np.load(fname, allow_pickle=False) as loaded:
         
-        XlamP_full = np.vstack((loaded['XlamP'], XlamP.reshape(1,-1)))
-        dirP_prev_full = np.vstack((loaded['dirP_prev'], dirP_prev.reshape(1,-1)))
+            XlamP_full = np.vstack((loaded['XlamP'], XlamP.reshape(1,-1)))
+            dirP_prev_full = np.vstack((loaded['dirP_prev'], 
+                                        dirP_prev.reshape(1,-1)))
         
     else: 
         # Rename for consistent save line
         XlamP_full = XlamP.reshape(1,-1)
         dirP_prev_full = dirP_prev.reshape(1,-1)
     
-    # Save augmented solutions
-    np.savez(fname, XlamP=XlamP_full, dirP_prev=dirP_prev_full)
+    # Save augmented solutions. The existing file is only replaced once the new 
+    # one is complete, so that interruptions cannot lose previous solutions
+    fname_tmp = fname + '.tmp'
+    
+    with open(fname_tmp, 'wb') as file:
+        np.savez(file, XlamP=XlamP_full, dirP_prev=dirP_prev_full)
+    
+    os.replace(fname_tmp, fname)
     
     return
 
-- 
2.43.0


From b07695de06b34b60de1ad7435d3bda8f4b869e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 12/34] fix: align second header line of
 print_vprnm_amp_phase_stats with its columns

---
 tmdsimpy/utils/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index e0815d2..46edcb3 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -710,7 +710,8 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
                                             'Force Sine [N]',
                                             'Frequency [Hz]'))
             
-            harmonic_line = ('{:^18s} & {:^18s} '.format('','')) \
+            harmonic_line = ('{:^18s} & {:^18s} & {:^18s} & {:^18s} '\
+                             .format('','','','')) \
                 + ''.join(['& {:^22s}'.format('dof={}, h={}'.format(ind, rh[1])) \
                            for ind,rh in enumerate(output_recov_harmonic_list)]) \
                 + '\n'
-- 
2.43.0


From 4917937a44c758770ac4be919bb73f07fbcd5d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 13/34] fix: printed amplitude of the zeroth harmonic

---
 tmdsimpy/utils/continuation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index 46edcb3..6d2a9a4 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -783,7 +783,11 @@ def _calc_harmonic_resp(U, w, h, order, output_recov, output_harmonic):
     Nhc_before = hutils.Nhc(h[h < output_harmonic])
     
     amp_cos = output_recov @ U[Nhc_before*Ndof:(Nhc_before+1)*Ndof]
-    amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
+    
+    if output_harmonic == 0: # Zeroth harmonic only has one component
+        amp_sin = 0.0
+    else:
+        amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
     
     amp = np.sqrt(amp_cos**2 + amp_sin**2) *((output_harmonic*w)**order)
                         
-- 
2.43.0


From 69411e4c1032287361039ebde85f83d9b9daa893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 14/34] fix: static force of elastic dry friction starts from
 the committed force

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..faab4e8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..d5c4243 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From 882314cf45611448ad3ba4b14a8d6e32243c68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 15/34] fix: local_force_history of elastic dry friction with a
 scalar u0

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 15 +--------------
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 15 +--------------
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index faab4e8..29e51ba 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -434,19 +434,6 @@ class ElasticDryFriction2D(NonlinearForce):
 
         """
         
-         #########################
-         # Determine Slider Starting Position
-         
-        if self.u0 is None:
-            # Initialize based on the zeroth harmonic.
-            u0 = unlth0
-        else:
-            u0 = self.u0*np.ones_like(unlth0[0])
-        
-        pars = np.array([self.kt, self.kn, self.mu])
-        
-        fxyn_t = _local_force_history(unlt, pars, u0[::2], self.meso_gap)
-        
         #########################
         # Determine Slider Starting Position
 
@@ -454,7 +441,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones(unlt.shape[1])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index d5c4243..e759f1e 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -445,19 +445,6 @@ class ElasticDryFriction3D(NonlinearForce):
 
         """
         
-         #########################
-         # Determine Slider Starting Position
-         
-        if self.u0 is None:
-            # Initialize based on the zeroth harmonic.
-            u0 = unlth0
-        else:
-            u0 = self.u0*np.ones_like(unlth0[0])
-        
-        pars = np.array([self.kt, self.kn, self.mu])
-        
-        fxyn_t = _local_force_history(unlt, pars, u0[self.ti], self.meso_gap)
-        
         #########################
         # Determine Slider Starting Position
 
@@ -465,7 +452,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones(unlt.shape[1])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
-- 
2.43.0


From efe6b5a544f18053b38fecdaed0f948b24b644ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 16/34] fix: local_harmonic_forces with elements initialised
 from the zeroth harmonic

---
 tmdsimpy/postprocess/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..58c3a05 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,7 +84,7 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
                 unlth0 = nlforce.u0
-- 
2.43.0


From 3af2fc1b26e1bb6e4b7b137529d76a2cdd5733d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 17/34] fix: elastic dry friction AFT with only the zeroth
 harmonic

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 29e51ba..3d3b225 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -631,7 +631,7 @@ def _local_aft_eldry(Uwlocal, pars, u0, htuple, Nt, u0h0, meso_gap):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0]-1) / Nhc)
         
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index e759f1e..5f562f7 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -651,7 +651,7 @@ def _local_aft_eldry(Uwlocal, pars, u0, htuple, Nt, u0h0, meso_gap):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0]-1) / Nhc)
         
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
-- 
2.43.0


From 9ce207ba5699d57e01501cbb7767843983ac7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 18/34] fix: JAX Jenkins AFT with only the zeroth harmonic

---
 tmdsimpy/jax/nlforces/jenkins_element.py | 2 +-
 tmdsimpy/jax/nlforces/vector_jenkins.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/jenkins_element.py b/tmdsimpy/jax/nlforces/jenkins_element.py
index a88960f..fe58860 100644
--- a/tmdsimpy/jax/nlforces/jenkins_element.py
+++ b/tmdsimpy/jax/nlforces/jenkins_element.py
@@ -285,7 +285,7 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0]-1) / Nhc)
     
     # Recover pars for convenience
     kt = pars[0]
diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index e16870e..f802618 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -274,7 +274,7 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0]-1) / Nhc)
     
     # Recover pars for convenience
     kt = pars[0]
-- 
2.43.0


From d0e3b81843fb08de7042da2511ecfa50238e36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 19/34] fix: gradient of elastic dry friction AFT without
 contact

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 10 +++++++---
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 15 +++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 3d3b225..ff5b056 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -578,10 +578,14 @@ def _local_eldry_loop_body(ind, ft, unlt, kt, mu):
 
     """
     
-    fcurr = jnp.minimum(kt*(unlt[ind, 0::2]-unlt[ind-1, 0::2]) + ft[ind-1, 0::2],
-                            mu*ft[ind, 1::2])
+    flim = mu*ft[ind, 1::2]
     
-    ft = ft.at[ind, 0::2].set(jnp.maximum(fcurr, -mu*ft[ind, 1::2]))
+    fpred = kt*(unlt[ind, 0::2]-unlt[ind-1, 0::2]) + ft[ind-1, 0::2]
+    
+    # Must use where to get gradient consistently correct (zero without contact)
+    fcurr = jnp.where(fpred < flim, fpred, flim)
+    
+    ft = ft.at[ind, 0::2].set(jnp.where(fcurr > -flim, fcurr, -flim))
     
     return ft
  
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index 5f562f7..fe0f2a8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -594,14 +594,17 @@ def _local_eldry_loop_body(ind, ft, unlt, kt, mu):
     """
     
    
-    fcurrx = jnp.minimum(kt*(unlt[ind, 0::3]-unlt[ind-1, 0::3]) + ft[ind-1, 0::3],
-                            mu*ft[ind, 2::3])
+    flim = mu*ft[ind, 2::3]
     
-    fcurry = jnp.minimum(kt*(unlt[ind, 1::3]-unlt[ind-1, 1::3]) + ft[ind-1, 1::3],
-                            mu*ft[ind, 2::3])
+    fpredx = kt*(unlt[ind, 0::3]-unlt[ind-1, 0::3]) + ft[ind-1, 0::3]
+    fpredy = kt*(unlt[ind, 1::3]-unlt[ind-1, 1::3]) + ft[ind-1, 1::3]
     
-    ft = ft.at[ind, 0::3].set(jnp.maximum(fcurrx, -mu*ft[ind, 2::3]))
-    ft = ft.at[ind, 1::3].set(jnp.maximum(fcurry, -mu*ft[ind, 2::3]))
+    # Must use where to get gradient consistently correct (zero without contact)
+    fcurrx = jnp.where(fpredx < flim, fpredx, flim)
+    fcurry = jnp.where(fpredy < flim, fpredy, flim)
+    
+    ft = ft.at[ind, 0::3].set(jnp.where(fcurrx > -flim, fcurrx, -flim))
+    ft = ft.at[ind, 1::3].set(jnp.where(fcurry > -flim, fcurry, -flim))
     
     return ft
  
-- 
2.43.0


From 8df7703a8ddb2d06e3a70a99787c699c3853f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 20/34] fix: rough contact AFT with only the zeroth harmonic

---
 tmdsimpy/jax/nlforces/roughcontact/rough_contact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py b/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
index 0081a4c..b02580b 100644
--- a/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
+++ b/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
@@ -998,7 +998,7 @@ def _local_aft(Uwlocal, unlth0, mu, meso_gap, gaps, gap_weights,
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0]-1) / Nhc)
     
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
-- 
2.43.0


From 62f70dcaa228352cc2ea9809962f82c3743caaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 21/34] fix: rough contact gradient without contact or friction

---
 .../jax/nlforces/roughcontact/_asperity_functions.py   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py b/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
index 702c6f3..b84fa3e 100644
--- a/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
+++ b/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
@@ -291,10 +291,11 @@ def _tangential_asperity(uxy, uxy0, fxy0, fn, a, Gstar, mu):
     fs = jnp.outer(mu*fn,np.ones(2))
     
     # Positive slip
-    fxy = jnp.minimum(fxy, fs)
+    # Must use where to get gradient consistently correct (zero without contact)
+    fxy = jnp.where(fxy < fs, fxy, fs)
     
     # Negative slip
-    fxy = jnp.maximum(fxy, -fs)
+    fxy = jnp.where(fxy > -fs, fxy, -fs)
     
     return fxy
     
@@ -414,10 +415,11 @@ def _tangential_asperity_mif(uxy, uxy0, txy0, fn, a, Gstar, mu,
             + txy0_interp
     
     # Positive slip limit
-    txy = jnp.minimum(txy, jnp.atleast_3d(mu*tn))
+    # Must use where to get gradient consistently correct (zero without contact)
+    txy = jnp.where(txy < jnp.atleast_3d(mu*tn), txy, jnp.atleast_3d(mu*tn))
     
     # Negative slip limit
-    txy = jnp.maximum(txy, jnp.atleast_3d(-mu*tn))
+    txy = jnp.where(txy > jnp.atleast_3d(-mu*tn), txy, jnp.atleast_3d(-mu*tn))
     
     # Integrate over radii on each asperity, 
     # Equation 38 of Porter and Brake (2023)
-- 
2.43.0


From 114a7ac8e07d8aabd849cfdcaf6d65caf1915fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 22/34] fix: base excitation FRF includes inertial coupling and
 several base DOFs

---
 tmdsimpy/vibration_system.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index c5f812c..9569f25 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -997,13 +997,15 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
-                     
-         
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
+        # Just using the mass/damping/stiffness matrix columns to generate base
+        # forces, all base DOFs move together.
+        Mbase, Cbase, Kbase = [
+            mat[np.logical_not(base_flag),:][:, base_flag].sum(axis=1, keepdims=True) 
+            for mat in (self.M, self.C, self.K)]
+        
+        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w + Mbase*Ub[0]*w**2
+        
+        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w + Mbase*Ub[1]*w**2
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From 4168405bd371a2078240b7843abfc9fc89a31793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 23/34] fix: shift_pm_pi wraps by whole turns

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 68da36d..cb96830 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -706,7 +706,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From 9bec9781deaf2d6ae8d4bba8a07808cf1bf22dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:11 +0000
Subject: [PATCH 24/34] fix: Continuation keeps conditioning of the user for
 repeated runs

---
 tmdsimpy/continuation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 46d1c45..23aa549 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -738,6 +738,11 @@ class Continuation:
         if np.atleast_1d(self.RPtoC).shape[0] == 1:
             self.RPtoC = self.RPtoC*np.ones_like(XlamP0)
             
+        # Save conditioning to restore at the end, so it is the same when 
+        # continuation is called again
+        CtoP_initial = self.CtoP
+        RPtoC_initial = self.RPtoC
+            
         
         # No continuation, fixed at initial lam0
         # Not sure if fun accepts calc_grad, so will always calculate the gradient
@@ -893,6 +898,10 @@ class Continuation:
                 print('Continuation completed due to maximum number of steps'\
                       + ' (MaxSteps={}).'.format(self.config['MaxSteps']))
         
+        # Restore conditioning that was updated during the steps
+        self.CtoP = CtoP_initial
+        self.RPtoC = RPtoC_initial
+        
         return XlamP_full
     
 
-- 
2.43.0


From 0006fedb443d42a6f0f5febed9f39fe6836c1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 25/34] fix: Hysteretic force histories of integer displacement
 arrays are not truncated

---
 tmdsimpy/nlforces/nonlinear_force.py | 2 +-
 tmdsimpy/nlforces/vector_iwan4.py    | 4 ++--
 tmdsimpy/nlforces/vector_jenkins.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6a0abf8..552694c 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -508,7 +508,7 @@ class HystereticForce(NonlinearForce):
         Nt,Ndnl = unlt.shape
         Nhc = hutils.Nhc(h)
         
-        ft = np.zeros_like(unlt)
+        ft = np.zeros((Nt, Ndnl))
         dfduh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         dfdudh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         
diff --git a/tmdsimpy/nlforces/vector_iwan4.py b/tmdsimpy/nlforces/vector_iwan4.py
index b864ed6..6ff47dd 100644
--- a/tmdsimpy/nlforces/vector_iwan4.py
+++ b/tmdsimpy/nlforces/vector_iwan4.py
@@ -156,7 +156,7 @@ class VectorIwan4(Iwan4Force):
         Nt,Ndnl = unlt.shape
         Nhc = hutils.Nhc(h)
         
-        ft = np.zeros_like(unlt)
+        ft = np.zeros((Nt, Ndnl))
         dfduh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         dfdudh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         
@@ -273,7 +273,7 @@ class VectorIwan4(Iwan4Force):
         Nt,Ndnl = unlt.shape
         Nhc = hutils.Nhc(h)
         
-        ft = np.zeros_like(unlt)
+        ft = np.zeros((Nt, Ndnl))
         dfduh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         dfdudh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         
diff --git a/tmdsimpy/nlforces/vector_jenkins.py b/tmdsimpy/nlforces/vector_jenkins.py
index 2a52342..5a16ab9 100644
--- a/tmdsimpy/nlforces/vector_jenkins.py
+++ b/tmdsimpy/nlforces/vector_jenkins.py
@@ -121,7 +121,7 @@ class VectorJenkins(JenkinsForce):
         Nt,Ndnl = unlt.shape
         Nhc = hutils.Nhc(h)
         
-        ft = np.zeros_like(unlt)
+        ft = np.zeros((Nt, Ndnl))
         dfduh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         dfdudh = np.zeros((Nt, Ndnl, Ndnl, Nhc))
         
-- 
2.43.0


From 6ee3a3da3bb3b34a276e8fbede121dfbd268634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 26/34] fix: static_res accepts integer displacement arrays

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 9569f25..7657ca5 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -304,7 +304,7 @@ class VibrationSystem:
 
         """
         
-        Fnl = np.zeros_like(U)
+        Fnl = np.zeros(U.shape)
         dFnldU = np.zeros((U.shape[0], U.shape[0]))
         
         
-- 
2.43.0


From e77a64236d011d74f494974c82ac16172564a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 27/34] fix: epmc_res accepts integer arrays of unknowns

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 7657ca5..f4551f6 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -727,7 +727,7 @@ class VibrationSystem:
         
         # Convert Log Amplitude
         la = Uwxa[-1]
-        Amp = 10**la
+        Amp = 10.0**la
         
         # Separate out Zeroth Harmonic (no amplitude scaling and applied force)
         h0 = 1*(h[0] == 0)
-- 
2.43.0


From 8efba46bfcccf6058ba70b6ce12dfa29a0403a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:28 +0000
Subject: [PATCH 28/34] fix: rotate_subtract_phase does not truncate for
 integer arrays

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index cb96830..d80ea23 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -763,7 +763,7 @@ def rotate_subtract_phase(U_orig, Ndof, h, phase_angle, h_rotate):
     """
     
     U_orig = np.atleast_2d(U_orig)
-    U_rot = np.copy(U_orig)
+    U_rot = np.array(U_orig, dtype=float)
     
     h0 = h[0] == 0 # flag for 0th harmonic
     
-- 
2.43.0


From 4e5502d8a1f5f4c1b0d5193bcd6e17a2d30bbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:28 +0000
Subject: [PATCH 29/34] fix: linear_interp accepts integer arrays of solutions

---
 tmdsimpy/postprocess/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/postprocess/continuation.py b/tmdsimpy/postprocess/continuation.py
index d7060ac..2b03381 100644
--- a/tmdsimpy/postprocess/continuation.py
+++ b/tmdsimpy/postprocess/continuation.py
@@ -197,7 +197,7 @@ def linear_interp(XlamP_full, new_values, reference_values=None):
     
     XlamP_interp = XlamP_full[whole_ind, :]
     
-    XlamP_interp += remainder_ind.reshape(-1, 1)\
+    XlamP_interp = XlamP_interp + remainder_ind.reshape(-1, 1)\
         *(XlamP_full[next_ind, :] - XlamP_full[whole_ind, :])
     
     XlamP_interp[nan_mask, :] = np.nan
-- 
2.43.0


From a7fb42fdf626d235446033d709a4bdb6967dc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:44 +0000
Subject: [PATCH 30/34] fix: restore continuation settings exactly, also after
 a run that ended with an error

---
 tmdsimpy/continuation.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 23aa549..cd936a7 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -713,6 +713,29 @@ class Continuation:
         
         assert return_grad==False, 'Have not implemented this flag yet.'
         
+        # Conditioning up front for static solution
+        if self.setCtoPto1:
+            self.CtoP = np.ones_like(XlamP0)
+        
+        # Conditioning and FracLam are updated during the steps. Restore them
+        # at the end (including if a function raises an error), so they are the 
+        # same when continuation is called again.
+        CtoP_initial = self.CtoP
+        RPtoC_initial = self.RPtoC
+        
+        try:
+            return self._run_continuation(fun, XlamP0, lam0, lam1)
+        finally:
+            self.CtoP = CtoP_initial
+            self.RPtoC = RPtoC_initial
+            self.config['FracLam'] = self.config['FracLamList'][0]
+    
+    def _run_continuation(self, fun, XlamP0, lam0, lam1):
+        """
+        Solves for the initial point and takes the steps of `continuation`, 
+        see that function for the arguments and return value. 
+        """
+        
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
@@ -727,9 +750,6 @@ class Continuation:
         
         
         # Conditioning up front for static solution
-        if self.setCtoPto1:
-            self.CtoP = np.ones_like(XlamP0)
-            
         if self.setRPtoCto1:
             self.RPtoC = np.ones_like(XlamP0)
             
@@ -738,11 +758,6 @@ class Continuation:
         if np.atleast_1d(self.RPtoC).shape[0] == 1:
             self.RPtoC = self.RPtoC*np.ones_like(XlamP0)
             
-        # Save conditioning to restore at the end, so it is the same when 
-        # continuation is called again
-        CtoP_initial = self.CtoP
-        RPtoC_initial = self.RPtoC
-            
         
         # No continuation, fixed at initial lam0
         # Not sure if fun accepts calc_grad, so will always calculate the gradient
@@ -898,10 +913,6 @@ class Continuation:
                 print('Continuation completed due to maximum number of steps'\
                       + ' (MaxSteps={}).'.format(self.config['MaxSteps']))
         
-        # Restore conditioning that was updated during the steps
-        self.CtoP = CtoP_initial
-        self.RPtoC = RPtoC_initial
-        
         return XlamP_full
     
 
-- 
2.43.0


From bf89925f0f09bd614c8426f70d94dc49f957c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:37 +0000
Subject: [PATCH 31/34] fix: line search in nsolve follows the verbose argument
 of nsolve

---
 tmdsimpy/jax/solvers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index ec1d8d2..343d764 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -240,7 +240,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         
         return x
     
-    def line_search(self, fun, X, Rx, deltaX):
+    def line_search(self, fun, X, Rx, deltaX, verbose=None):
         """
         Line search algorithm to help in the numerical solution to a set of 
         nonlinear equations. This is used by `nsolve`.
@@ -261,6 +261,11 @@ class NonlinearSolverOMP(NonlinearSolver):
         deltaX : (N,) numpy.ndarray
             Step direction of interest, generally calculated based on gradient
             solution step.
+        verbose : bool or None, optional
+            Flag to print line search information if True.
+            If None, then the configuration setting for 'verbose' from 
+            initialization will be used.
+            The default is None.
 
         Returns
         -------
@@ -303,6 +308,9 @@ class NonlinearSolverOMP(NonlinearSolver):
         
         """
         
+        if verbose is None:
+            verbose = self.config['verbose']
+        
         nfev = 0 # Count number of function evals
         message = 'Line search exited at max iterations.'
         
@@ -338,7 +346,7 @@ class NonlinearSolverOMP(NonlinearSolver):
             message = 'Line search alpha=1 satisfies tolerance.'
             converged = True
             
-            if self.config['verbose']:
+            if verbose:
                 print(message)
             
         if converged:
@@ -413,7 +421,7 @@ class NonlinearSolverOMP(NonlinearSolver):
             message += ' Line search changed from final solution to upper'\
                 + ' bracket to prevent an alpha=0 step (no change in X).'
             
-        if self.config['verbose']:
+        if verbose:
             print('Line search finished with '\
                   + '{} iterations, alpha={:.4f}.'.format(ind+1, alpha))
             print(message)
@@ -651,7 +659,8 @@ class NonlinearSolverOMP(NonlinearSolver):
             
             ###### # Line search Solution
             if self.config['line_search_iters'] > 0:
-                alpha_ls,sol_ls = self.line_search(fun, X, R, deltaX)
+                alpha_ls,sol_ls = self.line_search(fun, X, R, deltaX,
+                                                   verbose=verbose)
                 
                 deltaX = alpha_ls * deltaX
             
-- 
2.43.0


From adabdf6e0a85b8c7a035ec465e1953d47a48adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:52 +0000
Subject: [PATCH 32/34] fix: line search printing with a zero iteration budget

With line_search_iters = 0 and verbose output the final message used the loop
variable of a loop that was never entered (UnboundLocalError).  The number of
trial points is already counted by nfev.
---
 tmdsimpy/jax/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 343d764..777d3b7 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -423,7 +423,7 @@ class NonlinearSolverOMP(NonlinearSolver):
             
         if verbose:
             print('Line search finished with '\
-                  + '{} iterations, alpha={:.4f}.'.format(ind+1, alpha))
+                  + '{} iterations, alpha={:.4f}.'.format(nfev-1, alpha))
             print(message)
             
         sol = {'nfev' : nfev,
-- 
2.43.0


From 9bfc519ec7b64d6a354fce6d4e7a862b305b4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 33/34] fix: vprnm_res accepts a whole-number force vector

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index f4551f6..b023916 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -1470,7 +1470,7 @@ class VibrationSystem:
         # Baseline HBM for first set of Equations
         
         # Evaluate the N Harmonic Balance Equations
-        Fscale = np.copy(Fl)
+        Fscale = np.array(Fl, dtype=float)
         Fscale[(h[0]==0)*Ndof:] *= UwF[-1]
         
         Rhbm_dRhbmdU_dRhbmdw = self.hbm_res(UwF[:-1], Fscale, h, 
-- 
2.43.0


From 47478fcd7482b8f697b851c8d2a05eca6f4bf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:03 +0000
Subject: [PATCH 34/34] fix: Iwan elements accept displacements stored as a JAX
 array

NonlinearSolverOMP hands JAX arrays to the residual function; the slider
forces were then updated in place, which raises a TypeError.
---
 tmdsimpy/nlforces/iwan4_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/nlforces/iwan4_element.py b/tmdsimpy/nlforces/iwan4_element.py
index 84ff5ca..6a881cf 100644
--- a/tmdsimpy/nlforces/iwan4_element.py
+++ b/tmdsimpy/nlforces/iwan4_element.py
@@ -270,7 +270,7 @@ class Iwan4Force(HystereticForce):
         """
         
         # Stuck Force
-        fnlsliders = unl - self.up + self.fpsliders
+        fnlsliders = np.array(unl - self.up + self.fpsliders)
 
         # Mask of stuck sliders == places with unit derivative
         dfnlsliders_dunl = np.less_equal(np.abs(fnlsliders), self.phisliders)
-- 
2.43.0

