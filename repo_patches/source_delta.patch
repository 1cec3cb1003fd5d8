From ed544d0bd7fd25c459aef4961b83e074d5e9c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/71] fix: phase_option SU raised IndexError with ndarray
 operators

normalize_SU only treated the prenormalised fidelity as a scalar when it
has no shape attribute; numpy scalars have an empty shape. Same handling
as normalize_PSU.
---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..206c80b 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -378,7 +378,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 8520229144a6b4fff88921421e4dfdaf405ad995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 02/71] fix: trace difference fidelity of kets with Qobj
 operators

For kets the product of the conjugate difference and the difference is a
scalar, which has no tr method, so any state transfer with the TraceDiff
fidelity computers raised AttributeError when oper_dtype is Qobj.
---
 src/qutip_qtrl/fidcomp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 206c80b..f195d61 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -64,6 +64,9 @@ def _trace(A):
     # input is an operator (Qobj, array, sparse etc), so
     if isinstance(A, Qobj):
         return A.tr()
+    elif np.ndim(A) == 0:
+        # bra * ket gives a scalar
+        return A
     else:
         return np.trace(A)
 
@@ -614,7 +617,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    _trace(evo_f_diff.dag() * evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +698,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(_trace(evo_f_diff.dag() * evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +776,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = fwd_evo.dot(prop_eps)
-- 
2.43.0


From 08911fbb4137d78fe6176ab6d99a1064069a2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 03/71] fix: order of the operators in the TDAPPROX gradient

The perturbed evolution was composed first timeslot last, so the
gradient belonged to another evolution (and kets failed with a shape
error). compute_fid_err_grad of the exact version has the right order.
---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index f195d61..d95581f 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -769,9 +769,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -779,9 +779,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From abfd3c720ac86775123b94c9474cc97bf53ed9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 04/71] fix: augmented matrix propagator with Qobj operators

The matrix was assembled from Qobj.data with scipy.sparse, which does
not work with the qutip 5 data layer: any use of AUG_MAT with oper_dtype
Qobj raised TypeError.
---
 src/qutip_qtrl/propcomp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..0080814 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -336,10 +336,10 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            A = dg.full() * dyn.tau[k]
+            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
+            Z = np.zeros(dg.shape)
+            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
@@ -362,7 +362,7 @@ class PropCompAugMat(PropagatorComputer):
         aug = self._get_aug_mat(k, j)
 
         if dyn.oper_dtype == Qobj:
-            aug_exp = aug.expm()
+            aug_exp = aug.expm().full()
             prop_grad = Qobj(
                 aug_exp[: dg.shape[0], dg.shape[1] :], dims=dyn.dyn_dims
             )
-- 
2.43.0


From 7a72e4a5b6758a8fcb6fc74a640e22a885177496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 05/71] fix: symplectic dynamics with memory optimisation

The symplectic phase (omega) was created before the operator data type
was chosen, hence always as ndarray, which then could not be applied to
the Qobj generators that memory_optimization > 0 selects.
---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..27fe263 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,11 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        # The internal operator data type must be known to set up the phase
+        self._set_memory_optimizations()
         # Set the phase application method
         self._init_phase()
 
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
-- 
2.43.0


From f2703cc66be070116b89fc0e0cdd1c0f14d25f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 06/71] fix: onwd_evo returned the forward evolution for Qobj
 operators

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 27fe263..9b8c6ad 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1386,7 +1386,7 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
                         Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
-- 
2.43.0


From 453b6c37621f2280dabb6b3f2560e3ab6abd07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 07/71] fix: onwd_evo and onto_evo dimensions with state
 targets

With ndarray operators and kets as initial and target state the Qobj
versions were built with the dims of the state and raised ValueError.
---
 src/qutip_qtrl/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 9b8c6ad..40dced5 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1389,7 +1389,7 @@ class Dynamics(object):
                     self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
@@ -1409,10 +1409,11 @@ class Dynamics(object):
                 if self.oper_dtype == Qobj:
                     self._onto_evo_qobj = self._onto_evo
                 else:
+                    rev_dims = [self.sys_dims[1], self.sys_dims[0]]
                     self._onto_evo_qobj = []
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=rev_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From baf86b93f408c41fa20f10e6df3ef9739d0db64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 08/71] fix: onto_evo_target was not updated when the target
 changed

---
 src/qutip_qtrl/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 40dced5..6a48c77 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1183,6 +1183,7 @@ class Dynamics(object):
         operator is is required
         For state-to-state, the bra corresponding to the is required ket
         """
+        self._onto_evo_target_qobj = None
         if self.target.shape[0] == self.target.shape[1]:
             # Target is operator
             targ = la.inv(self.target.full())
@@ -1593,6 +1594,7 @@ class DynamicsUnitary(Dynamics):
         Get the adjoint of the target.
         Used for calculating the 'backward' evolution
         """
+        self._onto_evo_target_qobj = None
         if self.oper_dtype == Qobj:
             self._onto_evo_target = self.target.dag()
         else:
-- 
2.43.0


From 727856f5440fbc75ae213dd98076f831ef0ad85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 09/71] fix: DEBUG_INTENSE logging raised AttributeError in
 recompute_evolution

---
 src/qutip_qtrl/tslotcomp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..07a8ae8 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -281,9 +281,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
-                                ),
+                                "propagator {}:\n{}".format(k, dyn._prop[k]),
                             )
                     else:
                         dyn._prop_grad[k, j] = prop_comp._compute_prop_grad(
-- 
2.43.0


From 29b851ed916d80bc574da063df90c2c670495d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 10/71] fix: unitarity_check_level failed except with
 PropCompDiag

The base class method did not have the name that the timeslot computer
calls, and in DynamicsUnitary the eigendecomposition does not exist with
the other propagator computers.
---
 src/qutip_qtrl/dynamics.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 6a48c77..06c18ef 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1490,7 +1490,7 @@ class Dynamics(object):
 
         return err
 
-    def unitarity_check(self):
+    def check_unitarity(self):
         """
         Checks whether all propagators are unitary
         """
@@ -1714,8 +1714,15 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
+                if self._prop_eigen is not None:
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
+                    )
+                else:
+                    # Only the PropCompDiag does the decomposition
+                    eigval_unit = None
+                    eigvec_unit = None
                 if self._dyn_gen_eigenvectors_adj is not None:
                     eigvecadj_unit = self._is_unitary(
                         self._dyn_gen_eigenvectors_adj[k]
-- 
2.43.0


From 20927011258d665f52d256b9224e05a1f6b7966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 11/71] fix: ctrl_amps shared its data with the arrays of the
 caller

Amplitudes modified in place by the caller were taken as unchanged by
the next update, and the evolution was not recomputed.
---
 src/qutip_qtrl/optimizer.py | 2 +-
 src/qutip_qtrl/tslotcomp.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..15c8b1b 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -617,7 +617,7 @@ class Optimizer(object):
         By default (as used in GRAPE) these are the control amplitudes
         in each timeslot
         """
-        return self.dynamics.ctrl_amps.reshape([-1])
+        return self.dynamics.ctrl_amps.flatten()
 
     def _get_ctrl_amps(self, optim_var_vals):
         """
diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 07a8ae8..242e02c 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,9 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # Take a copy, changes made to the array by the caller could
+            # not be detected by comparison otherwise
+            dyn.ctrl_amps = new_amps.copy()
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From 43fa072fa1f34cdad8d19fbdab018219f292f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 12/71] fix: number of iterations in the stats

The last iteration was not counted when it ended with the wall time
exceeded, and one was counted when none completed.
---
 src/qutip_qtrl/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 15c8b1b..8ddbe21 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -748,15 +748,15 @@ class Optimizer(object):
         if self.dump and self.dump.dump_summary:
             self.dump.add_iter_summary()
 
+        # *** update stats ***
+        if self.stats is not None:
+            self.stats.num_iter = self.num_iter
+
         tc = self.termination_conditions
 
         if wall_time > tc.max_wall_time:
             raise errors.MaxWallTimeTerminate()
 
-        # *** update stats ***
-        if self.stats is not None:
-            self.stats.num_iter = self.num_iter
-
     def _interpret_term_exception(self, except_term, result):
         """
         Update the result object based on the exception that occurred
@@ -836,7 +836,7 @@ class OptimizerBFGS(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         if self.approx_grad:
             fprime = None
@@ -968,7 +968,7 @@ class OptimizerLBFGSB(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         bounds = self._build_bounds_list()
         result = self._create_result()
@@ -1229,7 +1229,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         result = self._create_result()
 
-- 
2.43.0


From 0e06b46bdfaedac95fdfda45572701b553658b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 13/71] fix: termination reason of BFGS

fmin_bfgs returns warnflag 0 for convergence (left as not started) and 2
for precision loss (reported as gradient minimum).
---
 src/qutip_qtrl/optimizer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 8ddbe21..52cd84e 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -874,12 +874,20 @@ class OptimizerBFGS(Optimizer):
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Precision loss, function not necessarily converged"
+                )
+            else:
+                result.termination_reason = "Unknown (warnflag={})".format(
+                    warn
+                )
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From b753c801c7e60d5f5e37800dae99230dd245df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 14/71] fix: changed termination conditions ignored by repeated
 runs

The limits of the first run were kept in method_options.
---
 src/qutip_qtrl/optimizer.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 52cd84e..6b24a28 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -443,9 +443,8 @@ class Optimizer(object):
         These values will NOT be overridden
         """
         tc = self.termination_conditions
-        if self.method_options is None:
-            self.method_options = {}
-        mo = self.method_options
+        # Copy, as the termination conditions may change before the next run
+        mo = dict(self.method_options or {})
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -561,7 +560,7 @@ class Optimizer(object):
         if self.bounds is None:
             self._build_bounds_list()
 
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         result = self._create_result()
 
@@ -585,7 +584,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=self.bounds,
-                options=self.method_options,
+                options=method_options,
                 callback=self.iter_step_callback_func,
             )
 
@@ -968,7 +967,7 @@ class OptimizerLBFGSB(Optimizer):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -986,19 +985,19 @@ class OptimizerLBFGSB(Optimizer):
         else:
             fprime = self.fid_err_grad_wrapper
 
-        if "accuracy_factor" in self.method_options:
-            factr = self.method_options["accuracy_factor"]
-        elif "ftol" in self.method_options:
-            factr = self.method_options["ftol"]
+        if "accuracy_factor" in method_options:
+            factr = method_options["accuracy_factor"]
+        elif "ftol" in method_options:
+            factr = method_options["ftol"]
         elif hasattr(term_conds, "accuracy_factor"):
             factr = term_conds.accuracy_factor
         else:
             factr = 1e7
 
-        if "max_metric_corr" in self.method_options:
-            m = self.method_options["max_metric_corr"]
-        elif "maxcor" in self.method_options:
-            m = self.method_options["maxcor"]
+        if "max_metric_corr" in method_options:
+            m = method_options["max_metric_corr"]
+        elif "maxcor" in method_options:
+            m = method_options["maxcor"]
         elif hasattr(self, "max_metric_corr"):
             m = self.max_metric_corr
         else:
-- 
2.43.0


From 809d986e8c9e2c97876471822c8b469818f6086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 15/71] fix: optimizer bounds attribute

Bounds set by the user were overwritten by OptimizerLBFGSB, and those
built from amp_lbound and amp_ubound by the first run were used for all
later runs by the default Optimizer.
---
 src/qutip_qtrl/optimizer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 6b24a28..aa25079 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -498,7 +498,7 @@ class Optimizer(object):
         cfg = self.config
         dyn = self.dynamics
         n_ctrls = dyn.num_ctrls
-        self.bounds = []
+        bounds = []
         for t in range(dyn.num_tslots):
             for c in range(n_ctrls):
                 if isinstance(self.amp_lbound, list):
@@ -515,7 +515,9 @@ class Optimizer(object):
                 if ub is not None and np.isinf(ub):
                     ub = None
 
-                self.bounds.append((lb, ub))
+                bounds.append((lb, ub))
+
+        return bounds
 
     def run_optimization(self, term_conds=None):
         """
@@ -557,8 +559,9 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
-            self._build_bounds_list()
+        bounds = self.bounds
+        if bounds is None:
+            bounds = self._build_bounds_list()
 
         method_options = self._build_method_options()
 
@@ -583,7 +586,7 @@ class Optimizer(object):
                 self.optim_var_vals,
                 method=self.method,
                 jac=jac,
-                bounds=self.bounds,
+                bounds=bounds,
                 options=method_options,
                 callback=self.iter_step_callback_func,
             )
@@ -977,7 +980,9 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        bounds = self._build_bounds_list()
+        bounds = self.bounds
+        if bounds is None:
+            bounds = self._build_bounds_list()
         result = self._create_result()
 
         if self.approx_grad:
@@ -1017,7 +1022,7 @@ class OptimizerLBFGSB(Optimizer):
                 fprime=fprime,
                 approx_grad=self.approx_grad,
                 callback=self.iter_step_callback_func,
-                bounds=self.bounds,
+                bounds=bounds,
                 m=m,
                 factr=factr,
                 pgtol=term_conds.min_gradient_norm,
-- 
2.43.0


From 302cb2c9bb3c7de06361338e45e48708b1fd1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 16/71] fix: create_dir accepted a file created by some other
 process

---
 src/qutip_qtrl/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/io.py b/src/qutip_qtrl/io.py
index 2010b23..93c9821 100644
--- a/src/qutip_qtrl/io.py
+++ b/src/qutip_qtrl/io.py
@@ -38,7 +38,7 @@ def create_dir(dir_name, desc="output"):
             os.makedirs(dir_name)
             msg += "directory {} created (recursively)".format(dir_name)
         except OSError as e:
-            if e.errno == errno.EEXIST:
+            if e.errno == errno.EEXIST and os.path.isdir(dir_name):
                 msg += (
                     "Assume directory {} created "
                     "(recursively) by some other process. ".format(dir_name)
-- 
2.43.0


From ab34ed02ca56057cbe40e402df48a26a2ee5ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 17/71] fix: dump item files held the wrong data or failed to
 write

The onward and onto evolution files held the forward evolution, the number
of operators written was that of the dynamics generators (an error when
these are not dumped, and the last evolution was missing), and Qobj
operators could not be written.
---
 src/qutip_qtrl/dump.py | 44 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..5a4880d 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -12,6 +12,8 @@ import os
 import copy
 import numpy as np
 
+from qutip import Qobj
+
 # QuTiP control modules
 import qutip_qtrl.io as qtrlio
 
@@ -23,6 +25,13 @@ logger = qutip_qtrl.logging_utils.get_logger("qutip.control.dump")
 DUMP_DIR = "~/.qtrl_dump"
 
 
+def _as_array(oper):
+    """Get the ndarray of an operator that may be a Qobj"""
+    if isinstance(oper, Qobj):
+        return oper.full()
+    return oper
+
+
 class Dump:
     """
     A container for dump items.
@@ -827,7 +836,6 @@ class EvoCompDumpItem(DumpItem):
 
         # dynamics generators
         if self.dyn_gen is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Dynamics Generators\n"))
@@ -835,20 +843,18 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-dyn_gen.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k, oper in enumerate(self.dyn_gen):
                 f.write(
                     str.encode(
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
-                k += 1
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
             if closef:
                 f.close()
 
         # Propagators
         if self.prop is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Propagators\n"))
@@ -856,16 +862,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k, oper in enumerate(self.prop):
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
-                k += 1
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
             if closef:
                 f.close()
 
         # Propagator gradient
         if self.prop_grad is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Propagator gradients\n"))
@@ -882,14 +886,15 @@ class EvoCompDumpItem(DumpItem):
                         )
                     )
                     np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
+                        f,
+                        _as_array(self.prop_grad[k, j]),
+                        delimiter=dump.data_sep,
                     )
             if closef:
                 f.close()
 
         # forward evolution
         if self.fwd_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Forward evolution\n"))
@@ -897,16 +902,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k, oper in enumerate(self.fwd_evo):
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
-                k += 1
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
             if closef:
                 f.close()
 
         # onward evolution
         if self.onwd_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Onward evolution\n"))
@@ -914,16 +917,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k, oper in enumerate(self.onwd_evo):
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
-                k += 1
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
             if closef:
                 f.close()
 
         # onto evolution
         if self.onto_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Onto evolution\n"))
@@ -931,12 +932,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k, oper in enumerate(self.onto_evo):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
-                k += 1
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
             if closef:
                 f.close()
 
-- 
2.43.0


From d27ec23c61cf378737f76347817b17fa3d46df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 18/71] fix: dumping level CUSTOM always raised ValueError

---
 src/qutip_qtrl/dump.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 5a4880d..27e96b3 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -146,8 +146,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
+        self._apply_level(value)
         self._level = value
-        self._apply_level()
 
     @property
     def dump_any(self):
@@ -296,15 +296,16 @@ class OptimDump(Dump):
         return self.dump_fid_err and self.dump_grad_norm and self.dump_grad
 
     def _apply_level(self, level=None):
+        reset = level is None
         if level is None:
             level = self._level
         if not isinstance(level, str):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if not reset and self._level.upper() == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
+                return
             else:
                 # Switching to custom, start from SUMMARY
                 level = "SUMMARY"
@@ -590,6 +591,7 @@ class DynamicsDump(Dump):
 
     def _apply_level(self, level=None):
         dyn = self.parent
+        reset = level is None
         if level is None:
             level = self._level
 
@@ -597,9 +599,9 @@ class DynamicsDump(Dump):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if not reset and self._level.upper() == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
+                return
             else:
                 # Switching to custom, start from SUMMARY
                 level = "SUMMARY"
-- 
2.43.0


From f9179c177ea4b9b52c14b1188780fac38fb3c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 19/71] fix: relative and home paths for the dump summary_file

abspath is always true, so these were taken as they are, rather than
relative to dump_dir or expanded.
---
 src/qutip_qtrl/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 27e96b3..5a5a410 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -218,7 +218,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
+        if os.path.isabs(value):
             self._summary_file_path = value
         elif "~" in value:
             self._summary_file_path = os.path.expanduser(value)
-- 
2.43.0


From de93df0f28a2d75ff65a4b7009f5d0bc680658c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 20/71] fix: dump files split between directories

The paths of the log and summary files were kept when dump_dir (and those
of the log files when fname_base) changed.
---
 src/qutip_qtrl/dump.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 5a5a410..9ed341a 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -174,6 +174,12 @@ class Dump:
         self._dump_dir = value
         if not self.create_dump_dir():
             self._dump_dir = None
+        self._clear_file_paths()
+
+    def _clear_file_paths(self):
+        """Clear the generated file paths, after a change to the dir or base"""
+        if not self._summary_file_specified:
+            self._summary_file_path = None
 
     def create_dump_dir(self):
         """
@@ -202,7 +208,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File name base must be a string")
         self._fname_base = value
-        self._summary_file_path = None
+        self._clear_file_paths()
 
     @property
     def summary_file(self):
@@ -279,6 +285,11 @@ class OptimDump(Dump):
         self._fid_err_file = None
         self._grad_norm_file = None
 
+    def _clear_file_paths(self):
+        Dump._clear_file_paths(self)
+        self._fid_err_file = None
+        self._grad_norm_file = None
+
     def clear(self):
         del self.iter_summary[:]
         del self.fid_err_log[:]
-- 
2.43.0


From 120d7040964f53b5bb6dea8087f18dbeb81dde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 21/71] fix: amplitude bounds of zero were ignored by CRAB

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..0fd37e0 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2054,7 +2054,7 @@ def create_pulse_optimizer(
                 crab_pgen.apply_params(crab_pulse_params)
 
             lb = None
-            if amp_lbound:
+            if amp_lbound is not None:
                 if isinstance(amp_lbound, list):
                     try:
                         lb = amp_lbound[j]
@@ -2063,7 +2063,7 @@ def create_pulse_optimizer(
                 else:
                     lb = amp_lbound
             ub = None
-            if amp_ubound:
+            if amp_ubound is not None:
                 if isinstance(amp_ubound, list):
                     try:
                         ub = amp_ubound[j]
-- 
2.43.0


From 485f1552c696a7d6b944127e50715d8e8984e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 22/71] fix: parameter dictionaries of the caller were modified

Values given by other arguments were added to the dictionaries, and then
took precedence over the arguments of following calls.
---
 src/qutip_qtrl/pulseoptim.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 0fd37e0..20fe695 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -372,6 +372,7 @@ def optimize_pulse(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "max_metric_corr" not in method_params:
                 method_params["max_metric_corr"] = max_metric_corr
         else:
@@ -383,6 +384,7 @@ def optimize_pulse(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "accuracy_factor" not in method_params:
                 method_params["accuracy_factor"] = accuracy_factor
         else:
@@ -395,6 +397,7 @@ def optimize_pulse(
     # phase_option
     if phase_option is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "phase_option" not in fid_params:
                 fid_params["phase_option"] = phase_option
         else:
@@ -407,6 +410,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "fid_err_scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
@@ -777,6 +781,7 @@ def optimize_pulse_unitary(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "max_metric_corr" not in method_params:
                 method_params["max_metric_corr"] = max_metric_corr
         else:
@@ -788,6 +793,7 @@ def optimize_pulse_unitary(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "accuracy_factor" not in method_params:
                 method_params["accuracy_factor"] = accuracy_factor
         else:
@@ -1108,6 +1114,7 @@ def opt_pulse_crab(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1122,6 +1129,8 @@ def opt_pulse_crab(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        else:
+            guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1421,6 +1430,7 @@ def opt_pulse_crab_unitary(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1435,6 +1445,8 @@ def opt_pulse_crab_unitary(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        else:
+            guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1773,6 +1785,7 @@ def create_pulse_optimizer(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "max_metric_corr" not in method_params:
                 method_params["max_metric_corr"] = max_metric_corr
         else:
@@ -1784,6 +1797,7 @@ def create_pulse_optimizer(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
+            method_params = dict(method_params)
             if "accuracy_factor" not in method_params:
                 method_params["accuracy_factor"] = accuracy_factor
         else:
@@ -1796,6 +1810,7 @@ def create_pulse_optimizer(
     # phase_option
     if phase_option is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "phase_option" not in fid_params:
                 fid_params["phase_option"] = phase_option
         else:
@@ -1808,6 +1823,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
+            fid_params = dict(fid_params)
             if "fid_err_scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
-- 
2.43.0


From 4ccff47ea784811dc23d2df708beafcb8e68060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 23/71] fix: infinite initial pulse with one infinite bound

PulseGenRandom and PulseGenZero do not call init_pulse, where infinite
bounds are replaced.
---
 src/qutip_qtrl/pulsegen.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..b19e590 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -257,34 +257,42 @@ class PulseGen:
         (after applying the offset)
         Assumes that pulses passed are centered around zero (on average)
         """
-        if self.lbound is None and self.ubound is None:
+        # Not all the generators call init_pulse, hence infinite bounds possible
+        lbound = self.lbound
+        if lbound is not None and np.isinf(lbound):
+            lbound = None
+        ubound = self.ubound
+        if ubound is not None and np.isinf(ubound):
+            ubound = None
+
+        if lbound is None and ubound is None:
             return pulse + self.offset
 
         max_amp = max(pulse)
         min_amp = min(pulse)
-        if (self.ubound is None or max_amp + self.offset <= self.ubound) and (
-            self.lbound is None or min_amp + self.offset >= self.lbound
+        if (ubound is None or max_amp + self.offset <= ubound) and (
+            lbound is None or min_amp + self.offset >= lbound
         ):
             return pulse + self.offset
 
         # Some shifting / scaling is required.
-        if self.ubound is None or self.lbound is None:
+        if ubound is None or lbound is None:
             # One of the bounds is inf, so just shift the pulse
-            if self.lbound is None:
+            if lbound is None:
                 # max_amp + offset must exceed the ubound
-                return pulse + self.ubound - max_amp
+                return pulse + ubound - max_amp
             else:
                 # min_amp + offset must exceed the lbound
-                return pulse + self.lbound - min_amp
+                return pulse + lbound - min_amp
         else:
-            bound_range = self.ubound - self.lbound
+            bound_range = ubound - lbound
             amp_range = max_amp - min_amp
             if max_amp - min_amp > bound_range:
                 # pulse range is too high, it must be scaled
                 pulse = pulse * bound_range / amp_range
 
             # otherwise the pulse should fit anyway
-            return pulse + self.lbound - min(pulse)
+            return pulse + lbound - min(pulse)
 
     def _apply_ramping_pulse(self, pulse, ramping_pulse=None):
         if ramping_pulse is None:
-- 
2.43.0


From 863986c0cc28ec7a33fb553d63f4676eb173cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 24/71] fix: optimize_pulse raised TypeError with a list of
 amplitude bounds

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 20fe695..d5a67fc 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -481,6 +481,10 @@ def optimize_pulse(
     else:
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            if isinstance(amp_lbound, list):
+                pgen.lbound = amp_lbound[j]
+            if isinstance(amp_ubound, list):
+                pgen.ubound = amp_ubound[j]
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
-- 
2.43.0


From eae1c839269911c00ba74dce12cb0d4a85536034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 25/71] fix: alg was case sensitive in optimize_pulse

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index d5a67fc..e7a529f 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -473,7 +473,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if optim.alg == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
@@ -1975,7 +1975,7 @@ def create_pulse_optimizer(
         else:
             optim = optimizer.Optimizer(cfg, dyn)
 
-    optim.alg = alg
+    optim.alg = alg_up
     optim.method = optim_method
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
-- 
2.43.0


From f5ee62679067119b7b103036ccfad144669e6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 26/71] fix: invalid guess pulse action raised TypeError

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index b19e590..6140574 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1147,13 +1147,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From 29310e3c1f0dc3429a81518dfa80e078045a3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 27/71] fix: final_amps of the result shared its data with the
 dynamics

Changing the final amplitudes of a result in place changed the
amplitudes of the dynamics without anything being recomputed, so passing
them back gave the fidelity of the old pulse. initial_amps is a copy
already.
---
 src/qutip_qtrl/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index aa25079..3885012 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -785,7 +785,7 @@ class Optimizer(object):
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
         result.grad_norm_final = dyn.fid_computer.grad_norm
-        result.final_amps = dyn.ctrl_amps
+        result.final_amps = dyn.ctrl_amps.copy()
         final_evo = dyn.full_evo
         if isinstance(final_evo, Qobj):
             result.evo_full_final = final_evo
-- 
2.43.0


From 4a2b701a892cd25c4fba726539e682a6546c0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 28/71] fix: optimize_pulse_unitary modified the fid_params of
 the caller

The default phase_option was stored in the dictionary passed in, so
reusing it with another phase_option silently kept the first one.
---
 src/qutip_qtrl/pulseoptim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index e7a529f..296bfd4 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -825,6 +825,7 @@ def optimize_pulse_unitary(
         if fid_params is None:
             fid_params = {"phase_option": phase_option}
         else:
+            fid_params = dict(fid_params)
             if "phase_option" not in fid_params:
                 fid_params["phase_option"] = phase_option
 
-- 
2.43.0


From f5dbd8c0c37dbea8ad542511f781f785078741e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 29/71] fix: INFO logging failed with time dependent controls

The list of control generators was indexed by the control in the log
message of optimize_pulse, while it is indexed by timeslot and control
when they are time dependent.
---
 src/qutip_qtrl/pulseoptim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 296bfd4..687a4b0 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -503,7 +503,10 @@ def optimize_pulse(
             msg += str(dyn.drift_dyn_gen)
         for j in range(dyn.num_ctrls):
             msg += "\nControl {} {}:\n".format(j + 1, dg_name)
-            msg += str(dyn.ctrl_dyn_gen[j])
+            if dyn.time_depend_ctrl_dyn_gen:
+                msg += str(dyn.ctrl_dyn_gen[0, j])
+            else:
+                msg += str(dyn.ctrl_dyn_gen[j])
         msg += "\nInitial state / operator:\n"
         msg += str(dyn.initial)
         msg += "\nTarget state / operator:\n"
-- 
2.43.0


From f7e3a27d61200a93af84bab5f8e94c741de77cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 30/71] fix: gradient norm of an earlier run reported by the
 next

initialize_controls did not clear the fidelity computer, so that a run
without gradients after a run with gradients on the same objects returned
the grad_norm_final of the earlier run.
---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 06c18ef..ae45e35 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -976,7 +976,8 @@ class Dynamics(object):
                 " set. A default should be assigned by the Dynamics subclass"
             )
 
-        self.ctrl_amps = None
+        # Nothing computed from any earlier controls applies any more
+        self.clear()
         if not self._timeslots_initialized:
             init_tslots = True
         if init_tslots:
-- 
2.43.0


From c34a2e57960ce5343823bedf65b7c15eddde8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 31/71] fix: FULL dynamics dump left out the evolution
 operators in use

The level is often set before the fidelity computer is chosen, as
create_pulse_optimizer does, and what it uses was looked up only then.
---
 src/qutip_qtrl/dump.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 9ed341a..fc8d7d8 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -595,13 +595,12 @@ class DynamicsDump(Dump):
                 self.dump_prop,
                 self.dump_prop_grad,
                 self.dump_fwd_evo,
-                self.dump_onwd_evo == dyn.fid_computer.uses_onwd_evo,
-                self.dump_onto_evo == dyn.fid_computer.uses_onto_evo,
+                self.dump_onwd_evo or not dyn.fid_computer.uses_onwd_evo,
+                self.dump_onto_evo or not dyn.fid_computer.uses_onto_evo,
             ]
         )
 
     def _apply_level(self, level=None):
-        dyn = self.parent
         reset = level is None
         if level is None:
             level = self._level
@@ -633,8 +632,9 @@ class DynamicsDump(Dump):
             self.dump_prop = True
             self.dump_prop_grad = True
             self.dump_fwd_evo = True
-            self.dump_onwd_evo = dyn.fid_computer.uses_onwd_evo
-            self.dump_onto_evo = dyn.fid_computer.uses_onto_evo
+            # Only those used by the fidelity computer will be available
+            self.dump_onwd_evo = True
+            self.dump_onto_evo = True
         else:
             raise ValueError("No option for dumping level '{}'".format(level))
 
@@ -654,9 +654,9 @@ class DynamicsDump(Dump):
             item.prop_grad = copy.deepcopy(dyn._prop_grad)
         if self.dump_fwd_evo:
             item.fwd_evo = copy.deepcopy(dyn._fwd_evo)
-        if self.dump_onwd_evo:
+        if self.dump_onwd_evo and dyn.fid_computer.uses_onwd_evo:
             item.onwd_evo = copy.deepcopy(dyn._onwd_evo)
-        if self.dump_onto_evo:
+        if self.dump_onto_evo and dyn.fid_computer.uses_onto_evo:
             item.onto_evo = copy.deepcopy(dyn._onto_evo)
 
         if self.write_to_file:
-- 
2.43.0


From d3eb3c6c673408c1cf30b7c3539ff22aabdef8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 32/71] fix: float parameters set to whatever their expression
 gave

load_parameters assigned the result of an expression such as '2' * 3, [1]
or 1j to attributes of type float without converting it.
---
 src/qutip_qtrl/loadparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..ee3f2f2 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -182,7 +182,7 @@ def set_param(parser, section, option, obj, attrib_name):
             f = parser.getfloat(section, attrib_name)
         except:
             try:
-                f = eval(val)
+                f = float(eval(val))
             except:
                 raise ValueError(
                     "Value '{}' cannot be cast or evaluated as a "
-- 
2.43.0


From 0c97cf2ddf1bb8f125a3151d466324a4de8e5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 33/71] fix: string parameters that look like a number or bool

load_parameters changed the type of string attributes: a dump file name
base of 1 was set to 1.0 and an id_text of 'on' to True.
---
 src/qutip_qtrl/loadparams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index ee3f2f2..799051a 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -218,6 +218,8 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, b)
+    elif dtype == str:
+        setattr(obj, attrib_name, val)
     else:
         try:
             val = parser.getfloat(section, attrib_name)
-- 
2.43.0


From e79e00c4e4d220a5619e774f8cd577be82716acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 34/71] fix: parameters of numpy scalar type were loaded
 untyped

Attributes that hold numpy scalars, such as the evo_time that follows from
given time slots, were set to the text of an expression or of an invalid
value instead of being evaluated or refused.
---
 src/qutip_qtrl/loadparams.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 799051a..083f042 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -177,7 +177,7 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, l)
-    elif dtype == float:
+    elif isinstance(a, (float, np.floating)):
         try:
             f = parser.getfloat(section, attrib_name)
         except:
@@ -191,7 +191,7 @@ def set_param(parser, section, option, obj, attrib_name):
                     )
                 )
         setattr(obj, attrib_name, f)
-    elif dtype == complex:
+    elif isinstance(a, (complex, np.complexfloating)):
         try:
             c = complex(val)
         except:
@@ -200,7 +200,7 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, c)
-    elif dtype == int:
+    elif dtype == int or isinstance(a, np.integer):
         try:
             i = parser.getint(section, attrib_name)
         except:
@@ -209,7 +209,7 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, i)
-    elif dtype == bool:
+    elif dtype == bool or isinstance(a, np.bool_):
         try:
             b = parser.getboolean(section, attrib_name)
         except:
-- 
2.43.0


From f9cafade665ca6395c51aac40e938ce2bef8d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 35/71] fix: create_dir took a pipe or socket for a usable
 directory

It only refused regular files of the same name.
---
 src/qutip_qtrl/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/io.py b/src/qutip_qtrl/io.py
index 93c9821..9eff289 100644
--- a/src/qutip_qtrl/io.py
+++ b/src/qutip_qtrl/io.py
@@ -30,7 +30,7 @@ def create_dir(dir_name, desc="output"):
     msg = "{} directory is ready".format(desc)
     errmsg = "Failed to create {} directory:\n{}\n".format(desc, dir_name)
     if os.path.exists(dir_name):
-        if os.path.isfile(dir_name):
+        if not os.path.isdir(dir_name):
             dir_ok = False
             errmsg += "A file already exists with the same name"
     else:
-- 
2.43.0


From 7767cb677e795b91639015303c1103730fef942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 36/71] fix: periodic pulses computed the number of waves from
 the wavelength

The number of waves is frequency times pulse time. As num_waves drives the
other parameters when it is set, initialising the pulse generator a second
time changed the frequency to the wavelength.
---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 6140574..17f8eab 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -743,10 +743,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From 433ef0fb35eb53c6e82c32e3d6b0ad03df9a865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 37/71] fix: linear pulses ignored the gradient and single end
 points given

PulseGenLinear.gen_pulse(gradient=...) had no effect at all, and neither
had start_val or end_val unless both were given.
---
 src/qutip_qtrl/pulsegen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 17f8eab..4374f2f 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -646,9 +646,14 @@ class PulseGenLinear(PulseGen):
         end point values
         """
         PulseGen.init_pulse(self)
-        if start_val is not None and end_val is not None:
+        if start_val is not None:
             self.start_val = start_val
+        if end_val is not None:
             self.end_val = end_val
+        elif gradient is not None:
+            # the end point follows from the gradient
+            self.gradient = gradient
+            self.end_val = None
 
         if self.start_val is not None and self.end_val is not None:
             self.gradient = float(self.end_val - self.start_val) / (
-- 
2.43.0


From 519ecd70d5a623ddd7744bc94e7e54a4eba64927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 38/71] fix: gaussian pulses with a mean of zero

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 4374f2f..a40db74 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -912,7 +912,7 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-- 
2.43.0


From 1c69e1150eae6f3af9dc8c5c904f799eff10dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 39/71] fix: max_d2_amp of random walk pulses was not factored
 by the scaling

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index a40db74..b876f78 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -591,7 +591,7 @@ class PulseGenRndWalk2(PulseGen):
         if max_d2_amp is not None:
             self.max_d2_amp = max_d2_amp
 
-        max_d2_amp = self.max_d2_amp
+        max_d2_amp = self.max_d2_amp * self.scaling
 
         if not self._pulse_initialised:
             self.init_pulse()
-- 
2.43.0


From e645048e382bae09df9b519728ef379c585a1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 40/71] fix: CRAB pulse generators ignored a randomize_freqs
 parameter

---
 src/qutip_qtrl/pulsegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index b876f78..9f21de5 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1274,6 +1274,7 @@ class PulseGenCrabFourier(PulseGenCrab):
         PulseGenCrab.reset(self)
         self.freqs = None
         self.randomize_freqs = True
+        self.apply_params()
 
     def init_pulse(self, num_coeffs=None, init_coeffs=None):
         """
-- 
2.43.0


From 007e8e8524ea4d62d1374cc0bb1bf5573583ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 41/71] fix: CRAB gen_pulse failed when given the coefficients

The truth value of an array is ambiguous, and coefficients given were
overwritten if the pulse generator had not been initialised yet.
---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 9f21de5..9850729 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1312,12 +1312,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.coeffs = coeffs
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0


From afc1aeb32684221e226c807e2189e15e719f8591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 42/71] fix: zero amplitude bounds in the configuration were
 ignored

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 3885012..57fa5e2 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -273,10 +273,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From 7b8bdcf122550fddd0326cac72a4a5c32d29ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 43/71] fix: optimisation failed with methods that report no
 iterations

COBYLA does not return the number of iterations, nor does TNC when all
variables are fixed by their bounds, so run_optimization raised
AttributeError at the end.
---
 src/qutip_qtrl/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 57fa5e2..a20afbc 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -596,13 +596,15 @@ class Optimizer(object):
             result.termination_reason = opt_res.message
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
-            if self.num_iter != opt_res.nit:
+            # (not all of the methods report them)
+            nit = opt_res.get("nit", self.num_iter)
+            if self.num_iter != nit:
                 logger.info(
                     "The number of iterations counted {} "
                     " does not match the number reported {} "
-                    "by {}".format(self.num_iter, opt_res.nit, self.method)
+                    "by {}".format(self.num_iter, nit, self.method)
                 )
-            result.num_iter = opt_res.nit
+            result.num_iter = nit
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From da4f58858d39c2880484bb1a58f05b987b0191fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 44/71] fix: time dependent controls failed for dynamics
 assembled by hand

---
 src/qutip_qtrl/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index ae45e35..57ab584 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,6 +734,9 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        n_ts = self.num_tslots
+        # This also determines if the controls are time dependent
+        n_ctrls = self.num_ctrls
         # The internal operator data type must be known to set up the phase
         self._set_memory_optimizations()
         # Set the phase application method
@@ -747,8 +750,6 @@ class Dynamics(object):
                 " or increase the size of the system."
             )
 
-        n_ts = self.num_tslots
-        n_ctrls = self.num_ctrls
         if self.oper_dtype == Qobj:
             self._initial = self.initial
             self._target = self.target
-- 
2.43.0


From ddc5bda53a755bacd7797332119e5a86909228fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 45/71] fix: initialize_controls did not count changed controls
 again

The number of controls is documented to be recalculated there, but the
first count, and whether the controls were time dependent, was kept, so
that added controls were ignored without notice.
---
 src/qutip_qtrl/dynamics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 57ab584..973c945 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -722,8 +722,8 @@ class Dynamics(object):
         # check evolution operators
         if not self._drift_dyn_gen_checked:
             _check_drift_dyn_gen(self.drift_dyn_gen)
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        self._ctrl_dyn_gen_checked = True
 
         if not isinstance(self.initial, Qobj):
             raise TypeError("initial must be a Qobj")
@@ -736,6 +736,8 @@ class Dynamics(object):
         self.sys_shape = self.initial.shape
         n_ts = self.num_tslots
         # This also determines if the controls are time dependent
+        # The controls may have been changed since they were last counted
+        self._num_ctrls = None
         n_ctrls = self.num_ctrls
         # The internal operator data type must be known to set up the phase
         self._set_memory_optimizations()
@@ -1138,6 +1140,7 @@ class Dynamics(object):
             self.time_depend_ctrl_dyn_gen = True
         else:
             self._num_ctrls = len(self.ctrl_dyn_gen)
+            self.time_depend_ctrl_dyn_gen = False
 
         return self._num_ctrls
 
-- 
2.43.0


From 9ff176639ae368076919d7941ac238a05da9b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 46/71] fix: operators cached for changed options were used
 after initialize_controls

After switching a caching option off, or changing the propagator computer,
the operators kept by an earlier initialisation were used in the evolution.
---
 src/qutip_qtrl/dynamics.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 973c945..ddf9045 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -781,6 +781,20 @@ class Dynamics(object):
                 " numpy.ndarray.".format(self.oper_dtype)
             )
 
+        # Nothing kept for the options of an earlier initialisation may be used
+        self._phased_ctrl_dyn_gen = None
+        self._phased_dyn_gen = None
+        self._prop_grad = None
+        self._onwd_evo = None
+        self._onto_evo = None
+        self._onto_evo_target = None
+        self._onto_evo_target_qobj = None
+        self._decomp_curr = None
+        self._prop_eigen = None
+        self._dyn_gen_eigenvectors = None
+        self._dyn_gen_eigenvectors_adj = None
+        self._dyn_gen_factormatrix = None
+
         if self.cache_phased_dyn_gen:
             if self.time_depend_ctrl_dyn_gen:
                 self._phased_ctrl_dyn_gen = np.empty(
-- 
2.43.0


From 56a2a81e981450c1c7ff9852811c301df677d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 47/71] fix: symplectic dynamics failed after a change of the
 operator type

omega and the phase kept the operator type of the first initialisation
(or of a read of omega before it).
---
 src/qutip_qtrl/dynamics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index ddf9045..90e6a5f 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1819,6 +1819,18 @@ class DynamicsSymplectic(Dynamics):
                 self._omega = omg
         return self._omega
 
+    def _init_phase(self):
+        use_qobj = self.oper_dtype == Qobj
+        if self._omega is not None and use_qobj != isinstance(
+            self._omega, Qobj
+        ):
+            # omega, and the phase made of it, are of another operator type
+            self._omega = None
+            self._omega_qobj = None
+            if self._phase_application != "custom":
+                self._dyn_gen_phase = None
+        Dynamics._init_phase(self)
+
     def _set_phase_application(self, value):
         Dynamics._set_phase_application(self, value)
         if self._evo_initialized:
-- 
2.43.0


From 9e965ad43b2e23496b1539328e5274cb2d323f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 48/71] fix: changed drift_ham and ctrl_ham were discarded by
 initialize_controls

They are documented to be mapped to the dynamics generators there, which
happened the first time only; later values were overwritten unused.
---
 src/qutip_qtrl/dynamics.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 90e6a5f..82a9b82 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1562,6 +1562,8 @@ class DynamicsUnitary(Dynamics):
         self.id_text = "UNIT"
         self.drift_ham = None
         self.ctrl_ham = None
+        self._mapped_drift_ham = None
+        self._mapped_ctrl_ham = None
         self.H = None
         self._dyn_gen_phase = -1j
         self._phase_application = "preop"
@@ -1590,14 +1592,21 @@ class DynamicsUnitary(Dynamics):
         Dynamics.initialize_controls(self, amplitudes, init_tslots=init_tslots)
 
     def _map_dyn_gen_to_ham(self):
-        if self.drift_dyn_gen is None:
+        # Hamiltonians that were replaced since they were last mapped are new
+        drift_changed = self.drift_ham is not self._mapped_drift_ham
+        if self.drift_dyn_gen is None or (
+            self._dyn_gen_mapped and drift_changed
+        ):
             self.drift_dyn_gen = self.drift_ham
         else:
             self.drift_ham = self.drift_dyn_gen
-        if self.ctrl_dyn_gen is None:
+        ctrl_changed = self.ctrl_ham is not self._mapped_ctrl_ham
+        if self.ctrl_dyn_gen is None or (self._dyn_gen_mapped and ctrl_changed):
             self.ctrl_dyn_gen = self.ctrl_ham
         else:
             self.ctrl_ham = self.ctrl_dyn_gen
+        self._mapped_drift_ham = self.drift_ham
+        self._mapped_ctrl_ham = self.ctrl_ham
         self._dyn_gen_mapped = True
 
     @property
-- 
2.43.0


From de8fa21f65fe8f01a7eb7e26b89e6baf1af28103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 49/71] fix: deprecated combine_dyn_gen raised TypeError

It called the list of generators instead of indexing it.
---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 82a9b82..d52fd62 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1232,7 +1232,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
-- 
2.43.0


From 01f459767fee8ef096897492a01d9e4523ef4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 50/71] fix: deprecated compute_prop_grad raised TypeError

It passed self twice.
---
 src/qutip_qtrl/propcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index 0080814..374be6e 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -158,7 +158,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
-- 
2.43.0


From 5bfcfe47332c4dcc18e5efba843b8458a5774651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 51/71] fix: deprecated get_timeslot_for_fidelity_calc returned
 a method

---
 src/qutip_qtrl/tslotcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 242e02c..3edb08d 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -361,7 +361,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From 5cf38f0beeb13021c6a71e7f3b2992893284bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 52/71] fix: GRAPE with u_limits failed for u_start given as an
 array

The truth value of an array is ambiguous; integer start values were
clipped to the integer part of the limits.
---
 src/qutip_qtrl/grape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..3dd102c 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -157,9 +157,9 @@ def grape_unitary(
     if u_limits:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -333,9 +333,9 @@ def cy_grape_unitary(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -523,9 +523,9 @@ def grape_unitary_adaptive(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
-- 
2.43.0


From e766d407b2d934f4bb48c2d0db7660dac8eeb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 53/71] fix: adaptive GRAPE failed with the time penalty beta

The penalty used the index of the trial step instead of the time.
---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 3dd102c..da1e6de 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -631,7 +631,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From 42fb63397ffd4cc75663bea564f01d24b1afd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 54/71] fix: adaptive GRAPE went on with the pulses of a
 rejected step

After stepping back, the best of the three pulses was taken to be the best
of the rejected ones. With a negative initial overlap every step was
rejected.
---
 src/qutip_qtrl/grape.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index da1e6de..0b84d61 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -549,7 +549,7 @@ def grape_unitary_adaptive(
 
     best_k = 1
     _r = 0
-    _prev_overlap = 0
+    _prev_overlap = -np.inf
 
     for r in range(R - 1):
         progress_bar.update()
@@ -661,15 +661,17 @@ def grape_unitary_adaptive(
                 cy_overlap(Uf[k].data, U.data)
             ).real
 
-        best_k = np.argmax(_k_overlap)
-        logger.debug("k_overlap: %s, %e", repr(_k_overlap), best_k)
+        new_k = np.argmax(_k_overlap)
+        logger.debug("k_overlap: %s, %e", repr(_k_overlap), new_k)
 
-        if _prev_overlap > _k_overlap[best_k]:
+        if _prev_overlap > _k_overlap[new_k]:
             logger.debug("Regression, stepping back with smaller eps.")
 
             u[r + 1, :, :, :] = u[r, :, :, :]
             eps_vec /= 2
         else:
+            best_k = new_k
+
             if best_k == 0:
                 eps_vec /= 2
 
@@ -678,10 +680,10 @@ def grape_unitary_adaptive(
 
             _prev_overlap = _k_overlap[best_k]
 
-        overlap_log[r] = _k_overlap[best_k]
+        overlap_log[r] = _k_overlap[new_k]
 
         if overlap_terminate < 1.0:
-            if _k_overlap[best_k] > overlap_terminate:
+            if _k_overlap[new_k] > overlap_terminate:
                 logger.info("Reached target fidelity, terminating.")
                 break
 
-- 
2.43.0


From 6b0d00d56153a4d5b2ed26e8edbacddf56ef2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 55/71] fix: final unitary of GRAPE did not belong to the
 pulses returned

U_f was the propagator of the pulses before the last update, H_t had the
last pulses (in the adaptive variant: those before the last update, and
u ended even one earlier). With one iteration there was no U_f at all.
---
 src/qutip_qtrl/grape.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 0b84d61..3696859 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -93,6 +93,16 @@ def _overlap(A, B):
     return (A.dag() * B).tr() / A.shape[0]
 
 
+def _final_unitary(U, H0, H_ops, u, times):
+    # propagator for the control pulses u, an array (controls, times)
+    dt = times[1] - times[0]
+    U_f = qeye(U.dims[0])
+    for idx in range(len(times) - 1):
+        H = H0 + sum([u[j, idx] * H_op for j, H_op in enumerate(H_ops)])
+        U_f = (-1j * H * dt).expm() @ U_f
+    return U_f
+
+
 def grape_unitary(
     U,
     H0,
@@ -260,10 +270,12 @@ def grape_unitary(
     else:
         H_td_func = [H0] + [[H_ops[j], u[-1, j, :]] for j in range(J)]
 
+    U_f = _final_unitary(U, H0, H_ops, u[-1], times)
+
     progress_bar.finished()
 
     # return U_f_list[-1], H_td_func, u
-    return GRAPEResult(u=u, U_f=U_f_list[-1], H_t=H_td_func)
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def cy_grape_unitary(
@@ -443,9 +455,11 @@ def cy_grape_unitary(
     else:
         H_td_func = [H0] + [[H_ops[j], u[-1, j, :]] for j in range(J)]
 
+    U_f = _final_unitary(U, H0, H_ops, u[-1], times)
+
     progress_bar.finished()
 
-    return GRAPEResult(u=u, U_f=Qobj(U_f_list[-1], dims=U.dims), H_t=H_td_func)
+    return GRAPEResult(u=u, U_f=Qobj(U_f, dims=U.dims), H_t=H_td_func)
 
 
 def grape_unitary_adaptive(
@@ -554,7 +568,7 @@ def grape_unitary_adaptive(
     for r in range(R - 1):
         progress_bar.update()
 
-        _r = r
+        _r = r + 1
         eps_log[r] = eps_vec[best_k]
 
         logger.debug("eps_vec: {}".format(eps_vec))
@@ -708,9 +722,11 @@ def grape_unitary_adaptive(
     else:
         H_td_func = [H0] + [[H_ops[j], u[_r, j, :, best_k]] for j in range(J)]
 
+    U_f = _final_unitary(U, H0, H_ops, u[_r, :, :, best_k], times)
+
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    result = GRAPEResult(u=u[: _r + 1, :, :, best_k], U_f=U_f, H_t=H_td_func)
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From e8ad2a1bb648ce9bece747fadd61c8a92ebac598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 56/71] fix: adaptive GRAPE failed with use_interp

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 3696859..d8a1127 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -711,7 +711,7 @@ def grape_unitary_adaptive(
                 u[_r, j, :, best_k],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u[_r, j, -1, best_k],
             )
             for j in range(J)
         ]
-- 
2.43.0


From 70c51be9250782cb65ea75c67399b7a22cfc3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 57/71] fix: symplectic omega follows a change of the system on
 re-initialisation

---
 src/qutip_qtrl/dynamics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index d52fd62..c7a89a3 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1830,10 +1830,13 @@ class DynamicsSymplectic(Dynamics):
 
     def _init_phase(self):
         use_qobj = self.oper_dtype == Qobj
-        if self._omega is not None and use_qobj != isinstance(
-            self._omega, Qobj
+        if self._omega is not None and (
+            use_qobj != isinstance(self._omega, Qobj)
+            or self._omega.shape != self.dyn_shape
+            or self.omega.dims != self.dyn_dims
         ):
             # omega, and the phase made of it, are of another operator type
+            # or another system
             self._omega = None
             self._omega_qobj = None
             if self._phase_application != "custom":
-- 
2.43.0


From 16a8937d7943aa7bff24171f6682a94a52c6617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 58/71] fix: PulseGenRndWalk2 printed its start values

---
 src/qutip_qtrl/pulsegen.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 9850729..291935c 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -598,9 +598,7 @@ class PulseGenRndWalk2(PulseGen):
 
         walk = np.zeros(self.tau.shape)
         amp = self.scaling * (np.random.rand() * 2 - 1)
-        print("Start amp {}".format(amp))
         grad = 0.0
-        print("Start grad {}".format(grad))
         for k in range(len(walk)):
             walk[k] = amp
             grad += (np.random.rand() * 2 - 1) * max_d2_amp
-- 
2.43.0


From 42cb3569a2626e246cafb8cfe66c45d07852d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 59/71] fix: default scale factor follows a change of the
 system on re-initialisation

---
 src/qutip_qtrl/fidcomp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index d95581f..ec842ea 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -568,6 +568,9 @@ class FidCompTraceDiff(FidelityComputer):
         is the dimension of the drift, when the Dynamics are initialised.
     """
 
+    # the scale_factor that was calculated, if it was
+    _default_scale_factor = None
+
     def reset(self):
         FidelityComputer.reset(self)
         self.id_text = "TRACEDIFF"
@@ -585,8 +588,12 @@ class FidCompTraceDiff(FidelityComputer):
         initialises the computer based on the configuration of the Dynamics
         Calculates the scale_factor is not already set
         """
-        if self.scale_factor is None:
+        if (
+            self.scale_factor is None
+            or self.scale_factor is self._default_scale_factor
+        ):
             self.scale_factor = 1.0 / (2.0 * self.parent.get_drift_dim())
+            self._default_scale_factor = self.scale_factor
             if self.log_level <= logging.DEBUG:
                 logger.debug(
                     "Scale factor calculated as {}".format(self.scale_factor)
-- 
2.43.0


From ca57b7e3a44a8faf331cb7fcb7226fac3b6e26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 60/71] fix: a refused phase_option is not kept

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index ec842ea..6ce2ab8 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -321,7 +321,6 @@ class FidCompUnitary(FidelityComputer):
         self._init_phase_option(value)
 
     def _init_phase_option(self, value):
-        self._phase_option = value
         if value == "PSU":
             self.fid_norm_func = self.normalize_PSU
             self.grad_norm_func = self.normalize_gradient_PSU
@@ -337,6 +336,7 @@ class FidCompUnitary(FidelityComputer):
             raise errors.UsageError(
                 "No option for phase_option '{}'".format(value)
             )
+        self._phase_option = value
 
     def init_comp(self):
         """
-- 
2.43.0


From 98b779333ce66b49c5e2482db41b40a61cfdaec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 61/71] fix: refused termination conditions are not kept

---
 src/qutip_qtrl/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index a20afbc..bb8c3e4 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -379,14 +379,14 @@ class Optimizer(object):
         This is called by run_optimization, but could called independently
         to check the configuration.
         """
-        if term_conds is not None:
-            self.termination_conditions = term_conds
-        term_conds = self.termination_conditions
+        if term_conds is None:
+            term_conds = self.termination_conditions
 
         if not isinstance(term_conds, termcond.TerminationConditions):
             raise errors.UsageError(
                 "No termination conditions for the " "optimisation function"
             )
+        self.termination_conditions = term_conds
 
         if not isinstance(self.dynamics, dynamics.Dynamics):
             raise errors.UsageError("No dynamics object attribute set")
-- 
2.43.0


From b25bed72d3a55364a1f93d50309c60e8a34ff66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 62/71] fix: fid_type TD_APPROX was refused although documented

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 687a4b0..0616f79 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1932,7 +1932,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up in ("TDAPPROX", "TD_APPROX"):
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From b08af0dd93719142834d2a71a67891ba00ddea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:21 +0000
Subject: [PATCH 63/71] fix: a pulse whose initialisation was refused counted
 as initialised

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 291935c..651c268 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -238,8 +238,6 @@ class PulseGen:
             for k in range(self.num_tslots - 1):
                 self.time[k + 1] = self.time[k] + self.tau[k]
 
-        self._pulse_initialised = True
-
         if self.lbound is not None:
             if np.isinf(self.lbound):
                 self.lbound = None
@@ -251,6 +249,8 @@ class PulseGen:
             if self.ubound < self.lbound:
                 raise ValueError("ubound cannot be less the lbound")
 
+        self._pulse_initialised = True
+
     def _apply_bounds_and_offset(self, pulse):
         """
         Ensure that the randomly generated pulse fits within the bounds
-- 
2.43.0


From 49a063cad2177af899fd5bd7f6045ed320204d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:21 +0000
Subject: [PATCH 64/71] fix: refused wavelengths are not kept

---
 src/qutip_qtrl/pulsegen.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 651c268..8c9f146 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -377,9 +377,8 @@ class PulseGenRndFourier(PulseGen):
         Generate a random pulse based on a Fourier series with a minimum
         wavelength
         """
-        if min_wavelen is not None:
-            self.min_wavelen = min_wavelen
-        min_wavelen = self.min_wavelen
+        if min_wavelen is None:
+            min_wavelen = self.min_wavelen
 
         if min_wavelen > self.pulse_time:
             raise ValueError(
@@ -387,6 +386,7 @@ class PulseGenRndFourier(PulseGen):
             )
         if not self._pulse_initialised:
             self.init_pulse()
+        self.min_wavelen = min_wavelen
 
         # use some phase to avoid the first pulse being always 0
 
@@ -465,16 +465,12 @@ class PulseGenRndWaves(PulseGen):
         amplitude and phase offset
         """
 
-        if num_comp_waves is not None:
-            self.num_comp_waves = num_comp_waves
-        if min_wavelen is not None:
-            self.min_wavelen = min_wavelen
-        if max_wavelen is not None:
-            self.max_wavelen = max_wavelen
-
-        num_comp_waves = self.num_comp_waves
-        min_wavelen = self.min_wavelen
-        max_wavelen = self.max_wavelen
+        if num_comp_waves is None:
+            num_comp_waves = self.num_comp_waves
+        if min_wavelen is None:
+            min_wavelen = self.min_wavelen
+        if max_wavelen is None:
+            max_wavelen = self.max_wavelen
 
         if min_wavelen > self.pulse_time:
             raise ValueError(
@@ -488,6 +484,9 @@ class PulseGenRndWaves(PulseGen):
 
         if not self._pulse_initialised:
             self.init_pulse()
+        self.num_comp_waves = num_comp_waves
+        self.min_wavelen = min_wavelen
+        self.max_wavelen = max_wavelen
 
         # use some phase to avoid the first pulse being always 0
 
-- 
2.43.0


From e568f783fe465d8758306fea7a7dabc4c06a3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:40 +0000
Subject: [PATCH 65/71] fix: phase_application of general matrices had not its
 documented default

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index c7a89a3..c989a7c 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -384,7 +384,7 @@ class Dynamics(object):
         self._ctrl_dyn_gen = None
         self._phased_ctrl_dyn_gen = None
         self._dyn_gen_phase = None
-        self._phase_application = None
+        self._phase_application = "preop"
         self._initial = None
         self._target = None
         self._onto_evo_target = None
-- 
2.43.0


From d90402f78c5c570af45efc5b940cfffaa9f9331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:14 +0000
Subject: [PATCH 66/71] fix: dump files stayed open when writing them out
 failed

The files opened by the writeout methods of the dumps were only closed
after all had been written. An error in between (full disk, Ctrl-C) left
them open, as long as anything kept the exception.
---
 src/qutip_qtrl/dump.py | 57 +++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index fc8d7d8..9875179 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -10,6 +10,7 @@ data dumping.
 
 import os
 import copy
+import contextlib
 import numpy as np
 
 from qutip import Qobj
@@ -422,6 +423,12 @@ class OptimDump(Dump):
             If a filehandle is specified then it must be a byte mode file
             as numpy.savetxt is used, and requires this.
         """
+        with contextlib.ExitStack() as files:
+            # (whatever is opened gets closed, also when writing fails)
+            self._writeout(f, files)
+
+    def _writeout(self, f, files):
+        """write to the stream, file or files; those opened enter `files`"""
         fall = None
         # If specific file given then write everything to it
         if hasattr(f, "write"):
@@ -434,7 +441,7 @@ class OptimDump(Dump):
             closefs = False
         elif f:
             # Assume f is a filename
-            fall = open(f, "wb")
+            fall = files.enter_context(open(f, "wb"))
             fs = fall
             closefs = False
             closefall = True
@@ -442,7 +449,7 @@ class OptimDump(Dump):
             self.create_dump_dir()
             closefall = False
             if self.dump_summary:
-                fs = open(self.summary_file, "wb")
+                fs = files.enter_context(open(self.summary_file, "wb"))
                 closefs = True
 
         if self.dump_summary:
@@ -705,6 +712,12 @@ class DynamicsDump(Dump):
             the dump_dir.  If a filehandle is specified then it must be a byte
             mode file as numpy.savetxt is used, and requires this.
         """
+        with contextlib.ExitStack() as files:
+            # (whatever is opened gets closed, also when writing fails)
+            self._writeout(f, files)
+
+    def _writeout(self, f, files):
+        """write to the stream, file or files; those opened enter `files`"""
         fall = None
         # If specific file given then write everything to it
         if hasattr(f, "write"):
@@ -717,7 +730,7 @@ class DynamicsDump(Dump):
             closefs = False
         elif f:
             # Assume f is a filename
-            fall = open(f, "wb")
+            fall = files.enter_context(open(f, "wb"))
             fs = fall
             closefs = False
             closefall = True
@@ -725,7 +738,7 @@ class DynamicsDump(Dump):
             self.create_dump_dir()
             closefall = False
             if self.dump_summary:
-                fs = open(self.summary_file, "wb")
+                fs = files.enter_context(open(self.summary_file, "wb"))
                 closefs = True
 
         if self.dump_summary:
@@ -813,6 +826,12 @@ class EvoCompDumpItem(DumpItem):
             If a filehandle is specified then it must be a byte mode file
             as numpy.savetxt is used, and requires this.
         """
+        with contextlib.ExitStack() as files:
+            # (whatever is opened gets closed, also when writing fails)
+            self._writeout(f, files)
+
+    def _writeout(self, f, files):
+        """write to the stream, file or files; those opened enter `files`"""
         dump = self.parent
         fall = None
         closefall = True
@@ -826,7 +845,7 @@ class EvoCompDumpItem(DumpItem):
             closefall = False
             f.write(str.encode("EVOLUTION COMPUTATION {}\n".format(self.idx)))
         elif f:
-            fall = open(f, "wb")
+            fall = files.enter_context(open(f, "wb"))
         else:
             # otherwise files for each type will be created
             fnbase = "{}-evo{}".format(dump._fname_base, self.idx)
@@ -839,7 +858,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Ctrl amps\n"))
             else:
                 fname = "{}-ctrl_amps.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             np.savetxt(
                 f, self.ctrl_amps, fmt="%14.6g", delimiter=dump.data_sep
@@ -854,7 +875,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Dynamics Generators\n"))
             else:
                 fname = "{}-dyn_gen.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             for k, oper in enumerate(self.dyn_gen):
                 f.write(
@@ -873,7 +896,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Propagators\n"))
             else:
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             for k, oper in enumerate(self.prop):
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
@@ -888,7 +913,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Propagator gradients\n"))
             else:
                 fname = "{}-prop_grad.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             for k in range(self.prop_grad.shape[0]):
                 for j in range(self.prop_grad.shape[1]):
@@ -913,7 +940,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Forward evolution\n"))
             else:
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             for k, oper in enumerate(self.fwd_evo):
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
@@ -928,7 +957,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Onward evolution\n"))
             else:
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             for k, oper in enumerate(self.onwd_evo):
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
@@ -943,7 +974,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(str.encode("Onto evolution\n"))
             else:
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
-                f = open(os.path.join(dump.dump_dir, fname), "wb")
+                f = files.enter_context(
+                    open(os.path.join(dump.dump_dir, fname), "wb")
+                )
                 closef = True
             for k, oper in enumerate(self.onto_evo):
                 f.write(
-- 
2.43.0


From 35b5744e5c307523dca89a593ab87a0e53b0fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 67/71] fix: a changed fid_goal was ignored in later runs

---
 src/qutip_qtrl/optimizer.py | 8 +++++++-
 src/qutip_qtrl/termcond.py  | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index bb8c3e4..b40d514 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -400,8 +400,14 @@ class Optimizer(object):
                 "error tolerance must be set"
             )
 
-        if term_conds.fid_err_targ is None:
+        if term_conds.fid_err_targ is None or (
+            # worked out for an earlier run, so it follows the goal
+            term_conds.fid_err_targ
+            is getattr(term_conds, "_goal_err_targ", None)
+            and term_conds.fid_goal is not None
+        ):
             term_conds.fid_err_targ = np.abs(1 - term_conds.fid_goal)
+            term_conds._goal_err_targ = term_conds.fid_err_targ
 
         if term_conds.fid_goal is None:
             term_conds.fid_goal = 1 - term_conds.fid_err_targ
diff --git a/src/qutip_qtrl/termcond.py b/src/qutip_qtrl/termcond.py
index 7552c4b..2285f39 100644
--- a/src/qutip_qtrl/termcond.py
+++ b/src/qutip_qtrl/termcond.py
@@ -58,6 +58,8 @@ class TerminationConditions:
     def reset(self):
         self.fid_err_targ = 1e-5
         self.fid_goal = None
+        # target worked out from the goal
+        self._goal_err_targ = None
         self.max_wall_time = 60 * 60.0
         self.min_gradient_norm = 1e-5
         self.max_iterations = 1e10
-- 
2.43.0


From debfa6fc0f183b720b4cf2f165e26341e3a66c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 68/71] fix: parameters were loaded before a missing section
 name was refused

---
 src/qutip_qtrl/loadparams.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 083f042..2639f18 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -38,6 +38,12 @@ def load_parameters(
     Import parameters for the optimisation objects
     Will throw a ValueError if file_name does not exist
     """
+    if obj is not None and not isinstance(section, str):
+        raise ValueError(
+            "Section name must be given when loading "
+            "parameters of general object"
+        )
+
     parser = ConfigParser()
 
     readFiles = parser.read(str(file_name))
@@ -110,11 +116,6 @@ def load_parameters(
             )
 
     if obj is not None:
-        if not isinstance(section, str):
-            raise ValueError(
-                "Section name must be given when loading "
-                "parameters of general object"
-            )
         s = section
         try:
             attr_names = parser.options(s)
-- 
2.43.0


From 417cf9c22da36333fbe4fdf1d107eb3ae890c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 69/71] fix: unitarity checking asked for was reduced at DEBUG
 level

---
 src/qutip_qtrl/dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index c989a7c..db0b0fb 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -832,8 +832,10 @@ class Dynamics(object):
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
 
-        if self.log_level <= logging.DEBUG and isinstance(
-            self, DynamicsUnitary
+        if (
+            self.log_level <= logging.DEBUG
+            and isinstance(self, DynamicsUnitary)
+            and self.unitarity_check_level < 1
         ):
             self.unitarity_check_level = 1
 
-- 
2.43.0


From b90299dbbd25bf6cb540b33a51e62b93426d0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 70/71] fix: amplitude files were reported as written when
 saving them failed

---
 src/qutip_qtrl/dynamics.py   | 8 ++++++++
 src/qutip_qtrl/pulseoptim.py | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index db0b0fb..2720d35 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1041,6 +1041,12 @@ class Dynamics(object):
 
         verbose : Boolean
             If True then an info message will be logged
+
+        Returns
+        -------
+        saved : Boolean
+            True if the amplitudes were saved, False if this failed
+            (the error is logged)
         """
         self.check_ctrls_initialized()
 
@@ -1080,6 +1086,8 @@ class Dynamics(object):
                 "Failed to save amplitudes due to underling "
                 "error: {}".format(e)
             )
+            return False
+        return True
 
     def update_ctrl_amps(self, new_amps):
         """
diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 0616f79..b1bf5d5 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -516,8 +516,8 @@ def optimize_pulse(
     if out_file_ext is not None:
         # Save initial amplitudes to a text file
         pulsefile = "ctrl_amps_initial_" + out_file_ext
-        dyn.save_amps(pulsefile)
-        if log_level <= logging.INFO:
+        saved = dyn.save_amps(pulsefile)
+        if saved and log_level <= logging.INFO:
             logger.info("Initial amplitudes output to file: " + pulsefile)
 
     # Start the optimisation
@@ -526,8 +526,8 @@ def optimize_pulse(
     if out_file_ext is not None:
         # Save final amplitudes to a text file
         pulsefile = "ctrl_amps_final_" + out_file_ext
-        dyn.save_amps(pulsefile)
-        if log_level <= logging.INFO:
+        saved = dyn.save_amps(pulsefile)
+        if saved and log_level <= logging.INFO:
             logger.info("Final amplitudes output to file: " + pulsefile)
 
     return result
-- 
2.43.0


From 5dbe453e64132194b5005d565ef950a1c56cfced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:01 +0000
Subject: [PATCH 71/71] fix: a deprecated scale factor overrode the one in
 fid_params

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b1bf5d5..475cdce 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -411,7 +411,7 @@ def optimize_pulse(
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
             fid_params = dict(fid_params)
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
@@ -1832,7 +1832,7 @@ def create_pulse_optimizer(
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
             fid_params = dict(fid_params)
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
-- 
2.43.0

