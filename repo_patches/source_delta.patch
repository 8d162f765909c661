From 3338f3d49e7a5fba726e46769b18bc4895537a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 01/44] fix: regularised solve with a non-empty argsprox raised
 TypeError in S-FISTA

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From 649eddd1e8da9ffe6088deab63936c20ceaac297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 02/44] fix: input errors raised TypeError instead of returning
 an input-error result

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..56f97c8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1086,7 +1086,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From a5b94939de97ef2c5dd810eb535e2aacf341f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 03/44] fix: results object lacked two exit flags named in the
 user guide

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..87a08f8 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_TR_INCREASE_WARNING']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 56f97c8..01dfbbc 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From 65d9f947e93b48f1e20f40232b2b437b1dd8e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 04/44] fix: auto-detected restart exit had no documented flag
 and an 'Unknown exit flag' message

---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 1 +
 docs/userguide.rst  | 1 +
 3 files changed, 4 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 87a08f8..8afb96a 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -84,6 +84,8 @@ class ExitInformation(object):
             return "Error (linear algebra): " + self.msg
         elif self.flag == EXIT_FALSE_SUCCESS_WARNING:
             return "Warning (max false good steps): " + self.msg
+        elif self.flag == EXIT_AUTO_DETECT_RESTART_WARNING:
+            return "Warning (auto-detected restart): " + self.msg
         elif self.flag == EXIT_EVAL_ERROR:
             return "Error (function evaluation): " + self.msg
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index 01dfbbc..b4e412b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -72,6 +72,7 @@ class OptimResults(object):
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
         self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
         self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
+        self.EXIT_AUTO_DETECT_RESTART_WARNING = EXIT_AUTO_DETECT_RESTART_WARNING
 
     def __str__(self):
         # Result of calling print(soln)
diff --git a/docs/userguide.rst b/docs/userguide.rst
index 0e72ab8..fcc2255 100644
--- a/docs/userguide.rst
+++ b/docs/userguide.rst
@@ -54,6 +54,7 @@ The possible values of :code:`soln.flag` are defined by the following variables:
 * :code:`soln.EXIT_MAXFUN_WARNING` - maximum allowed objective evaluations reached. This is the most likely return value when using multiple restarts.
 * :code:`soln.EXIT_SLOW_WARNING` - maximum number of slow iterations reached.
 * :code:`soln.EXIT_FALSE_SUCCESS_WARNING` - DFO-LS reached the maximum number of restarts which decreased the objective, but to a worse value than was found in a previous run.
+* :code:`soln.EXIT_AUTO_DETECT_RESTART_WARNING` - hard restarts only: a restart was auto-detected as necessary, but the evaluation budget did not allow it.
 * :code:`soln.EXIT_TR_INCREASE_WARNING` - model increase when solving the trust region subproblem with multiple arbitrary constraints.
 * :code:`soln.EXIT_INPUT_ERROR` - error in the inputs.
 * :code:`soln.EXIT_TR_INCREASE_ERROR` - error occurred when solving the trust region subproblem.
-- 
2.43.0


From 29a55cdc77d8a4c134c79294067e3044fa1be6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 05/44] fix: soft restart saved the incumbent with the wrong
 evaluation number and sample count

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 8afb96a..4a16476 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -803,8 +803,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
+                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From c520da207ec2fe28ae234c4274e994af407b82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 06/44] fix: exit at the starting point reported evaluation
 number 0, dropped h from the objective and counted an extra run

---
 dfols/solver.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index b4e412b..6f025a0 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -179,7 +179,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
@@ -192,17 +191,16 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            xmin_eval_num = nx  # x0 was evaluation point number nx (1-indexed)
+            jacmin_eval_nums = None  # no Jacobian yet
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From bcb8fa69e2e3103b6c14611bc4e63ed28c59f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 07/44] fix: hard restarts labelled the starting point of every
 run as evaluation point 1

---
 dfols/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 6f025a0..fe06f96 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -153,7 +153,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -225,6 +225,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
                          params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+    # Evaluation point number for x0 (only 1 on the first run)
+    control.model.eval_num[0] = nx if r0_avg_old is None else r0_eval_num_old
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1134,7 +1136,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if params("restarts.hard.use_old_rk"):
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, r0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From 1954af8794c6cc2354ca35af6e606049a8a3bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 08/44] fix: parallel initialisation labelled every point with
 the last evaluation number

---
 dfols/controller.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4a16476..f09937b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -270,21 +270,21 @@ class Controller(object):
                 
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
             
             # Evaluations done, now add to the model
             for k in range(1, num_directions + 1):
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[k-1]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
                                               x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
         else:
@@ -376,22 +376,22 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
 
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
                                               x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
         else:
-- 
2.43.0


From 13fc9159dd91582ba0b8aeab462948efe08feb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 09/44] fix: parallel initialisation discarded points evaluated
 after the one that ended it

---
 dfols/controller.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index f09937b..62771a2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -278,9 +278,13 @@ class Controller(object):
                 rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
-                                              x_in_abs_coords=True)
+                    # All later points have been evaluated too, so don't lose these
+                    for j in range(k, num_directions + 1):
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[j-1]
+                        if num_samples_run > 0:
+                            x = self.model.as_absolute_coordinates(xpts_added[j, :])
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
+                                                  x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
@@ -384,9 +388,13 @@ class Controller(object):
                 rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
-                                              x_in_abs_coords=True)
+                    # All later points have been evaluated too, so don't lose these
+                    for j in range(ndirns, num_directions):
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[j]
+                        if num_samples_run > 0:
+                            x = self.model.as_absolute_coordinates(xopt + dirns[j, :])
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
+                                                  x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-- 
2.43.0


From 39553fb78e53d8b9cb4f7a6b3214d4e6962b6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 10/44] fix: evaluated trial points were dropped when leaving
 the main loop after evaluation

---
 dfols/controller.py | 3 +++
 dfols/solver.py     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 62771a2..c1754f2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -460,6 +460,9 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    # Don't lose the point we just evaluated
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index fe06f96..333e237 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -616,6 +616,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # Don't lose the point we just evaluated
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -670,6 +673,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # Don't lose the point we just evaluated
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From 6f36076ac4746508f8db9ef130a58ac282ebce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 11/44] fix: NaN objective values could displace or shadow the
 best finite point

---
 dfols/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..c393291 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -196,7 +196,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or np.isnan(self.objopt())):
             self.kopt = k
         return
 
@@ -223,7 +223,9 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        if not np.all(np.isnan(self.objval[:self.npt()])):
+            self.kopt = np.nanargmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        self.factorisation_current = False  # interpolation matrix is based at xopt, which may have changed
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -238,7 +240,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -262,7 +264,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -276,7 +278,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From 4613022487b4cefa510ac8a593fae41d454d2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 12/44] fix: success flag could be attached to a non-finite
 objective value

---
 dfols/model.py  | 2 ++
 dfols/solver.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index c393291..d530f8b 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -285,6 +285,8 @@ class Model(object):
 
     def min_objective_value(self):
         # Get termination criterion for f small: f <= abs_tol or f <= rel_tol * f0
+        if not np.isfinite(self.objbeg):
+            return self.abs_tol  # no meaningful relative reduction available
         return max(self.abs_tol, self.rel_tol * self.objbeg)
 
     def model_value(self, d, d_based_at_xopt=True, with_const_term=False):
diff --git a/dfols/solver.py b/dfols/solver.py
index 333e237..7308d3f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1164,6 +1164,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
+    # Never claim success if we did not find any point with a finite objective value
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "Best objective value found is not finite")
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From 78152b68e699bc5c437975d169f9d1b6252aab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 13/44] fix: soft restarts kept the old rhoend when reducing
 rho and ignored h when judging the first run

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index c1754f2..37cef70 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -132,7 +132,7 @@ class Controller(object):
         self.last_successful_iter = 0  # when ||d|| >= rho
         # For counting the number of soft restarts
         self.last_successful_run = 0
-        self.last_run_fopt = sumsq(r0)
+        self.last_run_fopt = self.model.objopt()
         self.scaling_changes = scaling_changes
 
     def n(self):
@@ -823,6 +823,7 @@ class Controller(object):
         # Note: closest points because we are suddenly increasing delta & rho, so we want to encourage spreading out points
         self.delta = self.rhobeg
         self.rho = self.rhobeg
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend
         self.diffs = [0.0, 0.0, 0.0]
         
         # Forget history of slow iterations
-- 
2.43.0


From 4088a18685b7593a721edc00c5a8eb9e48b29673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 14/44] fix: exit reason was overwritten by 'maximum number of
 unsuccessful restarts' when no hard restart was stopped

---
 dfols/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 7308d3f..afec985 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1161,7 +1161,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and exit_info.able_to_do_restart() and \
+            nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
     # Never claim success if we did not find any point with a finite objective value
-- 
2.43.0


From 63dccfa3832e66b66d5c7cf7e32b81d55a518e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 15/44] fix: boundary values of user parameters crashed or hung
 the solver instead of being handled or reported

---
 dfols/controller.py   |  2 +-
 dfols/params.py       |  6 +++---
 dfols/solver.py       | 10 ++++++++++
 dfols/trust_region.py |  2 +-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 37cef70..cf50c35 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -738,7 +738,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)  # never go below rhoend
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..b853d28 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -187,7 +187,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
@@ -273,7 +273,7 @@ class ParameterList(object):
         elif key == "dykstra.d_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "dykstra.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "matrix_rank.r_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "func_tol.criticality_measure":
@@ -281,7 +281,7 @@ class ParameterList(object):
         elif key == "func_tol.tr_step":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "func_tol.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "sfista.max_iters_scaling":
             type_str, nonetype_ok, lower, upper = 'float', False, 1.0, None
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index afec985..6df4ec8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1063,6 +1063,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not all_ok:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
+    # Some ranges must be strict
+    if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
+
+    if exit_info is None and params("tr_radius.alpha1") >= 1.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "tr_radius.alpha1 must be strictly less than 1")
+
+    if exit_info is None and params("growing.delta_scale_new_dirns") <= 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "growing.delta_scale_new_dirns must be strictly positive")
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e7327ee..000aeb2 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,7 +109,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError, ZeroDivisionError):
         MAX_LOOP_ITERS = max_iters
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
-- 
2.43.0


From 2f3bcf4c10e236cc9e199ee6a61ae91ead2381f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 16/44] fix: inverted or wrongly shaped bounds and NaN radii
 escaped the input checks

---
 dfols/solver.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 6df4ec8..b722250 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -984,6 +984,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nsamples is None:
         nsamples = lambda delta, rho, iter, nruns: 1  # no averaging
 
+    exit_info = None
+    if np.shape(x0) != (n,):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
+    elif np.shape(xl) != np.shape(x0):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
+    elif np.shape(xu) != np.shape(x0):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
+    elif not np.all(xl < xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must be strictly below upper bounds")
+
     # If using arbitrary constraints, create projection from bounds
     if projections:
         xlb = xl.copy()
@@ -1008,7 +1018,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
-    if scaling_within_bounds:
+    if scaling_within_bounds and exit_info is None:
         shift = xl.copy()
         scale = xu - xl
         scaling_changes = (shift, scale)
@@ -1017,23 +1027,22 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     xl = apply_scaling(xl, scaling_changes)
     xu = apply_scaling(xu, scaling_changes)
 
-    exit_info = None
     # Input & parameter checks
     if exit_info is None and h is not None:
         if prox_uh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide prox_uh input if h is not None")
         elif lh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide lh input if h is not None")
-        elif lh <= 0.0:
+        elif not lh > 0.0:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "lh must be strictly positive")
 
     if exit_info is None and npt < n + 1:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt must be >= n+1 for linear models with inexact interpolation")
 
-    if exit_info is None and rhobeg <= 0.0:
+    if exit_info is None and not rhobeg > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be strictly positive")
 
-    if exit_info is None and rhoend <= 0.0:
+    if exit_info is None and not rhoend > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhoend must be strictly positive")
 
     if exit_info is None and rhobeg <= rhoend:
@@ -1042,16 +1051,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and maxfun <= 0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "maxfun must be strictly positive")
 
-    if exit_info is None and np.shape(x0) != (n,):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
-
-    if exit_info is None and np.shape(x0) != np.shape(xl):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
-
-    if exit_info is None and np.shape(x0) != np.shape(xu):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
-
-    if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
+    if exit_info is None and not np.min(xu - xl) >= 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
     if maxfun <= npt:
-- 
2.43.0


From f9974d258ffa760aa33c326a4a0f73766a638d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 17/44] fix: convex constraints with npt != n+1 or a reduced
 initial set raised RuntimeError

---
 dfols/controller.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index cf50c35..903185b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -169,7 +169,7 @@ class Controller(object):
             k = 0
             mr_tol = params("matrix_rank.r_tol")
             D_rank, diag = qr_rank(D,tol=mr_tol)
-            while D_rank != num_directions and k < self.n():
+            while D_rank < self.n() and k < self.n():
                 if diag[k] < mr_tol:
                     ek = np.zeros(self.n())
                     ek[k] = 1
@@ -189,7 +189,7 @@ class Controller(object):
             k = 0
             slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
-            while D_rank != num_directions and k < 100*self.n():
+            while D_rank < self.n() and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
                     ek = np.zeros(self.n())
                     ek[k%self.n()] = 1
@@ -211,7 +211,7 @@ class Controller(object):
             # Set still not L.I? Try random directions
             i = 0
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
-            while D_rank != num_directions and i <= 100*num_directions:
+            while D_rank < self.n() and i <= 100*self.n():
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
@@ -230,11 +230,11 @@ class Controller(object):
                     k += 1
                 i += 1
 
-            if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+            if D_rank < self.n():
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
             # we have a L.I set of interpolation points
-            for k in range(0,self.n()):
+            for k in range(0, min(self.n(), num_directions)):  # any remaining points will be added by growing
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(D[k, :])
                 rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
-- 
2.43.0


From 8af58cdbfc1038aa8b796646170d9355139b29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 18/44] fix: default initialisation with convex constraints
 depended on NumPy's global random state

---
 dfols/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 903185b..7f0e84b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -187,7 +187,8 @@ class Controller(object):
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            rng = np.random.RandomState(0)  # don't depend on (or change) the global random state
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank < self.n() and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -205,7 +206,7 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -215,7 +216,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
-- 
2.43.0


From 9db8f8fc7b24b3ba96aa966249ff05bf5dadb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 19/44] fix: AssertionError when npt exceeds what coordinate
 initialisation can build

---
 dfols/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index b722250..6c09662 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -232,7 +232,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
     num_directions = min(params("growing.ndirs_initial") + params("restarts.hard.increase_ndirs_initial_amt") * nruns_so_far,
                          npt - 1)  # cap at npt
-    if params("init.random_initial_directions"):
+    # (coordinate directions can only build up to (n+1)(n+2)/2 points; may need more after several restarts with increasing npt)
+    if params("init.random_initial_directions") or npt > (len(x0)+1)*(len(x0)+2)//2:
         if do_logging:
             module_logger.info("Initialising (random directions)")
         exit_info = control.initialise_random_directions(number_of_samples, num_directions, params)
@@ -1063,6 +1064,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not all_ok:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
+    if exit_info is None and npt > (n+1)*(n+2)//2 and not params("init.random_initial_directions"):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt > (n+1)(n+2)/2 requires random initial directions")
+
     # Some ranges must be strict
     if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
-- 
2.43.0


From 29dd78cefc149f26d90698194419614df8171643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 20/44] fix: soft restart crashed while the point set was still
 growing, or with increase_npt_amt = 0

---
 dfols/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 7f0e84b..4c57e54 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -841,7 +841,7 @@ class Controller(object):
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
             upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit, len(closest_points))):  # fewer points if still growing
             # Determine which point to update (knew)
             knew = closest_points[i]
 
@@ -851,8 +851,9 @@ class Controller(object):
             if exit_info is not None:
                 return exit_info
 
-        # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
+        # Now increase npt, if required (and if the current set has been fully built)
+        if params("restarts.increase_npt") and params("restarts.increase_npt_amt") > 0 \
+                and self.model.num_pts <= self.model.npt() < params("restarts.max_npt"):
             num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
-- 
2.43.0


From bf17c466bd220fada12deb31ede0a88a62a0a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 21/44] fix: with convex constraints the model stored
 unprojected points and the incumbent was re-projected to a different point

---
 dfols/controller.py | 8 ++++++++
 dfols/model.py      | 3 ++-
 dfols/solver.py     | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4c57e54..a3e9d97 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -446,6 +446,8 @@ class Controller(object):
         for j in range(num_steps):
             xnew = self.model.xopt() + (step_length / LA.norm(dirns[j, :])) * dirns[j, :]
             x = self.model.as_absolute_coordinates(xnew)
+            if self.model.projections:
+                xnew = x - self.model.xbase  # store the point actually evaluated
             rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
 
             # Handle exit conditions (f < min obj value or maxfun reached)
@@ -589,6 +591,8 @@ class Controller(object):
         objopt = self.model.objopt()  # again, evaluate now, before model.change_point()
         d = xnew - self.model.xopt()
         x = self.model.as_absolute_coordinates(xnew)
+        if self.model.projections:
+            xnew = x - self.model.xbase  # store the point actually evaluated
         rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
 
         # Handle exit conditions (f < min obj value or maxfun reached)
@@ -863,6 +867,8 @@ class Controller(object):
             for i in range(num_pts_to_add):
                 xnew = self.model.xopt() + dirns[i, :]  # always base move around best value so far
                 x = self.model.as_absolute_coordinates(xnew)
+                if self.model.projections:
+                    xnew = x - self.model.xbase  # store the point actually evaluated
                 rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
 
                 # Handle exit conditions (f < min obj value or maxfun reached)
@@ -943,6 +949,8 @@ class Controller(object):
                     dirns[i, :] = -dirns[i, :]
             xnew = np.maximum(np.minimum(self.model.xopt() + dirns[i, :], self.model.su), self.model.sl)
             x = self.model.as_absolute_coordinates(xnew)
+            if self.model.projections:
+                xnew = x - self.model.xbase  # store the point actually evaluated
             rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
 
             # Handle exit conditions (f < min obj value or maxfun reached)
diff --git a/dfols/model.py b/dfols/model.py
index d530f8b..5d8bbdb 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -140,7 +140,8 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
+                # Already the output of Dykstra's algorithm, only need to fix rounding errors in the last set (bounds)
+                return self.projections[-1](self.xbase + self.points[k,:])
             return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
 
     def rvec(self, k):
diff --git a/dfols/solver.py b/dfols/solver.py
index 6c09662..afee395 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -593,6 +593,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
             # Evaluate new point
             x = control.model.as_absolute_coordinates(xnew)
+            if control.model.projections:
+                xnew = x - control.model.xbase  # store the point actually evaluated
             ##print("x from xnew again", x)
             number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
             rvec_list, obj_list, num_samples_run, exit_info = control.evaluate_objective(x, number_of_samples, params)
-- 
2.43.0


From f88ed30999a688871a67fa6bf424ed3c054b3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 22/44] fix: evaluated points were projected with the default
 instead of the user's Dykstra settings

---
 dfols/controller.py | 3 ++-
 dfols/model.py      | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index a3e9d97..1d7b4be 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -114,7 +114,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
+                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 5d8bbdb..2fca062 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, dykstra_max_iters=100, dykstra_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -71,6 +71,8 @@ class Model(object):
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
+        self.dykstra_max_iters = dykstra_max_iters
+        self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -155,7 +157,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
         return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
 
     def xpt_directions(self, include_kopt=True):
-- 
2.43.0


From 3b0e114d4a8833c2ee62fb6d2730dac906c55444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 23/44] fix: slightly infeasible x0 was not replaced by its
 projection

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index afee395..0949920 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1119,7 +1119,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()  # also removes very small infeasibilities
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From f154a087246718ab1e91fbe567fbfdb5c015fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 24/44] fix: rounding errors in the base-point arithmetic gave
 evaluation points outside the bounds

---
 dfols/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 2fca062..3c04d77 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -70,6 +70,8 @@ class Model(object):
         self.xbase = x0.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
+        self.xl = xl.copy()  # absolute bounds, so rounding errors in xbase + step never give an infeasible point
+        self.xu = xu.copy()
         self.projections = projections
         self.dykstra_max_iters = dykstra_max_iters
         self.dykstra_tol = dykstra_tol
@@ -144,7 +146,7 @@ class Model(object):
             if self.projections:
                 # Already the output of Dykstra's algorithm, only need to fix rounding errors in the last set (bounds)
                 return self.projections[-1](self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)), self.xu)
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -158,7 +160,7 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su)), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
-- 
2.43.0


From 05f7e1ca5ebb3b592dcf6ac05eb84c3f8b11902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 25/44] fix: rounding errors in the internal scaling gave
 evaluation points outside the bounds

---
 dfols/solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 0949920..d997bf1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1024,11 +1024,14 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds and exit_info is None:
         shift = xl.copy()
         scale = xu - xl
+        while np.any(shift + scale > xu):  # rounding errors must not map the unit box to outside the bounds
+            scale = np.where(shift + scale > xu, np.nextafter(scale, 0.0), scale)
         scaling_changes = (shift, scale)
 
     x0 = apply_scaling(x0, scaling_changes)
-    xl = apply_scaling(xl, scaling_changes)
-    xu = apply_scaling(xu, scaling_changes)
+    if scaling_changes is not None:
+        xl = np.zeros((n,))
+        xu = np.ones((n,))
 
     # Input & parameter checks
     if exit_info is None and h is not None:
-- 
2.43.0


From ea5683119c6d259b56869c8d6abcfb3100983092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 26/44] fix: scaling_within_bounds with infinite bounds
 produced NaN points

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index d997bf1..76e7bf5 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -966,7 +966,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xl = bounds[0].astype(float) if bounds[0] is not None else None
         xu = bounds[1].astype(float) if bounds[1] is not None else None
 
-    if (xl is None or xu is None) and scaling_within_bounds:
+    if (xl is None or xu is None or not (np.all(np.isfinite(xl)) and np.all(np.isfinite(xu)))) and scaling_within_bounds:
         scaling_within_bounds = False
         warnings.warn("Ignoring scaling_within_bounds=True for unconstrained problem/1-sided bounds", RuntimeWarning)
 
-- 
2.43.0


From 16b1ad2fe54c6fc3e081215cb2471f72976e9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 27/44] fix: coincident interpolation points raised ValueError
 instead of a linear algebra exit

---
 dfols/controller.py | 4 ++--
 dfols/model.py      | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 1d7b4be..e427495 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -584,7 +584,7 @@ class Controller(object):
             else:
                 # Solve problem: bounds are sl <= xnew <= su, and ||xnew-xopt|| <= adelt
                 xnew = trsbox_geometry(self.model.xopt(), c, g, np.minimum(self.model.sl, 0.0), np.maximum(self.model.su, 0.0), adelt)
-        except LA.LinAlgError:
+        except (LA.LinAlgError, ValueError):
             exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix encountered in geometry step")
             return exit_info  # didn't fix geometry - return & quit
 
@@ -685,7 +685,7 @@ class Controller(object):
 
         try:
             cs, gs = self.model.lagrange_gradient(k=None)  # find all Lagrange polynomials for k in range(self.model.npt())
-        except LA.LinAlgError:
+        except (LA.LinAlgError, ValueError):
             exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when choosing point to replace")
             return knew, exit_info
 
diff --git a/dfols/model.py b/dfols/model.py
index 3c04d77..960cf65 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -352,7 +352,10 @@ class Model(object):
     def interpolate_mini_models_svd(self, verbose=False, make_full_rank=False, min_sing_val=1e-6, sing_val_frac=1.0, max_jac_cond=1e8,
                                     get_chg_J=False, throw_error_on_nans=False):
         W, left_scaling, right_scaling = self.interpolation_matrix()
-        self.factorise_geom_system()
+        try:
+            self.factorise_geom_system()
+        except (LA.LinAlgError, ValueError):
+            return False, None, None, None, None  # flag error (e.g. all points coincide)
         ls_interp_cond_num = np.linalg.cond(W) if verbose else 0.0  # scipy.linalg does not have condition number!
 
         # If not make_full_rank, Q is size (npt+n-1, npt+n), R is size (npt+n-1, n)
-- 
2.43.0


From eab3aec1f53cc0e35fda87aa918de8ba0dafbbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 28/44] fix: growing with npt > n+1 divided by zero once the
 directions spanned the whole space

---
 dfols/controller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index e427495..725853b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -438,10 +438,14 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
+        orig_dirns = dirns.copy()
         for k in range(Q.shape[1]):
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
+        for j in range(dirns.shape[0]):
+            if LA.norm(dirns[j, :]) <= 1e-8 * LA.norm(orig_dirns[j, :]):
+                dirns[j, :] = orig_dirns[j, :]  # already spanning the whole space (npt > n+1), nothing orthogonal left
 
         # Evaluate the points
         for j in range(num_steps):
@@ -484,9 +488,12 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
+        orig_dirn = dirn.copy()
         for k in range(Q.shape[1]):
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
+        if LA.norm(dirn) <= 1e-8 * LA.norm(orig_dirn):
+            dirn = orig_dirn  # already spanning the whole space (npt > n+1), nothing orthogonal left
 
         return dirn * (step_length / LA.norm(dirn))
 
-- 
2.43.0


From c964c864d67e80b60fe24b6f9ce222cec0f03def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 29/44] fix: ZeroDivisionError when all interpolation points
 coincide

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 960cf65..4b47c1c 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -305,6 +305,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:
+                approx_delta = 1.0  # all points coincide, system will be found to be singular when solving
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From f53a3fe3a9610658b0f2cd8506919c3184edd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 30/44] fix: regularised subproblem with bounds was solved over
 a box in the wrong coordinates

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 725853b..595ada3 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -518,7 +518,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -565,7 +565,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 58bc5f38b7aecc931bc079fb94ecc92c6a943dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 31/44] fix: trust-region radius became zero, negative or
 infinite when the criticality measure was not positive

---
 dfols/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 76e7bf5..079456b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -350,6 +350,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
                 # but we need to set a value for tau nonetheless
                 tau = 1.0
+            if not tau > 0.0:
+                tau = 1.0  # criticality measure is zero (up to rounding), or not a number
         
         if do_logging:
             module_logger.debug("Trust region step is d = " + str(d))
@@ -650,9 +652,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From 35c9d91b0d3a42c0a16abc469c9985387a41de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:18 +0000
Subject: [PATCH 32/44] fix: swapping two interpolation points left their
 sample counts behind

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 4b47c1c..e274739 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -209,6 +209,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From 545278bd8391b6144c7011122a8388fccec1eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:15 +0000
Subject: [PATCH 33/44] fix: regulariser was evaluated outside the bounds
 instead of at the stored/evaluated point

---
 dfols/controller.py |  3 ++-
 dfols/model.py      | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 595ada3..09d3138 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -766,7 +766,8 @@ class Controller(object):
         pred_reduction = - model_value(gopt, H, d)
         if self.h is not None:
             # QUESTION: x+d here correct? rvec_list takes mean value
-            obj += self.h(remove_scaling(x+d, self.scaling_changes), *self.argsh) 
+            # (x+d may be outside the constraints, so use the point where the objective was evaluated)
+            obj += self.h(remove_scaling(self.model.as_absolute_coordinates(x + d - self.model.xbase), self.scaling_changes), *self.argsh)
             # since m(0) = h(x)
             pred_reduction = self.h(remove_scaling(x, self.scaling_changes), *self.argsh) - model_value(gopt, H, d, x, self.h, self.argsh, self.scaling_changes)
         actual_reduction = self.model.objopt() - obj
diff --git a/dfols/model.py b/dfols/model.py
index e274739..b621af7 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -196,7 +196,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -226,7 +226,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         if not np.all(np.isnan(self.objval[:self.npt()])):
@@ -237,14 +237,14 @@ class Model(object):
     def add_new_point(self, x, rvec, eval_num):
         self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
+        self.num_pts += 1  # make sure npt is updated
+        self.npt_so_far += 1
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.xpt(self.npt() - 1, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-        self.num_pts += 1  # make sure npt is updated
-        self.npt_so_far += 1
 
         if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
-- 
2.43.0


From 7b55a2fa64b83804fab4ce231c1b813a705e1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:18 +0000
Subject: [PATCH 34/44] fix: random orthogonal directions at active bounds were
 up to twice the requested length

---
 dfols/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..cb98663 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -150,7 +150,7 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
             if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
+                results[idx, n+ninactive+i] = 0.5 * sign * delta  # step 2 already has the step of length delta
             else:
                 results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
                 # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
-- 
2.43.0


From 937f7ff54b3a9612594f5e5d06ee09ed59a964d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 35/44] fix: projected gradient solver returned NaN for a zero
 Hessian

---
 dfols/trust_region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 000aeb2..2431de0 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -184,6 +184,8 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
 
     # Initial guess of L is norm(Hessian)
     L = np.linalg.norm(H, 2)
+    if L == 0.0:  # linear model, any step of length >= 2*delta along -g will do (or stay at d=0 if also g=0)
+        L = np.linalg.norm(g) / (2.0 * delta) if np.any(g != 0.0) else 1.0
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From 197a5d97a6462258359a3a98e86ad9363ebbbb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 36/44] fix: overflow in the model gradient or Hessian escaped
 as LinAlgError, ValueError or AssertionError

---
 dfols/controller.py | 7 ++++++-
 dfols/solver.py     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 09d3138..6f067ba 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -534,7 +534,7 @@ class Controller(object):
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2) if np.all(np.isfinite(H)) else 1,1))
 
         if self.h is None:
             if self.model.projections:
@@ -547,6 +547,11 @@ class Controller(object):
                     crvmin = -1
                 else:
                     d, gnew, crvmin = ctrsbox_pgd(self.model.xopt(abs_coordinates=True), gopt, H, self.model.projections, self.delta, d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
+            elif not np.all(np.isfinite(gopt)) or not np.all(np.isfinite(H)):
+                module_logger.debug("nan/inf values in gopt and/or H, skipping trsbox")
+                d = np.zeros(gopt.shape)
+                gnew = gopt.copy()
+                crvmin = -1
             else:
                 d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index 079456b..74a6961 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -367,7 +367,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), np.linalg.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From 7dcc3f6d2bf244d09b1c82f93386c43d47541c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 37/44] fix: results did not survive a JSON round trip
 (infinite values, NaN objective, row numbers and saved iterates of the
 diagnostic table)

---
 dfols/solver.py | 21 ++++++++++++++++-----
 dfols/util.py   |  2 ++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 74a6961..38cfa30 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -109,7 +109,7 @@ class OptimResults(object):
     
     def to_dict(self, replace_nan=True):
         # Convert to a serializable dict object suitable for saving in a json file
-        # If replace_nan=True, convert all NaN entries to None
+        # If replace_nan=True, convert all NaN entries to None (and infinite entries to strings, since these are not allowed in JSON)
         soln_dict = {}
         soln_dict['x'] = self.x.tolist() if self.x is not None else None
         soln_dict['resid'] = self.resid.tolist() if self.resid is not None else None
@@ -120,7 +120,11 @@ class OptimResults(object):
         soln_dict['nruns'] = int(self.nruns)
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
-        soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        soln_dict['diagnostic_info'] = None
+        if self.diagnostic_info is not None:
+            # Entries of the xk and rk columns (if saved) are NumPy arrays
+            soln_dict['diagnostic_info'] = {col: {idx: v.tolist() if isinstance(v, np.ndarray) else v for idx, v in entries.items()}
+                                            for col, entries in self.diagnostic_info.to_dict().items()}
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -132,10 +136,10 @@ class OptimResults(object):
     def from_dict(soln_dict):
         # Take a dict object containing OptimResults information, and return the relevant OptimResults object
         # Input soln_dict should come from soln.to_dict()
-        # Note: np.array(mylist, dtype=float) automatically converts None to NaN
+        # Note: np.array(mylist, dtype=float) automatically converts None to NaN and 'Infinity'/'-Infinity' to +/-inf
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = float(soln_dict['obj']) if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -148,7 +152,14 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df.index = pd.RangeIndex(len(df))  # JSON turns the row numbers into strings
+            for col in (df.columns if len(df) > 0 else []):
+                if col in ("xk", "rk"):
+                    df[col] = pd.Series([np.array(v, dtype=float) for v in df[col]], index=df.index, dtype=object)
+                elif col != "iter_type" and not pd.api.types.is_numeric_dtype(df[col]):
+                    df[col] = df[col].astype(float)  # has None or infinite values
+            soln.diagnostic_info = df
         return soln
 
 
diff --git a/dfols/util.py b/dfols/util.py
index cb98663..5f0fd13 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -279,5 +279,7 @@ def replace_nan_with_none(d):
         return [replace_nan_with_none(i) for i in d]
     elif isinstance(d, float) and math.isnan(d):
         return None
+    elif isinstance(d, float) and math.isinf(d):
+        return 'Infinity' if d > 0 else '-Infinity'  # JSON has no infinite numbers
     else:
         return d
\ No newline at end of file
-- 
2.43.0


From d45dfed727332787a1cb92c39e9bdfbf0935b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 38/44] fix: best point could be overwritten by a geometry step
 when its stored step was outside the bounds

---
 dfols/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index b621af7..0c0bfaa 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -181,7 +181,7 @@ class Model(object):
         sq_distances = np.zeros((self.npt(),))
         xopt = self.xopt()
         for k in range(self.npt()):
-            sq_distances[k] = sumsq(self.points[k, :] - xopt)
+            sq_distances[k] = sumsq(self.xpt(k) - xopt)  # points[k,:] may be outside the bounds
         return sq_distances
 
     def change_point(self, k, x, rvec, eval_num, allow_kopt_update=True):
-- 
2.43.0


From b66a412c27fb3073ef1d8b17b71a36b12b1361ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 39/44] fix: worse point was accepted as very successful when
 the predicted reduction was minus zero

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 6f067ba..3c6b207 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -784,7 +784,7 @@ class Controller(object):
                 exit_info = ExitInformation(EXIT_TR_INCREASE_WARNING, "Either multiple constraints are active or trust region step gave model increase")
             else:
                 exit_info = ExitInformation(EXIT_TR_INCREASE_ERROR, "Trust region step gave model increase")
-        ratio = actual_reduction / pred_reduction
+        ratio = actual_reduction / abs(pred_reduction)  # -0.0 would give the wrong sign
         return ratio, exit_info
 
     def terminate_from_slow_iterations(self, current_iter, params):
-- 
2.43.0


From 54c5a5c993138c898a4a4b9dc097e3952294520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 40/44] fix: point replaced with a zero Lagrange polynomial
 value made the interpolation system singular

---
 dfols/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 3c6b207..479d00d 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -713,6 +713,8 @@ class Controller(object):
 
             distsq = sumsq(self.model.xpt(k) - self.model.xopt())
             temp = max(1.0, (distsq / delsq) ** 2)
+            if abs(den) < 1e-12:
+                temp = 1.0  # replacing this point gives a singular system, no matter how far away it is
             if scaden is None or temp * abs(den) > scaden:
                 scaden = temp * abs(den)
                 knew = k
-- 
2.43.0


From 04274d1c32ff93af08ef3ebae88f20290ee6dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 41/44] fix: a Jacobian of zeros was returned when quitting
 before the first model was built

---
 dfols/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 38cfa30..e7db642 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -959,6 +959,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Quit & return the important information
     x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()
+    if jac_eval_nums is None:  # quit before any model was built, so have no Jacobian
+        jacmin = None
     if do_logging:
         module_logger.debug("At return from DFO-LS, number of function evals = %i" % nf)
         module_logger.debug("Smallest objective value = %.15g at x = " % obj + str(x))
-- 
2.43.0


From d748033c1a6731109a336175817a07c6b54787b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 42/44] fix: constant term of the residual models did not match
 the Jacobian after full-rank completion

---
 dfols/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 0c0bfaa..0a795c3 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -391,7 +391,6 @@ class Model(object):
             return False, None, None, None, None
         J_old = self.model_jac.copy()
         self.model_jac = dg[1:,:].T
-        self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # shift base to xbase
         self.model_jac_eval_nums = self.eval_num.copy()
         if verbose or get_chg_J:
             norm_J_error = np.linalg.norm(self.model_jac - J_old, ord='fro')**2
@@ -409,6 +408,8 @@ class Model(object):
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
 
+        self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # shift base to xbase (final Jacobian, so data at xopt are reproduced)
+
         interp_error = 0.0
         if verbose:
             for k in range(self.npt()):
-- 
2.43.0


From 7329af0b12406b54a62d0061d6f5f04d4a0dcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 43/44] fix: growing step was NaN when a bound is within
 rounding of the current point

---
 dfols/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dfols/util.py b/dfols/util.py
index 5f0fd13..9a82bc7 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -118,8 +118,9 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
     else:
         results = np.zeros((n, max(n, num_pts)))  # save space for results
     # Find the active set
-    idx_l = (lower == 0)
-    idx_u = (upper == 0)
+    tiny = 1e-15 * np.minimum(delta, upper - lower)
+    idx_l = (lower >= -tiny)  # includes bounds so close that steps towards them vanish
+    idx_u = (upper <= tiny)
     active = np.logical_or(idx_l, idx_u)
     inactive = np.logical_not(active)
     nactive = np.sum(active)
@@ -186,8 +187,9 @@ def random_directions_within_bounds(num_pts, delta, lower, upper):
     assert num_pts > 0, "num_pts must be strictly positive"
     results = np.zeros((n, num_pts))  # save space for results
     # Find the active set
-    idx_l = (lower == 0)
-    idx_u = (upper == 0)
+    tiny = 1e-15 * np.minimum(delta, upper - lower)
+    idx_l = (lower >= -tiny)  # includes bounds so close that steps towards them vanish
+    idx_u = (upper <= tiny)
     active = np.logical_or(idx_l, idx_u)
     # inactive = np.logical_not(active)
     nactive = np.sum(active)
-- 
2.43.0


From ea5b2c578ae4b32a7fe7221b452f92aa2239d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 44/44] fix: regularised subproblem mixed scaled and unscaled
 coordinates with scaling_within_bounds

---
 dfols/trust_region.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 2431de0..d75764c 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -100,18 +100,22 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     t = 1
     k_H = np.linalg.norm(H, 2)
     crvmin = -1.0
+    # If x is internally scaled, then h(shift + scale*x) has Lipschitz constant (max scale)*L_h with respect to x
+    scale = 1.0 if scaling_changes is None else scaling_changes[1]
+    max_scale = np.max(scale)
+    L_h = max_scale * L_h
     
     # Number of iterations & smoothing parameter, from Theorem 10.57 in 
     #   [A. Beck. First-order methods in optimization, SIAM, 2017]
     # We do not use the values of k and mu given in the theorem statement, but rather the intermediate
     # results on p313 (K1 for number of iterations, and the immediate next line for mu)
-    # Note: in the book's notation, Gamma=delta^2, alpha=1, beta=L_h^2/2, Lf=k_H [alpha and beta from Thm 10.51]
+    # Note: in the book's notation, Gamma=delta^2, alpha=max_scale^2, beta=L_h^2/(2*max_scale^2), Lf=k_H [alpha and beta from Thm 10.51]
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
     except (ValueError, OverflowError, ZeroDivisionError):
         MAX_LOOP_ITERS = max_iters
-    u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
+    u =  2 * delta * max_scale**2 / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
 
     def gradient_Fu(xopt, g, H, u, prox_uh, d):
@@ -119,10 +123,11 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     # where Fu(d) := g(d) + h_u(d) and h_u(d) is a 1/u-smooth approximation of h.
     # We assume that h is globally Lipschitz continous with constant L_h,
     # then we can let h_u(d) be the Moreau Envelope M_h_u(d) of h.
-        return g + H @ d + (xopt + d - prox_uh(remove_scaling(xopt + d, scaling_changes), u, *argsprox)) / u
+        x = remove_scaling(xopt + d, scaling_changes)
+        return g + H @ d + scale * (x - prox_uh(x, u, *argsprox)) / u
 
     # Lipschitz constant of gradient_Fu
-    l = k_H + 1 / u 
+    l = k_H + max_scale**2 / u
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0

