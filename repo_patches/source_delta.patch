From 36b22b50c294225746e9d962a54804cc58856718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 01/28] fix: ParameterTransformer equality ignored the
 whitening scale (compared self.scale with itself)

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index 5b4e428..e8f1d22 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -404,7 +404,7 @@ class ParameterTransformer:
 
     def __eq__(self, other):
         return (
-            np.all(self.scale == self.scale)
+            np.all(self.scale == other.scale)
             and np.all(self.R_mat == other.R_mat)
             and np.all(self.lb_orig == other.lb_orig)
             and np.all(self.ub_orig == other.ub_orig)
-- 
2.43.0


From 5d886b3fd025dddb1844a59ed51d5033c88106d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 02/28] fix: re-evaluating a logged point added the
 log-Jacobian to the stored raw value

f_val was a view of y_orig, so 'f_val +=' changed the log in place.
---
 pyvbmc/function_logger/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 29cda8b..502021d 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -385,7 +385,7 @@ class FunctionLogger:
                     N + 1
                 )
 
-            f_val = self.y_orig[idx]
+            f_val = self.y_orig[idx].copy()
             if self.transform_parameters:
                 f_val += self.parameter_transformer.log_abs_det_jacobian(x)
             self.y[idx] = f_val
-- 
2.43.0


From dd47da4d928f6c7cfce7bb3ea245ce7b0feaeca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 03/28] fix: y_max was stale after merging a repeated
 evaluation into its row

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 502021d..6bb84e9 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -393,6 +393,7 @@ class FunctionLogger:
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
             self.n_evals[idx] += 1
+            self.y_max = np.nanmax(self.y[self.X_flag])
             return f_val, idx
         else:
             self.Xn += 1
-- 
2.43.0


From d46384c9ba348aa2807acee041bf9b8dca7ea0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 04/28] fix: FunctionLogger.finalize left n_evals untrimmed

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 6bb84e9..3425138 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -288,6 +288,7 @@ class FunctionLogger:
             self.S = self.S[: self.Xn + 1]
         self.X_flag = self.X_flag[: self.Xn + 1]
         self.fun_eval_time = self.fun_eval_time[: self.Xn + 1]
+        self.n_evals = self.n_evals[: self.Xn + 1]
 
     def _expand_arrays(self, resize_amount: int = None):
         """
-- 
2.43.0


From efa95f4fb5e2a923e125feeab8934171d299dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 05/28] fix: set_parameters(raw_flag=False) checked the wrong
 entries for negative values

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6334d36..c482faf 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -711,7 +711,7 @@ class VariationalPosterior:
                 check_idx -= self.D
             if self.optimize_sigma:
                 check_idx -= self.K
-            if np.any(theta[-check_idx:] < 0.0):
+            if np.any(theta[theta.size + check_idx :] < 0.0):
                 raise ValueError(
                     """sigma, lambda and weights must be positive
                     when raw_flag = False"""
-- 
2.43.0


From 2600d6f90065628be26a346570ff1b1c2236e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 06/28] fix: vp.pdf truncated the transformed points of integer
 inputs

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index c482faf..c5a3528 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -422,7 +422,7 @@ class VariationalPosterior:
             `grad_flag` = ``True`` (gradient computation of the log-pdf in the
             original space is not supported yet).
         """
-        x = x.copy()
+        x = x.astype(float)
         N, D = x.shape
 
         # compute pdf only for points inside bounds in origspace
-- 
2.43.0


From d2e3771ef228c035600d956a44f6c923b22c12f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 07/28] fix: vp.mode failed in one dimension

---
 pyvbmc/variational_posterior/variational_posterior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index c5a3528..a2fd4dd 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -889,9 +889,9 @@ class VariationalPosterior:
             if orig_flag:
                 bounds = np.stack(
                     (
-                        self.parameter_transformer.lb_orig.squeeze()
+                        self.parameter_transformer.lb_orig.ravel()
                         + np.sqrt(np.finfo(float).eps),
-                        self.parameter_transformer.ub_orig.squeeze()
+                        self.parameter_transformer.ub_orig.ravel()
                         - np.sqrt(np.finfo(float).eps),
                     ),
                     axis=1,
@@ -900,7 +900,7 @@ class VariationalPosterior:
                     self.parameter_transformer.ub_orig,
                     np.maximum(x0, self.parameter_transformer.lb_orig),
                 )
-                x0 = x0.squeeze()
+                x0 = x0.ravel()
 
             # fun provides gradient (jac=True) when orig_flag is False:
             res = minimize(
-- 
2.43.0


From d0ffb2b2e4430ff2efa46c980eee0d6714c830c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 08/28] fix: kl_div with samples averaged over all coordinates
 instead of per coordinate

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index a2fd4dd..6241e6f 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1100,7 +1100,7 @@ class VariationalPosterior:
                 if vp2 is not None:
                     q2mu, q2sigma = vp2.moments(N, True, True)
                 else:
-                    q2mu = np.mean(samples)
+                    q2mu = np.mean(samples, axis=0)
                     q2sigma = np.cov(samples.T)
 
             kls = kl_div_mvn(q1mu, q1sigma, q2mu, q2sigma)
-- 
2.43.0


From a8b30a29f71e8a45c61ee7f1e5effcc45e8a016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 09/28] fix: kl_div ignored infinite densities (operator
 precedence)

---
 pyvbmc/variational_posterior/variational_posterior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6241e6f..bf48450 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1110,15 +1110,15 @@ class VariationalPosterior:
             xx1, _ = self.sample(N, True, True)
             q1 = self.pdf(xx1, True)
             q2 = vp2.pdf(xx1, True)
-            q1[q1 == 0 | np.isinf(q1)] = 1.0
-            q2[q2 == 0 | np.isinf(q2)] = minp
+            q1[(q1 == 0) | np.isinf(q1)] = 1.0
+            q2[(q2 == 0) | np.isinf(q2)] = minp
             kl1 = -np.mean(np.log(q2) - np.log(q1))
 
             xx2, _ = vp2.sample(N, True, True)
             q1 = self.pdf(xx2, True)
             q2 = vp2.pdf(xx2, True)
-            q1[q1 == 0 | np.isinf(q1)] = minp
-            q2[q2 == 0 | np.isinf(q2)] = 1.0
+            q1[(q1 == 0) | np.isinf(q1)] = minp
+            q2[(q2 == 0) | np.isinf(q2)] = 1.0
             kl2 = -np.mean(np.log(q1) - np.log(q2))
             kls = np.concatenate((kl1, kl2), axis=None)
 
-- 
2.43.0


From df393e3e5d3f9b31bc0b4f69cd8abfbdcfc0a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 10/28] fix: balanced sampling drew the remainder with biased
 weights

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index bf48450..187a6b9 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -302,7 +302,7 @@ class VariationalPosterior:
                     if N > i.shape[0]:
                         w_extra = self.w * N - repeats
                         repeats_extra = np.ceil(np.sum(w_extra))
-                        w_extra += self.w * (repeats_extra - sum(w_extra))
+                        w_extra += self.w * (repeats_extra - np.sum(w_extra))
                         w_extra /= np.sum(w_extra)
                         i_extra = np.random.choice(
                             range(self.K),
-- 
2.43.0


From 3df7fc80c0d786a117c9ef79c38fd6617941a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 11/28] fix: prior log densities were truncated to integers for
 integer inputs

---
 pyvbmc/priors/smooth_box.py         | 2 +-
 pyvbmc/priors/spline_trapezoidal.py | 2 +-
 pyvbmc/priors/trapezoidal.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index d6d77ae..4293255 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -75,7 +75,7 @@ class SmoothBox(Prior):
             The log-density of the prior at the input point(s), of dimension
             `(n, 1)`.
         """
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full(x.shape, -np.inf)
         log_norm_factor = -np.log(np.sqrt(2 * np.pi) * self.scale) - np.log1p(
             (self.b - self.a) / (np.sqrt(2 * np.pi) * self.scale)
         )
diff --git a/pyvbmc/priors/spline_trapezoidal.py b/pyvbmc/priors/spline_trapezoidal.py
index 6bb644e..6a78a05 100644
--- a/pyvbmc/priors/spline_trapezoidal.py
+++ b/pyvbmc/priors/spline_trapezoidal.py
@@ -94,7 +94,7 @@ class SplineTrapezoidal(Prior):
             `(n, 1)`.
         """
         n, D = x.shape
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full(x.shape, -np.inf)
         # a b c d
         # a u v b
         # norm_factor = u - v + 0.5 * (b - v + u - a)
diff --git a/pyvbmc/priors/trapezoidal.py b/pyvbmc/priors/trapezoidal.py
index 15366e6..530b86c 100644
--- a/pyvbmc/priors/trapezoidal.py
+++ b/pyvbmc/priors/trapezoidal.py
@@ -92,7 +92,7 @@ class Trapezoidal(Prior):
             `(n, 1)`.
         """
         n, D = x.shape
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full(x.shape, -np.inf)
         log_norm_factor = np.log(0.5) + np.log(
             self.b - self.a + self.v - self.u
         )
-- 
2.43.0


From d1767e7b1e6d3d801f7dad9fb8760189c89264ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 12/28] fix: SciPy prior reported the support of the standard
 distribution, ignoring loc and scale

---
 pyvbmc/priors/scipy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/scipy.py b/pyvbmc/priors/scipy.py
index a57a05b..b16478f 100644
--- a/pyvbmc/priors/scipy.py
+++ b/pyvbmc/priors/scipy.py
@@ -51,8 +51,9 @@ class SciPy(Prior):
             self.b = np.full(self.D, np.inf)
         elif isinstance(distribution, rv_continuous_frozen):
             self.D = 1
-            self.a = np.atleast_1d(distribution.a)
-            self.b = np.atleast_1d(distribution.b)
+            a, b = distribution.support()
+            self.a = np.atleast_1d(a)
+            self.b = np.atleast_1d(b)
         else:
             raise TypeError(
                 f'A SciPy prior should be initialized from a "frozen" multivariate normal, multivariate t, or univariate SciPy distribution, but got `distribution` of type {type(distribution)}.'
-- 
2.43.0


From 41ea62d5e6842067ee498dca682a2f7cb72ced90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 13/28] fix: SmoothBox support was truncated to integers for
 integer pivots

---
 pyvbmc/priors/smooth_box.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index 4293255..673015b 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -168,8 +168,8 @@ class SmoothBox(Prior):
             [``lb[i]``, ``ub[i]``] bounds the support of the `i`th marginal.
         """
         return (
-            np.full_like(self.a, -np.inf),
-            np.full_like(self.b, np.inf),
+            np.full(self.a.shape, -np.inf),
+            np.full(self.b.shape, np.inf),
         )
 
     def __str__(self):
-- 
2.43.0


From 945eeefe0dde849cb5375ca02b0c0242baa64811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 14/28] fix: soft-bound loss failed when only the length scales
 are optimised (misspelled attribute)

---
 pyvbmc/vbmc/variational_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 665ae47..d70f69d 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -558,7 +558,7 @@ def _vp_bound_loss(
     theta_ext = []
     if vp.optimize_mu:
         theta_ext.append(mu.ravel())
-    if vp.optimize_sigma or vp.optimize_lambda:
+    if vp.optimize_sigma or vp.optimize_lambd:
         theta_ext.append(ln_scale.ravel(order="F"))
     if vp.optimize_weights:
         theta_ext.append(eta.ravel())
@@ -580,7 +580,7 @@ def _vp_bound_loss(
         else:
             start_idx = 0
 
-        if vp.optimize_sigma or vp.optimize_lambda:
+        if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
                 dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
             )
-- 
2.43.0


From 68f00d4aec1b3c471c2d15439a0e26306e223dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 15/28] fix: gradient of the soft-bound loss mixed up
 components and coordinates (C instead of F order)

---
 pyvbmc/vbmc/variational_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index d70f69d..99f4500 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -582,7 +582,9 @@ def _vp_bound_loss(
 
         if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
-                dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
+                dL[start_idx : start_idx + vp.D * vp.K],
+                (vp.D, vp.K),
+                order="F",
             )
 
             if vp.optimize_sigma:
-- 
2.43.0


From 1c4750a8cfa0b6358bbf9bd8d4da262c4c03023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 16/28] fix: negative ELCBO modified the caller's parameter
 vector in place

---
 pyvbmc/vbmc/variational_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 99f4500..0974350 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1082,7 +1082,7 @@ def _neg_elcbo(
     vp.set_parameters(theta)
 
     if vp.optimize_weights:
-        vp.eta = theta[-K:]
+        vp.eta = theta[-K:].copy()
         vp.eta -= np.amax(vp.eta)
         vp.eta = np.reshape(vp.eta, (1, -1))
         # Doing the above is more numerically robust than
-- 
2.43.0


From 904e2cb99b49702a5004629168f490f854114094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 17/28] fix: determine_best_vp(rank_criterion_flag=True) failed
 on recorded histories (object array used as a mask)

---
 pyvbmc/vbmc/vbmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d8d6118..560cd0a 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2110,7 +2110,10 @@ class VBMC:
                 # Rank penalty to all non-stable iterations
                 rank[:, 3] = max_idx
                 rank[
-                    self.iteration_history.get("stable")[: max_idx + 1], 3
+                    self.iteration_history.get("stable")[: max_idx + 1].astype(
+                        bool
+                    ),
+                    3,
                 ] = 1
 
                 idx_best = np.argmin(np.sum(rank, 1))
-- 
2.43.0


From f41614c3c3ad88fdc103993efddd43fef848e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 18/28] fix: continuing an optimization overwrote the last
 recorded snapshot

---
 pyvbmc/vbmc/vbmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 560cd0a..5ec411d 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -857,8 +857,10 @@ class VBMC:
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
-            self.vp = self.iteration_history["vp"][-1]
-            self.optim_state = self.iteration_history["optim_state"][-1]
+            self.vp = copy.deepcopy(self.iteration_history["vp"][-1])
+            self.optim_state = copy.deepcopy(
+                self.iteration_history["optim_state"][-1]
+            )
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
-- 
2.43.0


From 21debd9578a9c77042df114770bd208efeee4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 19/28] fix: optimize failed with entropy_switch=True
 (entropy_force_switch looked up in the wrong place)

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 5ec411d..4d4a655 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -879,7 +879,7 @@ class VBMC:
             # deterministic.
             if self.optim_state.get("entropy_switch") and (
                 self.function_logger.func_count
-                >= self.optim_state.get("entropy_force_switch")
+                >= self.options.get("entropy_force_switch")
                 * self.optim_state.get("max_fun_evals")
             ):
                 self.optim_state["entropy_switch"] = False
-- 
2.43.0


From 50eb05a3ec1e28cc701feb9f3735f4f773df96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 20/28] fix: initialized options could still be changed through
 del and |=

---
 pyvbmc/vbmc/options.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyvbmc/vbmc/options.py b/pyvbmc/vbmc/options.py
index 822e788..32c1689 100644
--- a/pyvbmc/vbmc/options.py
+++ b/pyvbmc/vbmc/options.py
@@ -200,8 +200,17 @@ class Options(MutableMapping, dict):
         return dict.__len__(self)
 
     def __delitem__(self, key):
+        # Prevent user from removing options after initialization
+        if hasattr(self, "is_initialized") and self.is_initialized:
+            raise AttributeError(
+                "Warning: Cannot remove options after initialization. Please re-initialize with `options = {...}`"
+            )
         return dict.__delitem__(self, key)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def __copy__(self):
         cls = self.__class__
         result = cls.__new__(cls)
-- 
2.43.0


From bf510d4f7f93319be1d9c8085b3fa027348b94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 21/28] fix: set-up overwrote the user's plausible bound array
 when the other one was missing

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4d4a655..75a5031 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -346,6 +346,8 @@ class VBMC:
 
                 idx = plausible_lower_bounds == plausible_upper_bounds
                 if np.any(idx):
+                    plausible_lower_bounds = np.copy(plausible_lower_bounds)
+                    plausible_upper_bounds = np.copy(plausible_upper_bounds)
                     plausible_lower_bounds[idx] = lower_bounds[idx]
                     plausible_upper_bounds[idx] = upper_bounds[idx]
                     self.logger.warning(
-- 
2.43.0


From 4a40e187454138522f3bc1b4fb663657e30adc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 22/28] fix: after optimization the working posterior was the
 recorded snapshot itself

---
 pyvbmc/vbmc/vbmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 75a5031..ff13985 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1496,6 +1496,7 @@ class VBMC:
 
         # Pick "best" variational solution to return
         self.vp, elbo, elbo_sd, idx_best = self.determine_best_vp()
+        self.vp = copy.deepcopy(self.vp)
 
         if self.options.get("do_final_boost"):
             # Last variational optimization with large number of components
-- 
2.43.0


From cf3d876e40da681653a74754f311249e93949bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 23/28] fix: trimming after warm-up could leave fewer than D+1
 training points

---
 pyvbmc/vbmc/vbmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index ff13985..0db98e9 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1716,9 +1716,12 @@ class VBMC:
         y_max = max(self.function_logger.y_orig[: self.function_logger.Xn + 1])
         n_keep_min = self.D + 1
         idx_keep = (y_max - self.function_logger.y_orig) < threshold
+        # Only points that are still in the training set can be kept
+        idx_keep[~self.function_logger.X_flag] = False
         if np.sum(idx_keep) < n_keep_min:
             y_temp = np.copy(self.function_logger.y_orig)
             y_temp[~np.isfinite(y_temp)] = -np.inf
+            y_temp[~self.function_logger.X_flag] = -np.inf
             order = np.argsort(y_temp * -1, axis=0)
             idx_keep[
                 order[: min(n_keep_min, self.function_logger.Xn + 1)]
-- 
2.43.0


From 196d6fc1f2e576a3682a0ca00cf98760e85b9edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 24/28] fix: minimize_adam overwrote the caller's starting
 point

---
 pyvbmc/vbmc/minimize_adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index fbb3beb..c695085 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -78,7 +78,7 @@ def minimize_adam(
     v = 0
     x_tab = np.zeros((n_vars, max_iter))
 
-    x = x0
+    x = np.copy(x0)
     y_tab = np.full((max_iter,), np.nan)
 
     for i in range(0, max_iter):
-- 
2.43.0


From 6b2107b62b267171ed257bbd01762c6f42c5ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 25/28] fix: search cache can be empty and survives an input
 warping

---
 pyvbmc/vbmc/active_sample.py  | 7 +++----
 pyvbmc/whitening/whitening.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1dac2c0..cdf9756 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -714,11 +714,10 @@ def _get_search_points(
             options.get("search_cache_frac") * N_random_points
         )
         if N_search_cache > 0:  # Take points from search cache
-            search_cache = optim_state.get("search_cache")
+            search_cache = np.reshape(optim_state.get("search_cache"), (-1, D))
+            N_search_cache = min(len(search_cache), N_search_cache)
             random_Xs = np.append(
-                random_Xs,
-                search_cache[: min(len(search_cache), N_search_cache)],
-                axis=0,
+                random_Xs, search_cache[:N_search_cache], axis=0
             )
 
         N_heavy = round(
diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2cbcd9e..a598792 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -219,7 +219,7 @@ def warp_input(vp, optim_state, function_logger, options):
     optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
 
     # If search cache is not empty, update it
-    if optim_state.get("search_cache"):
+    if np.size(optim_state.get("search_cache", [])) > 0:
         optim_state["search_cache"] = warpfun(optim_state["search_cache"])
 
     # Update other state fields
-- 
2.43.0


From bc7c0601060f4519bd63f6c3f8c5f10c581f0de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 26/28] fix: variance regularisation of acquisition functions
 was never applied

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 15 ++++++++-------
 pyvbmc/vbmc/vbmc.py                              |  1 +
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b49ad19..b9f210e 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -109,6 +109,14 @@ class AbstractAcqFcn(ABC):
             var_tot,
         )
 
+        # Re-shape to 1-D, if necessary (to avoid errors in cma.fmin)
+        if acq.ndim > 1:
+            if acq.shape[0] != acq.size and acq.shape[1] != acq.size:
+                raise ValueError(
+                    "Acquisition function should return a 1-D result (or a 2-D result which has size 1 along at least one axis)."
+                )
+            acq = acq.reshape(-1)
+
         # Regularization: penalize points where GP uncertainty
         # is below threshold
         if optim_state.get("variance_regularized_acq_fcn"):
@@ -137,13 +145,6 @@ class AbstractAcqFcn(ABC):
         )
         acq[idx_bounds] = np.inf
 
-        # Re-shape to 1-D, if necessary (to avoid errors in cma.fmin)
-        if acq.ndim > 1:
-            if acq.shape[0] != acq.size and acq.shape[1] != acq.size:
-                raise ValueError(
-                    "Acquisition function should return a 1-D result (or a 2-D result which has size 1 along at least one axis)."
-                )
-            acq = acq.reshape(-1)
         return acq
 
     @abstractmethod
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0db98e9..4fa2780 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -720,6 +720,7 @@ class VBMC:
         # By default, apply variance-based regularization
         # to acquisition functions
         optim_state["variance_regularized_acqfcn"] = True
+        optim_state["variance_regularized_acq_fcn"] = True
 
         # Setup search cache
         optim_state["search_cache"] = []
-- 
2.43.0


From 41347d1b302f3ba5839a59e843d3b21f29cf5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 27/28] fix: unscent_warp failed for one point with several
 rows of scales

---
 pyvbmc/whitening/whitening.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index a598792..4244551 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -71,8 +71,9 @@ def unscent_warp(fun, x, sigma):
 
     # Estimate the mean and standard deviation of the warped points
     # by the mean and std of these sigma-points
-    x_warped_mean = np.mean(x_warped, axis=0).reshape(x_shape_orig)
-    x_warped_sigma = np.std(x_warped, axis=0, ddof=1).reshape(x_shape_orig)
+    out_shape = x_shape_orig if N == N1 else (N, D)
+    x_warped_mean = np.mean(x_warped, axis=0).reshape(out_shape)
+    x_warped_sigma = np.std(x_warped, axis=0, ddof=1).reshape(out_shape)
 
     return x_warped_mean, x_warped_sigma, x_warped
 
-- 
2.43.0


From b84a307a288d7bf5204b0ecaef9f33e5055a8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 28/28] fix: integer variables failed in active sampling

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b9f210e..0c3e062 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -185,10 +185,13 @@ class AbstractAcqFcn(ABC):
         """
 
         if np.any(integer_vars):
+            X_shape = X.shape
+            X = np.array(X, ndmin=2)
             X_temp = parameter_transformer.inverse(X)
             X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
             X_temp = parameter_transformer(X_temp)
             X[:, integer_vars] = X_temp[:, integer_vars]
+            X = X.reshape(X_shape)
 
         return X
 
-- 
2.43.0

