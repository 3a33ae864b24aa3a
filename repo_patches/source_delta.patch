From 217652c271c0818079a2f13056cae9158c449de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:19 +0000
Subject: [PATCH 01/47] fix: do not read the density back from shared
 distribution state

vonmises_flattopped and inverse_batschelet stored 1/(2*pi) on the shared
object and read it back; a concurrent pdf call with other parameters could
replace the value in between.
---
 pycircstat2/distributions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 636a90c..867dd70 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3962,8 +3962,9 @@ class vonmises_flattopped_gen(CircularContinuous):
             return np.full_like(x_arr, np.nan, dtype=float)
 
         if kappa_val <= _VMFT_KAPPA_TOL:
-            self._c = 1.0 / (2.0 * np.pi)
-            return np.full_like(x_arr, self._c, dtype=float)
+            uniform_density = 1.0 / (2.0 * np.pi)
+            self._c = uniform_density
+            return np.full_like(x_arr, uniform_density, dtype=float)
 
         table = self._get_vmft_table(kappa_val, nu_val)
         phi = ((x_arr - mu_val + np.pi) % (2.0 * np.pi)) - np.pi
@@ -6565,8 +6566,9 @@ class inverse_batschelet_gen(CircularContinuous):
             return float(result[0]) if scalar_input else result
 
         if kappa_val <= _INVBAT_KAPPA_TOL:
-            self._c = 1.0 / (2.0 * np.pi)
-            result = np.full_like(x_arr, self._c, dtype=float)
+            uniform_density = 1.0 / (2.0 * np.pi)
+            self._c = uniform_density
+            result = np.full_like(x_arr, uniform_density, dtype=float)
             return float(result[0]) if scalar_input else result
 
         normalizer = self._get_cached_normalizer(
-- 
2.43.0


From 34d0dabb60695c656b844462aa26825e4d4d5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:29 +0000
Subject: [PATCH 02/47] fix: evaluate cdf, sf and their logs on arrays and
 one-sided inputs

cartwright, wrapnorm and wrapcauchy rejected the parameters SciPy broadcasts
to the shape of x, so cdf/sf/logcdf/logsf raised ValueError for any array;
wrapcauchy, wrapstable and katojones also failed on the empty arrays SciPy's
logcdf/logsf pass for the side that is not needed.
---
 pycircstat2/distributions.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 867dd70..41bf912 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1850,7 +1850,8 @@ class cartwright_gen(CircularContinuous):
 
         mu_arr = np.asarray(mu, dtype=float)
         zeta_arr = np.asarray(zeta, dtype=float)
-        if mu_arr.size != 1 or zeta_arr.size != 1:
+        # SciPy broadcasts scalar parameters to the shape of `x`.
+        if np.any(mu_arr != mu_arr.flat[0]) or np.any(zeta_arr != zeta_arr.flat[0]):
             raise ValueError("cartwright parameters must be scalar-valued.")
 
         mu_val = float(mu_arr.reshape(-1)[0])
@@ -2384,7 +2385,8 @@ class wrapnorm_gen(CircularContinuous):
 
         mu_arr = np.asarray(mu, dtype=float)
         rho_arr = np.asarray(rho, dtype=float)
-        if mu_arr.size != 1 or rho_arr.size != 1:
+        # SciPy broadcasts scalar parameters to the shape of `x`.
+        if np.any(mu_arr != mu_arr.flat[0]) or np.any(rho_arr != rho_arr.flat[0]):
             raise ValueError("wrapnorm parameters must be scalar-valued.")
 
         mu_val = float(mu_arr.reshape(-1)[0])
@@ -2912,19 +2914,20 @@ class wrapcauchy_gen(CircularContinuous):
         arr = np.asarray(wrapped, dtype=float)
         flat = arr.reshape(-1)
 
+        if flat.size == 0:
+            return arr.astype(float)
+
         mu_arr = np.asarray(mu, dtype=float)
-        if mu_arr.size != 1:
+        # SciPy broadcasts scalar parameters to the shape of `x`.
+        if np.any(mu_arr != mu_arr.flat[0]):
             raise ValueError("wrapcauchy parameters must be scalar-valued.")
         mu_val = float(mu_arr.reshape(-1)[0])
         rho_arr = np.asarray(rho, dtype=float)
-        if rho_arr.size != 1:
+        if np.any(rho_arr != rho_arr.flat[0]):
             raise ValueError("wrapcauchy parameters must be scalar-valued.")
         rho_val = float(rho_arr.reshape(-1)[0])
         rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
 
-        if flat.size == 0:
-            return arr.astype(float)
-
         two_pi = 2.0 * np.pi
         A = (1.0 + rho_val) / (1.0 - rho_val)
 
@@ -7604,6 +7607,8 @@ class wrapstable_gen(CircularContinuous):
     def _cdf(self, x, delta, alpha, beta, gamma):
         x_arr = np.asarray(x, dtype=float)
         scalar_input = x_arr.ndim == 0
+        if x_arr.size == 0:
+            return x_arr.astype(float)
         theta = np.atleast_1d(x_arr)
 
         rho_vals, mu_vals, p = self._get_series_terms(delta, alpha, beta, gamma)
@@ -8209,6 +8214,9 @@ class katojones_gen(CircularContinuous):
         scalar_input = x_arr.ndim == 0
         flat = x_arr.reshape(-1)
 
+        if flat.size == 0:
+            return x_arr.astype(float)
+
         mu_val = float(np.mod(self._scalar_param(mu), 2.0 * np.pi))
         gamma_val = float(np.clip(self._scalar_param(gamma), 0.0, 1.0 - 1e-12))
         rho_val = float(np.clip(self._scalar_param(rho), 0.0, 1.0 - 1e-12))
-- 
2.43.0


From 1e45a6f98e09323f833b6a746b3ad5f9769c81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:57 +0000
Subject: [PATCH 03/47] fix: draw wrapstable samples from the distribution's
 own law when beta != 0

For alpha != 1 the Chambers-Mallows-Stuck variate was shifted back from
delta_s1 to delta, so skewed samples were displaced from the density and cdf,
whose trigonometric moments use the location delta_s1 = delta - gamma*beta*tan(pi*alpha/2).
---
 pycircstat2/distributions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 41bf912..2d5878b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8070,17 +8070,14 @@ def _wrapstable_sample_linear(alpha, beta, gamma, delta, *, size, rng):
         delta_s1 = delta - gamma * beta * tan_term
         part1 = np.sin(alpha * (V + theta0)) / (np.cos(V) ** (1.0 / alpha))
         part2 = (np.cos(V - alpha * (V + theta0)) / W) ** ((1.0 - alpha) / alpha)
-        x_s1 = gamma * factor * part1 * part2 + delta_s1
-        x = x_s1 + (delta - delta_s1)
+        x = gamma * factor * part1 * part2 + delta_s1
     else:
         factor = 2.0 / np.pi
-        delta_s1 = delta - factor * beta * gamma * np.log(gamma)
         term = (
             (0.5 * np.pi + beta * V) * np.tan(V)
             - beta * np.log((0.5 * np.pi * W * np.cos(V)) / (0.5 * np.pi + beta * V))
         )
-        x_s1 = gamma * factor * term + delta_s1
-        x = x_s1 + (delta - delta_s1)
+        x = gamma * factor * term + delta
 
     return x
 
-- 
2.43.0


From 137f1f1d529fe2c8ca0acba7c72b9ed12360d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:08 +0000
Subject: [PATCH 04/47] fix: use the sign of the stable law's log term at alpha
 = 1 in wrapstable

The phase of the trigonometric moments at alpha = 1 is
delta*p - (2/pi)*beta*gamma*p*log(gamma*p), the limit of the alpha != 1
expression and the law the sampler draws from; pdf, cdf and the moment start
used the opposite sign.
---
 pycircstat2/distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2d5878b..2fbeccf 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7494,7 +7494,7 @@ class wrapstable_gen(CircularContinuous):
     \mu_p =
     \begin{cases}
         \delta p + \beta \tan\left(\tfrac{\pi\alpha}{2}\right)\bigl((\gamma p)^\alpha - \gamma p\bigr), & \alpha \ne 1, \\[6pt]
-        \delta p + \tfrac{2}{\pi}\beta\gamma p \log(\gamma p), & \alpha = 1.
+        \delta p - \tfrac{2}{\pi}\beta\gamma p \log(\gamma p), & \alpha = 1.
     \end{cases}
     $$
 
@@ -7830,8 +7830,8 @@ class wrapstable_gen(CircularContinuous):
         phi2 = phi2_raw + 2.0 * np.pi * round((2.0 * phi1 - phi2_raw) / (2.0 * np.pi))
 
         if abs(alpha_mom - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            B1 = (2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
-            B2 = (2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
+            B1 = -(2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
+            B2 = -(2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
             denom = B2 - 2.0 * B1
             if abs(denom) < 1e-8:
                 beta_mom = 0.0
@@ -8024,7 +8024,7 @@ class wrapstable_gen(CircularContinuous):
         rho_vals = np.exp(-((gamma * p) ** alpha))
 
         if abs(alpha - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            mu_vals = delta * p + (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
+            mu_vals = delta * p - (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
         else:
             mu_vals = delta * p + beta * np.tan(0.5 * np.pi * alpha) * (
                 (gamma * p) ** alpha - gamma * p
-- 
2.43.0


From 2d3627f3912ad02548b282d81bea80cbae8268b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:58 +0000
Subject: [PATCH 05/47] fix: keep the first harmonic of katojones when rho = 0

The density at rho = 0 is a cardioid, but the series behind cdf, ppf and rvs
was emptied, making them uniform.
---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2fbeccf..66bf7bb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8667,7 +8667,7 @@ class katojones_gen(CircularContinuous):
         return cache[key]
 
     def _compute_series_terms(self, mu, gamma, rho, lam):
-        if gamma <= _KJ_GAMMA_TOL or rho <= _KJ_GAMMA_TOL:
+        if gamma <= _KJ_GAMMA_TOL:
             return {
                 "coeffs": np.empty(0, dtype=float),
                 "phases": np.empty(0, dtype=float),
-- 
2.43.0


From 2d7a35de02ad62c6da21cc48cd38a017f9512ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:18 +0000
Subject: [PATCH 06/47] fix: keep the vonmises_flattopped rejection envelope
 from getting narrower than the target

The envelope concentration kappa*(1+nu)**2 matches the curvature at the mode,
but for nu > 0 the tails follow kappa, so the acceptance rate fell
exponentially (below 1e-11 at kappa=20, nu=0.3) and rvs did not return.
---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 66bf7bb..2ee651f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4563,7 +4563,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             return params
 
         table = self._get_vmft_table(kappa, nu)
-        kappa_env = float(np.clip(kappa * (1.0 + nu) ** 2, _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER))
+        kappa_env = float(np.clip(kappa * min(1.0, (1.0 + nu) ** 2), _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER))
 
         log_env_norm = (
             np.log(2.0 * np.pi)
-- 
2.43.0


From ab1e7e6651142f1de3568a10f07febbf4412c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:53 +0000
Subject: [PATCH 07/47] fix: do not consume the caller's kwargs_mean_ci

Circular popped "method" out of the dictionary it was given, so a second
object built with the same options silently used another interval method.
---
 pycircstat2/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d06c9e3..1a165d3 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -182,7 +182,11 @@ class Circular:
             },
             **kwargs.pop("kwargs_median", {}),
         }
-        self.kwargs_mean_ci = kwargs_mean_ci = kwargs.pop("kwargs_mean_ci", None)
+        kwargs_mean_ci = kwargs.pop("kwargs_mean_ci", None)
+        if kwargs_mean_ci is not None:
+            # copy, so that the caller's options are not consumed below
+            kwargs_mean_ci = dict(kwargs_mean_ci)
+        self.kwargs_mean_ci = kwargs_mean_ci
 
         # data
         self.data = data = np.array(data) if isinstance(data, list) else data
-- 
2.43.0


From 5dc8b3dd43df75273ca2827d8dbf38dec12852fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 08/47] fix: take the matrix square root in the bootstrap mean
 interval as Fisher (8.27) defines it

The +1 had slipped into the denominator, so v0 and wB were not the square root
and inverse square root of the covariance, and the interval depended on the
orientation of the data.
---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ff1ae71..ceaa7ce 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1134,7 +1134,7 @@ def _circ_mean_ci_bootstrap(
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq (8.27)
 
     denom = np.sqrt(1 + beta_param**2)
@@ -1183,7 +1183,7 @@ def _circ_mean_resample(alpha, z0, v0):
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq(8.27)
 
     denom = np.sqrt(1 + beta_param**2)
-- 
2.43.0


From a56327cabe024f24e89538c3ef4326d89b281d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:15 +0000
Subject: [PATCH 09/47] fix: honour w in the bootstrap interval for the mean

circ_mean_ci(method='bootstrap') ignored the frequencies, so grouped data were
resampled as if every bin held one observation; Circular could not be built
from significant grouped data with 8 <= n < 25.
---
 pycircstat2/descriptive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ceaa7ce..9aceb1d 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -920,6 +920,11 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
+        if w is not None:
+            counts = np.asarray(w)
+            if np.any(counts < 0) or np.any(counts != np.floor(counts)):
+                raise ValueError("Bootstrap CI requires `w` to be non-negative integer frequencies.")
+            alpha = np.repeat(alpha, counts.astype(int))
         (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
-- 
2.43.0


From f346b0b4ef479b60983c966fc29f88e6a292a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:15 +0000
Subject: [PATCH 10/47] fix: let Circular and Axial keep their own copy of the
 data and frequencies

The objects stored the caller's arrays, so changing those later changed the
stored data and frequencies under statistics already computed from them.
---
 pycircstat2/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 1a165d3..a3b6ed3 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -189,7 +189,7 @@ class Circular:
         self.kwargs_mean_ci = kwargs_mean_ci
 
         # data
-        self.data = data = np.array(data) if isinstance(data, list) else data
+        self.data = data = np.array(data) if isinstance(data, (list, np.ndarray)) else data
         self.alpha = alpha = np.array(data2rad(data, full_cycle)) if rotate is None else rotate_data(np.array(data2rad(data, full_cycle)), rotate, unit="radian")
 
         # data preprocessing
@@ -203,7 +203,7 @@ class Circular:
                 assert len(w) == len(
                     np.arange(0, 2 * np.pi, 2 * np.pi / len(w))
                 ), "Grouped data should included empty bins."
-                self.w = w = np.asarray(w)
+                self.w = w = np.array(w)
                 self.grouped = grouped = True
                 self.bin_size = bin_size = np.diff(alpha).min()
                 self.alpha_lb = alpha - bin_size / 2
@@ -487,7 +487,7 @@ class Axial(Circular):
         **kwargs,
     ):
         
-        data = np.array(data) if isinstance(data, list) else data
+        data = np.array(data) if isinstance(data, (list, np.ndarray)) else data
         # doubling original data and reducing them modulo 360 degrees
         if unit == "degree":
             data_double = 2 * data % 360
-- 
2.43.0


From 9a12b97e8aa294e177a134443167a5c84f8455d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 11/47] fix: clear the convergence flag at the start of every
 mixture fit

A model that converged once kept converged=True and the old iteration count
when it was refitted to data on which the new fit did not converge.
---
 pycircstat2/clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 39a6678..44faaea 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -201,6 +201,8 @@ class MovM:
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
         self.data = X
         self.alpha = alpha
+        self.converged = False
+        self.converged_iters = None
         self.n = n = alpha.size
 
         means, kappa, p = self._initialize(alpha, self.n_clusters)
@@ -709,6 +711,8 @@ class MoKJ:
 
         self.data = X
         self.alpha = alpha
+        self.converged = False
+        self.converged_iters = None
         self.n = n = alpha.size
 
         mu, gamma, rho, lam, p = self._initialize(alpha, self.n_clusters)
@@ -1133,6 +1137,8 @@ class MoCD:
 
         self.data = X
         self.alpha = alpha
+        self.converged = False
+        self.converged_iters = None
         self.n = alpha.size
 
         params_list, p = self._initialize(alpha)
-- 
2.43.0


From 5da1738bbc1f2c9d15be96aa9d99025d9596e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:32 +0000
Subject: [PATCH 12/47] fix: compute MoCD.bic from the angles the model was
 fitted to

bic() passed the already converted radians to score_samples, which converted
them from degrees once more, so the criterion belonged to other data.
---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 44faaea..1bcc7ab 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1256,7 +1256,8 @@ class MoCD:
     def bic(self) -> float:
         if self.alpha is None or self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before computing BIC.")
-        log_likelihood = self.score_samples(self.alpha)
+        # `self.alpha` is already in radians; `score_samples` expects `self.unit`.
+        log_likelihood = logsumexp(self._log_gamma(self.alpha, self.p_, self.params_), axis=0)
         nLL = -float(np.sum(log_likelihood))
         n_params_component = len(self.param_names)
         n_params_total = self.n_clusters * n_params_component + (self.n_clusters - 1)
-- 
2.43.0


From 8404249cb248f97c7b2b63f30e88addb78dc634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:39 +0000
Subject: [PATCH 13/47] fix: fit clustering and regression models to their own
 copy of the data

Float input was kept by reference, so changing the caller's array after the
fit changed silhouette scores, information criteria, residual statistics and,
through beta0, predictions of an already fitted model.
---
 pycircstat2/clustering.py | 10 +++++-----
 pycircstat2/regression.py |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 1bcc7ab..ed17e40 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -194,7 +194,7 @@ class MovM:
         - self.p : Fitted cluster probabilities.
         - self.labels : Final cluster assignments.
         """
-        X = np.asarray(X, dtype=float).reshape(-1)
+        X = np.array(X, dtype=float).reshape(-1)
         if X.size == 0:
             raise ValueError("Input data must contain at least one observation.")
 
@@ -704,7 +704,7 @@ class MoKJ:
         verbose : bool or int
             If True, print progress each iteration; if int > 0, print every `verbose` iters.
         """
-        X = np.asarray(X, dtype=float).reshape(-1)
+        X = np.array(X, dtype=float).reshape(-1)
         if X.size == 0:
             raise ValueError("Input data must contain at least one observation.")
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
@@ -1129,7 +1129,7 @@ class MoCD:
     # Public API
     # ------------------------------------------------------------------ #
     def fit(self, X: np.ndarray, verbose: Union[bool, int] = 0) -> "MoCD":
-        X = np.asarray(X, dtype=float).reshape(-1)
+        X = np.array(X, dtype=float).reshape(-1)
         if X.size == 0:
             raise ValueError("Input data must contain at least one observation.")
 
@@ -1392,7 +1392,7 @@ class CircHAC:
         -------
         self : CircHAC
         """
-        self.data = X = np.asarray(X, dtype=float).reshape(-1)
+        self.data = X = np.array(X, dtype=float).reshape(-1)
         if X.size == 0:
             raise ValueError("Input data must contain at least one observation.")
 
@@ -1668,7 +1668,7 @@ class CircKMeans:
         -------
         self
         """
-        self.data = X = np.asarray(X, dtype=float)
+        self.data = X = np.array(X, dtype=float)
         if self.unit == "degree":
             self.alpha = alpha = data2rad(X, k=self.full_cycle)
         else:
diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 53410f6..b7fe681 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -146,7 +146,7 @@ class CLRegression:
     def _coerce_vector(vec: Optional[np.ndarray], length: int, name: str) -> np.ndarray:
         if vec is None:
             return np.zeros(length, dtype=float)
-        arr = np.asarray(vec, dtype=float).reshape(-1)
+        arr = np.array(vec, dtype=float).reshape(-1)
         if arr.size != length:
             raise ValueError(f"Initial {name} must have length {length} (got {arr.size}).")
         if not np.all(np.isfinite(arr)):
@@ -155,13 +155,13 @@ class CLRegression:
 
     @staticmethod
     def _prepare_design(theta: Iterable[float], X: Iterable[Iterable[float]]) -> Tuple[np.ndarray, np.ndarray]:
-        theta_arr = np.asarray(theta, dtype=float).reshape(-1)
+        theta_arr = np.array(theta, dtype=float).reshape(-1)
         if theta_arr.size == 0:
             raise ValueError("`theta` must contain at least one observation.")
         if not np.all(np.isfinite(theta_arr)):
             raise ValueError("`theta` contains non-finite values.")
 
-        X_arr = np.asarray(X, dtype=float)
+        X_arr = np.array(X, dtype=float)
         if X_arr.ndim == 1:
             X_arr = X_arr[:, None]
         if X_arr.ndim != 2:
-- 
2.43.0


From 3475c8576ddabe93a42be4914d6f4b38bbdf3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:30 +0000
Subject: [PATCH 14/47] fix: count ties in the angular randomisation test up to
 rounding

---
 pycircstat2/hypothesis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6d83463..1a28b0e 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1515,6 +1515,8 @@ def angular_randomisation_test(
     # 1. Compute observed test statistic T*₀
     observed_stat = art_statistic(sample_arrays[0], sample_arrays[1])
 
+    tie_tol = 1e-9 * max(1.0, abs(observed_stat))
+
     # Initialize counter for permutations more extreme than observed
     n_extreme = 1  # Start at 1 to count the observed statistic
 
@@ -1545,8 +1547,9 @@ def angular_randomisation_test(
         # Compute test statistic for this permutation
         perm_stat = art_statistic(perm_S1, perm_S2)
 
-        # Count if permuted statistic is >= observed (one-sided test)
-        if perm_stat >= observed_stat:
+        # Count if permuted statistic is >= observed (one-sided test). The same
+        # split summed in another order differs in the last bits: that is a tie.
+        if perm_stat >= observed_stat - tie_tol:
             n_extreme += 1
 
     # Compute p-value as in equation (4.3)
-- 
2.43.0


From f882b2030472a11615d2ae9e3c1472c0d9f45763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:50 +0000
Subject: [PATCH 15/47] fix: let the angular randomisation test count grouped
 observations

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 1a28b0e..8672e01 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1484,7 +1484,7 @@ def angular_randomisation_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    sample_arrays = [np.asarray(sample.alpha, dtype=float) for sample in normalized]
+    sample_arrays = [sample.expand() for sample in normalized]
     if any(arr.size == 0 for arr in sample_arrays):
         raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From 1376a2ce6ca2cce0ca2d330c2aa50836a262937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:50 +0000
Subject: [PATCH 16/47] fix: rank every grouped observation in the Wallraff
 test

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 8672e01..43be741 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1269,7 +1269,7 @@ def wallraff_test(
         angles = angle_arr
 
     ns = [sample.n for sample in normalized]
-    distances = [angular_distance(normalized[i].alpha, angles[i]) for i in range(len(normalized))]
+    distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
     rs = rankdata(np.hstack(distances))
 
-- 
2.43.0


From 82e0f0bab3d958c3b9f5113a0805649d71234a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 17/47] fix: do not wrap rounding noise in the wrapstable and
 katojones cdf to a whole turn

---
 pycircstat2/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2ee651f..b4bcb5f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7622,7 +7622,6 @@ class wrapstable_gen(CircularContinuous):
 
         anchor = (1.0 / np.pi) * np.sum((rho_vals / p_vals) * np.sin(-mu_vals))
         cdf_vals = cdf_vals - anchor
-        cdf_vals = np.where(cdf_vals < 0.0, cdf_vals + 1.0, cdf_vals)
         cdf_vals = np.clip(cdf_vals, 0.0, 1.0)
 
         # Ensure exact endpoints
@@ -8224,7 +8223,7 @@ class katojones_gen(CircularContinuous):
         else:
             series = self._get_series_terms(mu_val, gamma_val, rho_val, lam_val)
             cdf_raw = self._evaluate_cdf_series(flat, mu_val, gamma_val, rho_val, lam_val, series=series)
-            cdf_flat = np.mod(cdf_raw, 1.0)
+            cdf_flat = cdf_raw
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
@@ -8325,7 +8324,6 @@ class katojones_gen(CircularContinuous):
 
         def cdf_single(theta):
             value = self._evaluate_cdf_series(theta, mu_val, gamma_val, rho_val, lam_val, series=series)
-            value = np.mod(value, 1.0)
             return float(np.clip(value, 0.0, 1.0))
 
         for idx, q_val in enumerate(flat):
-- 
2.43.0


From 2582e6ab678762bdeb312c4c73173ee754440a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 18/47] fix: report cdf = 1 only at the end of the support, not
 up to 6e-5 before it

---
 pycircstat2/distributions.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b4bcb5f..07cfd8e 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1889,10 +1889,10 @@ class cartwright_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        result[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, zeta, *args, **kwargs):
@@ -2397,9 +2397,9 @@ class wrapnorm_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         rho_clipped = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
@@ -2408,10 +2408,10 @@ class wrapnorm_gen(CircularContinuous):
         cdf_flat, _ = self._wrapnorm_cdf_pdf(flat, mu_val, sigma)
         if arr.ndim == 0:
             value = float(cdf_flat.reshape(-1)[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf_flat.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -2947,9 +2947,9 @@ class wrapcauchy_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
         reshaped = cdf.reshape(arr.shape)
-        reshaped[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        reshaped[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return reshaped
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -3403,9 +3403,9 @@ class vonmises_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         denom = i0(kappa_val)
@@ -3448,10 +3448,10 @@ class vonmises_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, kappa, *args, **kwargs):
@@ -7627,7 +7627,7 @@ class wrapstable_gen(CircularContinuous):
         # Ensure exact endpoints
         two_pi = 2.0 * np.pi
         cdf_vals[np.isclose(theta_flat[0], 0.0, atol=1e-12)] = 0.0
-        cdf_vals[np.isclose(theta_flat[0], two_pi, atol=1e-12)] = 1.0
+        cdf_vals[np.isclose(theta_flat[0], two_pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_vals.reshape(-1)[0])
@@ -8227,7 +8227,7 @@ class katojones_gen(CircularContinuous):
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
-        cdf_flat[np.isclose(flat, 2.0 * np.pi, atol=1e-12)] = 1.0
+        cdf_flat[np.isclose(flat, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_flat[0])
-- 
2.43.0


From 9579e623c1b9a696cfc0753d7a321ed6a6b80cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 19/47] fix: sum images, not a truncated Fourier series, for
 concentrated wrapped normals

---
 pycircstat2/distributions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 07cfd8e..5d58104 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2295,11 +2295,21 @@ class wrapnorm_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (
+        series = (
             1
             + 2
             * np.sum([rho ** (p**2) * np.cos(p * (x - mu)) for p in range(1, 30)], 0)
         ) / (2 * np.pi)
+        if np.all(np.asarray(rho) <= 0.9):
+            return series
+
+        # Towards rho = 1 the Fourier series needs ever more terms (and, cut
+        # short, turns negative): sum the wrapped normal densities instead.
+        sigma = np.sqrt(-2.0 * np.log(np.clip(rho, 0.9, 1.0 - 1e-15)))
+        images = np.sum(
+            [np.exp(-0.5 * ((x - mu + 2 * np.pi * k) / sigma) ** 2) for k in range(-2, 3)], 0
+        )
+        return np.where(np.asarray(rho) > 0.9, INV_SQRT_2PI / sigma * images, series)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
-- 
2.43.0


From c0a2b318dc80344b3b6764de28334530e2ffb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:12 +0000
Subject: [PATCH 20/47] fix: use exponentially scaled Bessel functions so
 concentrated von Mises does not overflow

---
 pycircstat2/distributions.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 5d58104..d8bb033 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -11,9 +11,10 @@ from scipy.special import (
     i0,
     i0e,
     i1,
+    i1e,
     ndtr,
     ndtri,
-    iv,
+    ive,
     betainc,
     betaincinv,
     gammaln,
@@ -3339,7 +3340,7 @@ class vonmises_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, kappa):
-        return np.exp(kappa * np.cos(x - mu)) / (2 * np.pi * i0(kappa))
+        return np.exp(kappa * (np.cos(x - mu) - 1.0)) / (2 * np.pi * i0e(kappa))
 
     def pdf(self, x, mu, kappa, *args, **kwargs):
         r"""
@@ -3366,7 +3367,7 @@ class vonmises_gen(CircularContinuous):
         return super().pdf(x, mu, kappa, *args, **kwargs)
 
     def _logpdf(self, x, mu, kappa):
-        return kappa * np.cos(x - mu) - np.log(2 * np.pi * i0(kappa))
+        return kappa * (np.cos(x - mu) - 1.0) - np.log(2 * np.pi * i0e(kappa))
 
     def logpdf(self, x, mu, kappa, *args, **kwargs):
         """
@@ -3418,7 +3419,7 @@ class vonmises_gen(CircularContinuous):
             result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
-        denom = i0(kappa_val)
+        denom = i0e(kappa_val)
         if not np.isfinite(denom) or denom == 0.0:
             return self._cdf_from_pdf(x, mu, kappa)
 
@@ -3432,7 +3433,7 @@ class vonmises_gen(CircularContinuous):
         converged = False
 
         for n in range(1, max_terms + 1):
-            coeff = iv(n, kappa_val) / (denom * n)
+            coeff = ive(n, kappa_val) / (denom * n)
             if not np.isfinite(coeff):
                 continue
 
@@ -3551,7 +3552,7 @@ class vonmises_gen(CircularContinuous):
         theta_curr = theta.copy()
         for _ in range(max_iter):
             cdf_vals = np.asarray(self.cdf(theta_curr, mu_val, kappa_val), dtype=float)
-            pdf_vals = np.exp(kappa_val * np.cos(theta_curr - mu_val)) / (2.0 * np.pi * i0(kappa_val))
+            pdf_vals = np.exp(kappa_val * (np.cos(theta_curr - mu_val) - 1.0)) / (2.0 * np.pi * i0e(kappa_val))
             delta = cdf_vals - q_clipped
 
             L = np.where(delta <= 0.0, theta_curr, L)
@@ -3735,7 +3736,7 @@ class vonmises_gen(CircularContinuous):
             The circular variance, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return 1 - i1(kappa) / i0(kappa)
+        return 1 - i1e(kappa) / i0e(kappa)
 
     def std(self, *args, **kwargs):
         """
@@ -3747,7 +3748,7 @@ class vonmises_gen(CircularContinuous):
             The circular standard deviation, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        r = i1(kappa) / i0(kappa)
+        r = i1e(kappa) / i0e(kappa)
 
         return np.sqrt(-2 * np.log(r))
 
@@ -3761,7 +3762,7 @@ class vonmises_gen(CircularContinuous):
             The entropy of the distribution.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return -np.log(i0(kappa)) + (kappa * i1(kappa)) / i0(kappa)
+        return -np.log(i0e(kappa)) - kappa + (kappa * i1e(kappa)) / i0e(kappa)
 
     def _nnlf(self, theta, data):
         """
@@ -3852,7 +3853,7 @@ class vonmises_gen(CircularContinuous):
                 return np.inf
             cos_term = np.cos(x - mu_param)
             sum_cos = np.sum(w * cos_term)
-            log_i0_val = np.log(i0(kappa_param))
+            log_i0_val = np.log(i0e(kappa_param)) + kappa_param
             return float(
                 -kappa_param * sum_cos + w_sum * (np.log(2.0 * np.pi) + log_i0_val)
             )
@@ -3863,7 +3864,7 @@ class vonmises_gen(CircularContinuous):
             sin_term = np.sin(x - mu_param)
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
-            ratio = i1(kappa_param) / i0(kappa_param)
+            ratio = i1e(kappa_param) / i0e(kappa_param)
             g_mu = kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
-- 
2.43.0


From 73f94dddf4c4b2768a45dceb2ffcb6d6ad35ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 21/47] fix: wrap the upper index of the median interval when
 it equals n

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 9aceb1d..adc18dc 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1289,7 +1289,7 @@ def circ_median_ci(
         if np.round(median, 5) in alpha.round(5):  # don't count the median per se
             idx_ub += 1
 
-        if idx_ub > n:
+        if idx_ub >= n:
             idx_ub = idx_ub - n
 
         if idx_lb < 0:
-- 
2.43.0


From 071c921bdca5061995451f9ab072ef68567e7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 22/47] fix: let Watson's U2 test take samples in any order

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 43be741..e674887 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1104,7 +1104,7 @@ def watson_u2_test(
         raise ValueError("`watson_u2_test` requires exactly two samples.")
 
     def cumfreq(alpha_unique: np.ndarray, sample: _CircularSample) -> np.ndarray:
-        expanded = sample.expand()
+        expanded = np.sort(sample.expand())
         if expanded.size == 0:
             raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From a22867018e7787792197b0858c16ceb3903e1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:52 +0000
Subject: [PATCH 23/47] fix: let a positionally frozen von Mises draw

---
 pycircstat2/distributions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index d8bb033..870a98a 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -733,6 +733,12 @@ class CircularContinuousFrozen(rv_continuous_frozen):
         call_args = self.args + args
         return self.dist.trig_moment(p, *call_args, **call_kwargs)
 
+    def rvs(self, size=None, random_state=None):
+        # By name: not every family takes its shape parameters first in `rvs`.
+        names = [name.strip() for name in (self.dist.shapes or "").split(",") if name.strip()]
+        shapes = dict(zip(names, self.args))
+        return self.dist.rvs(**{**shapes, **self.kwds}, size=size, random_state=random_state)
+
     def r(self, *args, **kwargs) -> float:
         return self._call_dist_method("r", *args, **kwargs)
 
-- 
2.43.0


From 358f66c444c5c866b561c0504e8d1b30b95cdec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:40 +0000
Subject: [PATCH 24/47] fix: widen the inverse_batschelet envelope until it
 covers the tails

The curvature of the log-density at the mode can be far larger than what the
tails follow (nu near 0 with lmbd > 0), so next to no proposal was accepted
and rvs did not return.
---
 pycircstat2/distributions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 870a98a..61b9af3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6902,9 +6902,17 @@ class inverse_batschelet_gen(CircularContinuous):
             curvature = max(-d2, 1e-3)
 
         kappa_env = float(np.clip(curvature, _INVBAT_ENV_MIN_KAPPA, _INVBAT_KAPPA_UPPER))
-        log_vm_norm = np.log(2.0 * np.pi) + np.log(i0e(kappa_env)) + kappa_env
-        log_ratio = log_pdf + log_vm_norm - kappa_env * np.cos(phi)
-        log_multiplier = float(np.max(log_ratio))
+        # The curvature at the mode says nothing about the tails: an envelope narrower
+        # than the target accepts next to nothing, so widen it for as long as that pays.
+        candidates = []
+        while True:
+            log_vm_norm = np.log(2.0 * np.pi) + np.log(i0e(kappa_env)) + kappa_env
+            log_ratio = log_pdf + log_vm_norm - kappa_env * np.cos(phi)
+            candidates.append((float(np.max(log_ratio)), kappa_env, log_vm_norm))
+            if kappa_env <= _INVBAT_ENV_MIN_KAPPA:
+                break
+            kappa_env = max(0.5 * kappa_env, _INVBAT_ENV_MIN_KAPPA)
+        log_multiplier, kappa_env, log_vm_norm = min(candidates)
         multiplier = float(np.exp(log_multiplier) * 1.02)
 
         params = {
-- 
2.43.0


From 63fc0623c326bb19c567393d6c86cc73ffb40873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:56 +0000
Subject: [PATCH 25/47] fix: do not normalise Jones-Pewsey with a diverging
 Legendre series

lpmv(0, nu, z) sums a series in (1 - z)/2 that converges only for z < 3; for
kappa*psi near 1.9 it returned finite garbage (density integrating to 2e-8,
rvs never returning).
---
 pycircstat2/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 61b9af3..de33396 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5469,6 +5469,9 @@ def _jp_legendre_normalizer(kappa, psi):
 
     A = kappa * psi
     z = np.cosh(A)
+    if z > 2.5:
+        # `lpmv` sums a series in (1 - z) / 2, which diverges beyond z = 3.
+        return np.nan
     try:
         legendre = lpmv(0, nu, z)
     except ValueError:
-- 
2.43.0


From 2d6c9c34026435d0280faca801ab948cf37f6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:05 +0000
Subject: [PATCH 26/47] fix: do not let the inverse_batschelet cdf table change
 the density's normaliser

---
 pycircstat2/distributions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index de33396..47689bb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7314,8 +7314,6 @@ class inverse_batschelet_gen(CircularContinuous):
             pdf *= scale
             log_norm += np.log(scale)
             mass = 1.0
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = np.exp(log_norm)
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
-- 
2.43.0


From 0177e72cdae77023ab3b98bcbe2a1093f0774451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 27/47] fix: give the sine-skewed Jones-Pewsey cdf and ppf
 their skew at kappa near 0

---
 pycircstat2/distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 47689bb..9828ffd 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5597,9 +5597,8 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
 
         if kappa_val < _JP_KAPPA_TOL:
-            phi = (flat - xi_val) % two_pi
-            base = phi / two_pi
-            skew = (1.0 - np.cos(phi)) / (2.0 * np.pi)
+            base = flat / two_pi
+            skew = (np.cos(xi_val) - np.cos(flat - xi_val)) / two_pi
             cdf = base + lmbd_val * skew
             return np.clip(cdf, 0.0, 1.0).reshape(arr.shape)
 
@@ -5675,7 +5674,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 q_int = q_valid[interior]
                 eps = 1e-15
                 q_clipped = np.clip(q_int, eps, 1.0 - eps)
-                if kappa_val < _JP_KAPPA_TOL:
+                if kappa_val < _JP_KAPPA_TOL and abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = two_pi * q_clipped
                 elif abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = jonespewsey.ppf(
-- 
2.43.0


From 208bee115fe050a5dff6075315977d58de957eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:47 +0000
Subject: [PATCH 28/47] fix: keep wrapstable draws finite when the exponential
 deviate is exactly 0

---
 pycircstat2/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 9828ffd..4e9e872 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8084,7 +8084,8 @@ def _wrapstable_sample_linear(alpha, beta, gamma, delta, *, size, rng):
     delta = float(delta)
 
     V = rng.uniform(-0.5 * np.pi, 0.5 * np.pi, size=size)
-    W = rng.exponential(1.0, size=size)
+    # a generator may return exactly 0, which the transform below cannot take
+    W = np.maximum(rng.exponential(1.0, size=size), np.finfo(float).eps)
 
     if abs(alpha - 1.0) > _WRAPSTABLE_ALPHA_TOL:
         tan_term = np.tan(0.5 * np.pi * alpha)
-- 
2.43.0


From f6ae630dc2ba7b9d001a067e0da16ba990d6c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 29/47] fix: treat rounding noise below zero in the wrapped
 stable density as zero

---
 pycircstat2/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 4e9e872..7b2d6cb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7583,6 +7583,8 @@ class wrapstable_gen(CircularContinuous):
         cos_args = p[:, np.newaxis] * x_arr[np.newaxis, ...] - mu_vals[:, np.newaxis]
         series_sum = np.sum(rho_vals[:, np.newaxis] * np.cos(cos_args), axis=0)
         pdf_values = 1 / (2 * np.pi) * (1 + 2 * series_sum)
+        # rounding in the series may leave the tails a hair below zero
+        pdf_values = np.where((pdf_values < 0.0) & (pdf_values > -1e-11), 0.0, pdf_values)
         if np.isscalar(x):
             return np.asarray(pdf_values, dtype=float).reshape(-1)[0]
         return pdf_values
-- 
2.43.0


From afe6061ffa48d4bda17ad39ddfeb3c9be1e90a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:57 +0000
Subject: [PATCH 30/47] fix: flat-topped von Mises works for large kappa
 (inverse table slopes overflowed)

---
 pycircstat2/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7b2d6cb..5d96806 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4651,6 +4651,9 @@ def _vmft_build_table(kappa, nu, grid_size):
     cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
 
     unique_vals, unique_idx = np.unique(cumulative, return_index=True)
+    # Steps this small overflow the slopes of the inverse interpolant (large kappa).
+    keep = np.concatenate(([True], np.diff(unique_vals) > 1e-100))
+    unique_vals, unique_idx = unique_vals[keep], unique_idx[keep]
     if unique_vals.size >= 2:
         inv_interp = PchipInterpolator(unique_vals, phi[unique_idx], extrapolate=True)
     else:
-- 
2.43.0


From f1a8d7ec7b360458b048a8bd825ae089694a4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 31/47] fix: fits report the log-likelihood of the estimates
 they return

---
 pycircstat2/distributions.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 5d96806..451c684 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1719,7 +1719,7 @@ class cardioid_gen(CircularContinuous):
                 rho_hat = float(np.clip(result.x[1], 0.0, 0.5))
                 info = {
                     "method": "mle",
-                    "loglik": float(-result.fun),
+                    "loglik": float(-_nll((mu_hat, rho_hat))),
                     "n_effective": float(n_eff),
                     "converged": bool(result.success),
                     "nit": result.nit,
@@ -2233,7 +2233,7 @@ class cartwright_gen(CircularContinuous):
             zeta_hat = float(np.clip(result.x[1], 1e-6, 1e6))
             info = {
                 "method": "mle",
-                "loglik": float(-result.fun),
+                "loglik": float(-nll((mu_hat, zeta_hat))),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
                 "nit": result.nit,
@@ -2820,7 +2820,7 @@ class wrapnorm_gen(CircularContinuous):
             rho_hat = float(np.clip(result.x[1], 1e-9, 1.0 - 1e-9))
             info = {
                 "method": "mle",
-                "loglik": float(-result.fun),
+                "loglik": float(-nll((mu_hat, rho_hat))),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
                 "nit": result.nit,
@@ -3260,7 +3260,7 @@ class wrapcauchy_gen(CircularContinuous):
             rho_hat = float(np.clip(result.x[1], 1e-9, 1.0 - 1e-9))
             info = {
                 "method": "mle",
-                "loglik": float(-result.fun),
+                "loglik": float(-nll((mu_hat, rho_hat))),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
                 "nit": result.nit,
@@ -3903,7 +3903,7 @@ class vonmises_gen(CircularContinuous):
             kappa_hat = float(np.clip(result.x[1], 1e-9, 1e6))
             info = {
                 "method": "mle",
-                "loglik": float(-result.fun),
+                "loglik": float(-nll((mu_hat, kappa_hat))),
                 "n_effective": float(n_eff),
                 "converged": bool(result.success),
                 "nit": result.nit,
@@ -4510,7 +4510,7 @@ class vonmises_flattopped_gen(CircularContinuous):
 
         info = {
             "method": "mle",
-            "loglik": float(-result.fun),
+            "loglik": float(-nll((mu_hat, kappa_hat, nu_hat))),
             "n_effective": n_eff,
             "converged": bool(result.success),
             "optimizer": optimizer_used,
@@ -5298,8 +5298,8 @@ class jonespewsey_gen(CircularContinuous):
             mu_hat = self._wrap_direction(float(result.x[0]))
             kappa_hat = float(np.clip(result.x[1], kappa_bounds[0], kappa_bounds[1]))
             psi_hat = float(np.clip(result.x[2], psi_bounds[0], psi_bounds[1]))
-            final_nll = float(result.fun)
             estimates = (mu_hat, kappa_hat, psi_hat)
+            final_nll = float(nll(estimates))
             info = {
                 "method": "mle",
                 "loglik": float(-final_nll),
@@ -7238,7 +7238,7 @@ class inverse_batschelet_gen(CircularContinuous):
 
         info = {
             "method": "mle",
-            "loglik": float(-result.fun),
+            "loglik": float(-nll((xi_hat, kappa_hat, nu_hat, lmbd_hat))),
             "n_effective": n_eff,
             "converged": bool(result.success),
             "optimizer": optimizer_used,
@@ -7989,7 +7989,7 @@ class wrapstable_gen(CircularContinuous):
 
         info = {
             "method": "mle",
-            "loglik": float(-result.fun),
+            "loglik": float(-nll((delta_hat, alpha_hat, beta_hat, gamma_hat))),
             "n_effective": n_eff,
             "converged": bool(result.success),
             "optimizer": optimizer_used,
@@ -8833,7 +8833,7 @@ class katojones_gen(CircularContinuous):
 
         estimates = (mu_hat, gamma_hat, rho_hat, lam_hat)
         if return_info:
-            final_nll = objective(result.x)
+            final_nll = objective((mu_hat, gamma_hat, s_hat, phi_hat))
             info = {
                 "method": "mle",
                 "converged": bool(result.success),
-- 
2.43.0


From a793490ce1e07b3cb8405c9992a1e55854e68523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:42 +0000
Subject: [PATCH 32/47] fix: Cartwright density, cdf and quantiles work for
 small zeta (2**(1/zeta) overflowed)

---
 pycircstat2/distributions.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 451c684..8c07114 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5,9 +5,7 @@ import numpy as np
 from scipy.integrate import quad, quad_vec
 from scipy.interpolate import PchipInterpolator
 from scipy.optimize import minimize, minimize_scalar, brentq, root_scalar
-from scipy.special import beta as beta_fn
 from scipy.special import (
-    gamma,
     i0,
     i0e,
     i1,
@@ -1790,11 +1788,10 @@ class cartwright_gen(CircularContinuous):
         return float(result) if np.isscalar(zeta) else result
 
     def _pdf(self, x, mu, zeta):
-        return (
-            (2 ** (-1 + 1 / zeta) * (gamma(1 + 1 / zeta)) ** 2)
-            * (1 + np.cos(x - mu)) ** (1 / zeta)
-            / (np.pi * gamma(1 + 2 / zeta))
-        )
+        inv = 1 / zeta
+        # 2**(1/zeta) goes with (1 + cos)**(1/zeta): either one overflows for small zeta
+        log_c = (-1 + 2 * inv) * np.log(2) + 2 * gammaln(1 + inv) - gammaln(1 + 2 * inv)
+        return np.exp(log_c) / np.pi * (0.5 * (1 + np.cos(x - mu))) ** inv
 
     def pdf(self, x, mu, zeta, *args, **kwargs):
         r"""
@@ -1869,14 +1866,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        beta_term = beta_fn(a, b)
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_term  # equals 0.5
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5  # mass on each side of the mean direction
 
         phi_start = (-mu_val) % two_pi
         phi_end = (flat - mu_val) % two_pi
@@ -1941,13 +1931,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_fn(a, b)
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5  # mass on each side of the mean direction
 
         phi_start = (-mu_val) % two_pi
         H_start = self._cartwright_cumulative(np.array([phi_start]), a, b, half_norm)[0]
-- 
2.43.0


From f090640b4f542752ef0690ef051646e13a574165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:55 +0000
Subject: [PATCH 33/47] fix: table cdf of flat-topped von Mises and inverse
 Batschelet no longer drops to 0 past a concentrated mode

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8c07114..8881254 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4049,7 +4049,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             phi_start = ((-mu_val + np.pi) % two_pi) - np.pi
             H = table["cdf_interp"](phi)
             H_start = float(table["cdf_interp"](phi_start))
-            cdf_flat = np.where(H < H_start, H - H_start + 1.0, H - H_start)
+            cdf_flat = np.where(phi < phi_start, H - H_start + 1.0, H - H_start)
             cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
 
         if arr.ndim == 0:
@@ -6684,7 +6684,7 @@ class inverse_batschelet_gen(CircularContinuous):
             H = table["cdf_interp"](phi)
             H_start = float(table["cdf_interp"](phi_start))
             diff = H - H_start
-            cdf_flat = np.where(diff < 0.0, diff + 1.0, diff)
+            cdf_flat = np.where(phi < phi_start, diff + 1.0, diff)
             cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
 
         if arr.ndim == 0:
-- 
2.43.0


From 1ed9d77ba5afc969ec77db2dc6bd3a69096820fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:24 +0000
Subject: [PATCH 34/47] fix: flat-topped von Mises sampler envelope uses the
 exact density (endless rejection for large kappa)

---
 pycircstat2/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8881254..da240eb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4572,7 +4572,10 @@ class vonmises_flattopped_gen(CircularContinuous):
             + kappa_env
         )
         log_env_pdf = kappa_env * np.cos(table["phi"]) - log_env_norm
-        log_ratio = np.log(table["pdf"]) - log_env_pdf
+        # not log(table["pdf"]): the table floors the density, the envelope tail does not
+        phi = table["phi"]
+        log_target = kappa * np.cos(phi + nu * np.sin(phi)) + table["log_normalizer"]
+        log_ratio = log_target - log_env_pdf
         log_multiplier = float(np.max(log_ratio))
         multiplier = float(np.exp(log_multiplier) * (1.0 + 5e-12))
 
-- 
2.43.0


From bae51a27650a9cfc4e34dd74db527cf36319e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 35/47] fix: Kato-Jones estimates never report lam = 2*pi,
 which the family rejects

---
 pycircstat2/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index da240eb..1b93877 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8496,7 +8496,7 @@ class katojones_gen(CircularContinuous):
         else:
             r2 = np.hypot(alpha2_proj, beta2_proj)
             rho_hat = float(np.clip(r2 / max(gamma_hat, 1e-12), 0.0, 1.0 - 1e-9))
-            lam_hat = float(np.mod(np.arctan2(beta2_proj, alpha2_proj), 2.0 * np.pi))
+            lam_hat = float(np.mod(np.arctan2(beta2_proj, alpha2_proj), 2.0 * np.pi) % (2.0 * np.pi))
             if rho_hat < self._moment_tolerance:
                 lam_hat = 0.0
 
@@ -8583,7 +8583,7 @@ class katojones_gen(CircularContinuous):
         if r2 <= tol:
             lam = 0.0
         else:
-            lam = float(np.mod(np.arctan2(beta2, alpha2), 2.0 * np.pi))
+            lam = float(np.mod(np.arctan2(beta2, alpha2), 2.0 * np.pi) % (2.0 * np.pi))
         return rho, lam
 
     @staticmethod
@@ -8664,7 +8664,7 @@ class katojones_gen(CircularContinuous):
         rho_cos = gamma + delta_cos
         rho_sin = delta_sin
         rho = float(np.clip(np.hypot(rho_cos, rho_sin), 0.0, 1.0 - 1e-9))
-        lam = float(np.mod(np.arctan2(rho_sin, rho_cos), 2.0 * np.pi))
+        lam = float(np.mod(np.arctan2(rho_sin, rho_cos), 2.0 * np.pi) % (2.0 * np.pi))
         return rho, lam
 
     def _get_series_terms(self, mu, gamma, rho, lam):
-- 
2.43.0


From de2326fddefcccf76a18023dbf7ea5d8e6e39c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 36/47] fix: grouped Rao spacing test breaks the ties of the
 observed sample like the simulated ones (it rejected uniform data)

---
 pycircstat2/hypothesis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index e674887..c77e978 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1873,11 +1873,14 @@ def rao_spacing_test(
         noise = vm_dist.rvs(size=(n_simulation, n), random_state=rng)
         samples = angmod(snapped + noise)
         Us = np.array([compute_U(sample) for sample in samples])
+        # ties of the observed sample are broken in the same way as the simulated ones
+        U_ref = compute_U(angmod(expanded_alpha + vm_dist.rvs(size=n, random_state=rng)))
     else:
         samples = rng.uniform(low=0.0, high=2 * np.pi, size=(n_simulation, n))
         Us = np.array([compute_U(sample) for sample in samples])
+        U_ref = Uo
 
-    counter = np.count_nonzero(Us >= Uo)
+    counter = np.count_nonzero(Us >= U_ref)
     pval = float((counter + 1) / (n_simulation + 1))
 
     if verbose:
-- 
2.43.0


From 2db99cd7509786392df58b0cbb9a8ad16ad764cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 37/47] fix: bootstrap mean interval no longer turned inside
 out when it excludes the mean

The highest-density interval is oriented from lb to ub.  When it did not
contain the mean (common below about 70% level) the bounds were swapped,
which returned the complement of the interval.
---
 pycircstat2/descriptive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index adc18dc..4f85204 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1156,12 +1156,9 @@ def _circ_mean_ci_bootstrap(
     ).reshape(-1)
 
     # Use HDI instead of the percentile method
+    # The bounds are already oriented: the interval runs from lb to ub
     lb, ub = compute_hdi(bootstrap_samples, ci=ci)
 
-    mean_dir = circ_mean(bootstrap_samples)
-    if not is_within_circular_range(mean_dir, lb, ub):
-        lb, ub = ub, lb
-
     return float(lb), float(ub)
 
 
-- 
2.43.0


From 41d236fdd584d8160ef322a8e3630f04414169a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 38/47] fix: Circular no longer fails when the mean is just
 significant

The bootstrap interval used a cruder Rayleigh p-value than rayleigh_test, so
building a Circular object from 8-24 observations raised ValueError when the
two p-values lay on different sides of 0.05.
---
 pycircstat2/descriptive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 4f85204..2924224 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1114,9 +1114,9 @@ def _circ_mean_ci_bootstrap(
     n = alpha_arr.size
     r = circ_r(alpha_arr)
 
-    # Classic Rayleigh test approximation, avoids import cycles
-    z_stat = n * r**2  # Rayleigh's Z
-    p_val = np.exp(-z_stat)  # p ≈ e^(−Z) (valid for n ≥ 10)
+    # Same p-value as `rayleigh_test` (eq 27.4, Zar 2010), avoids import cycles
+    R = n * r
+    p_val = np.exp(np.sqrt(1 + 4 * n + 4 * (n**2 - R**2)) - (1 + 2 * n))
 
     if p_val > 0.05:  # Data look uniform ⇒ no identifiable mean direction
         raise ValueError(
-- 
2.43.0


From ef73c384ded3d9762d11201b24b2770e1b74630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 39/47] fix: wrapped Cauchy density stays finite for rho near 1

For the rho = 1 - 1e-12 that moment fits give to (nearly) constant data the
denominator cancelled to 0: the density was infinite at the mean direction
and mixtures of wrapped Cauchy distributions ended with NaN weights.
---
 pycircstat2/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 1b93877..8effc7d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2861,7 +2861,9 @@ class wrapcauchy_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (1 - rho**2) / (2 * np.pi * (1 + rho**2 - 2 * rho * np.cos(x - mu)))
+        # 1 + rho**2 - 2 * rho * cos(x - mu) without cancellation for rho near 1
+        denom = (1 - rho) ** 2 + 4 * rho * np.sin(0.5 * (x - mu)) ** 2
+        return (1 - rho) * (1 + rho) / (2 * np.pi * denom)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
-- 
2.43.0


From b0ef390ebdc3ee5b4d82c2128fb5cd0292c48646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 40/47] fix: default density grid of mixtures in the data's own
 cycle

predict_density() without points built its grid in degrees whatever the
model's full_cycle, so with e.g. full_cycle=24 it ran 15 times round the
circle.
---
 pycircstat2/clustering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index ed17e40..f9d54a1 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -8,7 +8,7 @@ from scipy.special import logsumexp
 
 from .descriptive import circ_dist, circ_kappa, circ_mean_and_r
 from .distributions import CircularContinuous, vonmises, katojones
-from .utils import data2rad
+from .utils import data2rad, rad2data
 
 ALLOWED_MOCD_DISTRIBUTIONS = {
     "cardioid",
@@ -388,7 +388,7 @@ class MovM:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -877,7 +877,7 @@ class MoKJ:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -1242,7 +1242,7 @@ class MoCD:
         if X is None:
             X = np.linspace(0.0, 2.0 * np.pi, 200, endpoint=False)
             if unit == "degree":
-                X = np.rad2deg(X)
+                X = rad2data(X, k=full_cycle)
 
         X = np.asarray(X, dtype=float).reshape(-1)
         alpha = X if unit == "radian" else data2rad(X, k=full_cycle)
-- 
2.43.0


From 2ca1d229cad90816a59da41d3cc6499f4b1a0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:57 +0000
Subject: [PATCH 41/47] fix: hierarchical clustering merges the nearest
 clusters

With the default metric "center" circ_dist is signed, so the most negative
difference won: clusters almost half a turn apart were merged first.
---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index f9d54a1..8fe177a 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1419,7 +1419,8 @@ class CircHAC:
             best_pair: Optional[Tuple[int, int]] = None
             for idx, cid_i in enumerate(cluster_ids):
                 for cid_j in cluster_ids[idx + 1 :]:
-                    dist_ij = circ_dist(means[cid_i], means[cid_j], metric=self.metric)
+                    # the "center" metric is signed
+                    dist_ij = abs(circ_dist(means[cid_i], means[cid_j], metric=self.metric))
                     if dist_ij < best_dist:
                         best_dist = dist_ij
                         best_pair = (cid_i, cid_j)
-- 
2.43.0


From 4a0a42971c71a3b78ef3c6339087f1c95bf162d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 42/47] fix: k-means keeps a center when its points have no
 mean direction

A cluster of balanced points (e.g. two opposite ones) got a NaN center,
which then attracted every observation and made the inertia NaN.
---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 8fe177a..371dbe7 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1706,7 +1706,8 @@ class CircKMeans:
                 if np.any(mask):
                     # circular mean of assigned points
                     m, _ = circ_mean_and_r(alpha[mask])
-                    new_centers[c] = m
+                    # balanced points have no mean direction: keep the old center
+                    new_centers[c] = m if np.isfinite(m) else centers[c]
                 else:
                     # if no points assigned, keep old center or random re-init
                     new_centers[c] = centers[c]
-- 
2.43.0


From 1aa849835fc8f09c992cf030e258f6c45526721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:41 +0000
Subject: [PATCH 43/47] fix: k-means predicts after a fit to fewer points than
 clusters

Such a fit stores one center per point; predict indexed n_clusters of them.
---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 371dbe7..c05cc2a 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1759,7 +1759,8 @@ class CircKMeans:
             alpha = X
 
         n_samples = len(alpha)
-        dist_mat = np.zeros((self.n_clusters, n_samples))
-        for c in range(self.n_clusters):
+        n_centers = len(self.centers_)  # fewer than n_clusters for very small samples
+        dist_mat = np.zeros((n_centers, n_samples))
+        for c in range(n_centers):
             dist_mat[c] = np.abs(circ_dist(alpha, self.centers_[c], metric=self.metric))
         return dist_mat.argmin(axis=0)
-- 
2.43.0


From 2dbf776dd54b9fed3c41d3db964d6bbbeb374d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 44/47] fix: silhouette excludes the point itself from its own
 cluster

The distance of a point to itself was averaged in, which inflated the
silhouette of small clusters.
---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index c05cc2a..9ad73ad 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1570,7 +1570,8 @@ class CircHAC:
             in_cluster_i = (labels == c_i)
             # average distance to own cluster
             # excluding the point itself
-            a_i = pairwise[i, in_cluster_i].mean() if in_cluster_i.sum() > 1 else 0.0
+            n_in = in_cluster_i.sum()
+            a_i = pairwise[i, in_cluster_i].sum() / (n_in - 1) if n_in > 1 else 0.0
 
             # find min average distance to another cluster
             b_i = np.inf
-- 
2.43.0


From 7a75b8ae07de51c2c21020d6c453219430e9da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:18 +0000
Subject: [PATCH 45/47] fix: silhouette of a single cluster is 0 rather than
 NaN

---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 9ad73ad..a31021c 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1554,7 +1554,7 @@ class CircHAC:
         labels = self.labels_
         metric = self.metric
         n = len(angles)
-        if n < 2:
+        if n < 2 or np.unique(labels).size < 2:
             return 0.0
 
         silhouette_values = np.zeros(n, dtype=float)
-- 
2.43.0


From c0f08b9adbef0413b37e44645c2b01dffa56b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:22 +0000
Subject: [PATCH 46/47] fix: geodesic distance of angles more than a turn apart

circ_dist(metric="geodesic") gave values outside [0, pi] for differences
above 2*pi, so clustering predictions for unwrapped angles could pick a
farther center.
---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 2924224..d5e8f76 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1459,7 +1459,7 @@ def circ_dist(
         distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
 
     elif metric == "geodesic":
-        distances = np.pi - np.abs(np.pi - np.abs(x - y))
+        distances = np.pi - np.abs(np.pi - np.mod(np.abs(x - y), 2 * np.pi))
 
     elif metric == "angularseparation":
         distances = 1 - np.cos(x - y)
-- 
2.43.0


From f7e5ae6bec1bddb9b73ace35481e638edddaa95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 47/47] fix: wrapcauchy.fit computes its log-likelihood with
 the density's cancellation-free denominator

---
 pycircstat2/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8effc7d..337cac1 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3191,14 +3191,14 @@ class wrapcauchy_gen(CircularContinuous):
             mu_param, rho_param = params
             if not (0.0 <= rho_param < 1.0):
                 return np.inf
-            denom = np.clip(1.0 + rho_param**2 - 2.0 * rho_param * np.cos(x - mu_param), 1e-15, None)
-            log_pdf = np.log1p(-rho_param**2) - np.log(2.0 * np.pi) - np.log(denom)
+            denom = (1.0 - rho_param) ** 2 + 4.0 * rho_param * np.sin(0.5 * (x - mu_param)) ** 2
+            log_pdf = np.log((1.0 - rho_param) * (1.0 + rho_param)) - np.log(2.0 * np.pi) - np.log(denom)
             value = -np.sum(w * log_pdf)
             return float(value)
 
         def grad(params):
             mu_param, rho_param = params
-            denom = np.clip(1.0 + rho_param**2 - 2.0 * rho_param * np.cos(x - mu_param), 1e-15, None)
+            denom = (1.0 - rho_param) ** 2 + 4.0 * rho_param * np.sin(0.5 * (x - mu_param)) ** 2
             cos_term = np.cos(x - mu_param)
             sin_term = np.sin(x - mu_param)
 
-- 
2.43.0

