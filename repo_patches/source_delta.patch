From 2445b0ec749cd8a817080e5bf14dbf19b8677943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 01/47] fix: Circular no longer removes entries from the
 caller's kwargs_mean_ci

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d06c9e3..b1e4de1 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -249,7 +249,7 @@ class Circular:
                 self.method_mean_ci = method_mean_ci = None
                 self.mean_ci_level = mean_ci_level = np.nan
         else:
-            self.method_mean_ci = method_mean_ci = kwargs_mean_ci.pop(
+            self.method_mean_ci = method_mean_ci = kwargs_mean_ci.get(
                 "method", "bootstrap"
             )
             self.mean_ci_level = mean_ci_level = 0.95
-- 
2.43.0


From c107d4ae23f14fccdf6ec62e7023ba7f6daf48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:02 +0000
Subject: [PATCH 02/47] fix: circ_mean_ci bootstrap resamples from a seeded
 generator, not the global random state

---
 pycircstat2/descriptive.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ff1ae71..3b564fc 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -838,6 +838,7 @@ def circ_mean_ci(
     ci: float = 0.95,
     method: str = "approximate",
     B: int = 2000,  # number of samples for bootstrap
+    seed: Union[int, np.random.Generator, None] = 2046,
 ) -> tuple[float, float]:
     r"""
     Confidence interval of circular mean.
@@ -896,6 +897,8 @@ def circ_mean_ci(
         - dispersion: for n >= 25
     B: int
         Number of samples for bootstrap.
+    seed: int, np.random.Generator or None
+        Seed (or generator) used for the bootstrap resampling.
 
     Returns
     -------
@@ -920,7 +923,7 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
-        (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
+        (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci, seed=seed)
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
     elif method == "dispersion" and alpha is not None:
@@ -1095,6 +1098,7 @@ def _circ_mean_ci_bootstrap(
     alpha: np.ndarray,
     B: int = 2000,
     ci: float = 0.95,
+    seed: Union[int, np.random.Generator, None] = 2046,
 ) -> tuple[float, float]:
     """Implementation of Section 8.3 (Fisher, 1993, p.207)."""
 
@@ -1145,8 +1149,9 @@ def _circ_mean_ci_bootstrap(
     v12 = v21 = beta_param * (t1 - t2) / (1 + beta_param**2)  # eq (8.31)
     v0 = np.array([[v11, v12], [v21, v22]], dtype=float)
 
+    rng = np.random.default_rng(seed)
     bootstrap_samples = np.asarray(
-        [_circ_mean_resample(alpha_arr, z0, v0) for _ in range(B)],
+        [_circ_mean_resample(alpha_arr, z0, v0, rng) for _ in range(B)],
         dtype=float,
     ).reshape(-1)
 
@@ -1160,13 +1165,13 @@ def _circ_mean_ci_bootstrap(
     return float(lb), float(ub)
 
 
-def _circ_mean_resample(alpha, z0, v0):
+def _circ_mean_resample(alpha, z0, v0, rng):
     """
     Implementation of Section 8.3.5 (Fisher, 1993, P210)
     """
 
     alpha_arr = np.asarray(alpha, dtype=float)
-    theta_samples = np.random.choice(alpha_arr, alpha_arr.size, replace=True)
+    theta_samples = rng.choice(alpha_arr, alpha_arr.size, replace=True)
     cos_theta = np.cos(theta_samples)
     sin_theta = np.sin(theta_samples)
 
-- 
2.43.0


From 4347dfab5e916e4a3b544c8676a328bbd27e0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:51 +0000
Subject: [PATCH 03/47] fix: seed=True selects the same generator whether or
 not verbose is set

---
 pycircstat2/hypothesis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6d83463..a88ada7 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -478,7 +478,7 @@ def rayleigh_test(
     pval = np.exp(np.sqrt(1 + 4 * n + 4 * (n**2 - R**2)) - (1 + 2 * n))  # eq(27.4)
 
     bootstrap_pval: Optional[float]
-    if seed is True and verbose is False:
+    if seed is True:
         warnings.warn(
             "Passing `verbose` as a positional argument is deprecated; use keyword arguments.",
             DeprecationWarning,
@@ -1523,7 +1523,7 @@ def angular_randomisation_test(
     n1 = sample_arrays[0].size
 
     # Perform permutation test
-    if seed is True and verbose is False:
+    if seed is True:
         warnings.warn(
             "Passing `verbose` as a positional argument is deprecated; use keyword arguments.",
             DeprecationWarning,
@@ -1633,7 +1633,7 @@ def kuiper_test(
     n = alpha.size
     Vo, f = compute_V(alpha)
 
-    if seed is True and verbose is False:
+    if seed is True:
         warnings.warn(
             "Passing `verbose` as a positional argument is deprecated; use keyword arguments.",
             DeprecationWarning,
@@ -1739,7 +1739,7 @@ def watson_test(
     n = alpha.size
     U2o = compute_U2(alpha)
 
-    if seed is True and verbose is False:
+    if seed is True:
         warnings.warn(
             "Passing `verbose` as a positional argument is deprecated; use keyword arguments.",
             DeprecationWarning,
@@ -1851,7 +1851,7 @@ def rao_spacing_test(
         n = expanded_alpha.size
         mode = "ungrouped"
 
-    if seed is True and verbose is False:
+    if seed is True:
         warnings.warn(
             "Passing `verbose` as a positional argument is deprecated; use keyword arguments.",
             DeprecationWarning,
-- 
2.43.0


From fa842b8973cf260de044a1cfffd215cd9dd47383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:08 +0000
Subject: [PATCH 04/47] fix: MovM.predict_density, CircHAC.plot_dendrogram and
 CircHAC.silhouette_score raise ValueError before fit

---
 pycircstat2/clustering.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 39a6678..79063f8 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -380,6 +380,9 @@ class MovM:
         np.ndarray
             Estimated density at the provided points.
         """
+        if self.p_ is None or self.kappa_ is None or self.m_ is None:
+            raise ValueError("Model must be fitted before calling predict_density().")
+
         unit = self.unit if unit is None else unit
         full_cycle = self.full_cycle if full_cycle is None else full_cycle
 
@@ -1491,6 +1494,9 @@ class CircHAC:
         -------
         ax : matplotlib Axes
         """
+        if self.merges_ is None:
+            raise ValueError("Model must be fitted before calling plot_dendrogram().")
+
         import matplotlib.pyplot as plt
         if ax is None:
             fig, ax = plt.subplots(figsize=(6, 4))
@@ -1542,6 +1548,9 @@ class CircHAC:
         float
             The mean silhouette over all points.
         """
+        if self.labels_ is None:
+            raise ValueError("Model must be fitted before calling silhouette_score().")
+
         angles = self.alpha
         labels = self.labels_
         metric = self.metric
-- 
2.43.0


From e515639be32c316d1fd886fa410b2dd8bdeb7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:15 +0000
Subject: [PATCH 05/47] fix: circ_median, circ_median_ci and circ_quantile
 reject unknown options on every path

---
 pycircstat2/descriptive.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 3b564fc..0edb289 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -572,6 +572,15 @@ def circ_median(
     - For grouped data: Mardia (1972)
     """
 
+    if method not in ("count", "deviation", "none", None):
+        raise ValueError(
+            f"Method `{method}` for `circ_median` is not supported.\nTry `deviation` or `count`"
+        )
+    if average_method not in ("all", "unique"):
+        raise ValueError(
+            f"Average method `{average_method}` is not supported.\nTry `all` or `unique`."
+        )
+
     if w is None:
         w = np.ones_like(alpha)
 
@@ -1255,6 +1264,11 @@ def circ_median_ci(
     Implementation of section 4.4.2 (Fisher,1993)
     """
 
+    if method not in ("count", "deviation", "none", None):
+        raise ValueError(
+            f"Method `{method}` for `circ_median_ci` is not supported.\nTry `deviation` or `count`"
+        )
+
     if median is None:
         if alpha is None:
             raise ValueError("If `median` is None, then `alpha` is needed.")
@@ -1752,7 +1766,7 @@ def circ_quantile(
     probs : float or np.ndarray, optional
         Probabilities at which to compute quantiles. Default is `[0, 0.25, 0.5, 0.75, 1.0]`.
     type : int, optional
-        Quantile algorithm type (default `7`, matches R’s default quantile type).
+        Quantile algorithm type, 1 to 9 (default `7`, matches R’s default quantile type).
 
     Returns
     -------
@@ -1765,6 +1779,21 @@ def circ_quantile(
     - Fisher (1993), Section 2.3.2.
     """
 
+    # numpy equivalents of R's nine quantile types
+    quantile_methods = {
+        1: "inverted_cdf",
+        2: "averaged_inverted_cdf",
+        3: "closest_observation",
+        4: "interpolated_inverted_cdf",
+        5: "hazen",
+        6: "weibull",
+        7: "linear",
+        8: "median_unbiased",
+        9: "normal_unbiased",
+    }
+    if type not in quantile_methods:
+        raise ValueError("`type` must be one of the quantile types 1 to 9.")
+
     # Convert to numpy array
     alpha = np.asarray(alpha)
     probs = np.atleast_1d(probs)
@@ -1784,7 +1813,7 @@ def circ_quantile(
 
     # Compute linear quantiles on transformed data
     linear_quantiles = np.quantile(
-        shifted_alpha, probs, method="linear" if type == 7 else "midpoint"
+        shifted_alpha, probs, method=quantile_methods[type]
     )
 
     # Transform back to original circular space
-- 
2.43.0


From f416ea139a61275d469678e60f523b9e6b5e92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:09 +0000
Subject: [PATCH 06/47] fix: clustering predict methods, CircKMeans and MoCD
 reject unknown units, metrics and fit methods

---
 pycircstat2/clustering.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 79063f8..a359b21 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -19,6 +19,14 @@ ALLOWED_MOCD_DISTRIBUTIONS = {
 }
 
 
+def _resolve_unit(unit, default):
+    """Unit of the data passed to a query: the given one, or the model's own."""
+    unit = default if unit is None else unit
+    if unit not in {"degree", "radian"}:
+        raise ValueError("`unit` must be either 'degree' or 'radian'.")
+    return unit
+
+
 class MovM:
     """
     Mixture of von Mises (MovM) Clustering.
@@ -383,7 +391,7 @@ class MovM:
         if self.p_ is None or self.kappa_ is None or self.m_ is None:
             raise ValueError("Model must be fitted before calling predict_density().")
 
-        unit = self.unit if unit is None else unit
+        unit = _resolve_unit(unit, self.unit)
         full_cycle = self.full_cycle if full_cycle is None else full_cycle
 
         if x is None:
@@ -413,7 +421,7 @@ class MovM:
         if self.p_ is None or self.kappa_ is None or self.m_ is None:
             raise ValueError("Model must be fitted before calling predict_proba().")
 
-        unit = self.unit if unit is None else unit
+        unit = _resolve_unit(unit, self.unit)
         full_cycle = self.full_cycle if full_cycle is None else full_cycle
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
@@ -842,7 +850,7 @@ class MoKJ:
         """
         if self.p_ is None:
             raise ValueError("Model must be fitted before calling predict_proba().")
-        unit = self.unit if unit is None else unit
+        unit = _resolve_unit(unit, self.unit)
         full_cycle = self.full_cycle if full_cycle is None else full_cycle
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
@@ -870,7 +878,7 @@ class MoKJ:
         """
         if self.p_ is None:
             raise ValueError("Model must be fitted before calling predict_density().")
-        unit = self.unit if unit is None else unit
+        unit = _resolve_unit(unit, self.unit)
         full_cycle = self.full_cycle if full_cycle is None else full_cycle
 
         if x is None:
@@ -986,7 +994,7 @@ class MoCD:
         self.param_names = inferred_names
         if "method" in self.fit_kwargs:
             method_value = self.fit_kwargs.pop("method")
-            self._method_candidates = [str(method_value).lower()]
+            self._method_candidates = [self._check_fit_method(method_value)]
         else:
             self._method_candidates = self._normalise_fit_method(fit_method)
 
@@ -1019,12 +1027,19 @@ class MoCD:
         if isinstance(fit_method, (list, tuple)):
             if not fit_method:
                 return [None]
-            return [None if m is None else str(m).lower() for m in fit_method]
+            return [None if m is None else self._check_fit_method(m) for m in fit_method]
 
         method_str = str(fit_method).lower()
         if method_str == "auto":
             return ["moments", "mle"]
-        return [method_str]
+        return [self._check_fit_method(method_str)]
+
+    @staticmethod
+    def _check_fit_method(method: object) -> str:
+        method_str = str(method).lower()
+        if method_str not in {"moments", "mle", "analytical", "numerical"}:
+            raise ValueError("`fit_method` must be 'auto', 'moments' or 'mle'.")
+        return method_str
 
     # ------------------------------------------------------------------ #
     # Helper utilities
@@ -1233,7 +1248,7 @@ class MoCD:
         if self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before calling `predict_density`.")
 
-        unit = self.unit if unit is None else unit
+        unit = _resolve_unit(unit, self.unit)
         full_cycle = self.full_cycle if full_cycle is None else full_cycle
 
         if X is None:
@@ -1645,6 +1660,12 @@ class CircKMeans:
         tol=1e-6,
         random_seed=None
     ):
+        if unit not in {"degree", "radian"}:
+            raise ValueError("`unit` must be either 'degree' or 'radian'.")
+        valid_metrics = {"center", "geodesic", "angularseparation", "chord"}
+        if metric not in valid_metrics:
+            raise ValueError(f"`metric` must be one of {valid_metrics}.")
+
         self.n_clusters = n_clusters
         self.max_iter = max_iter
         self.metric = metric
-- 
2.43.0


From 436f06a54cd2b6d768e61366af890c17104b185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:55 +0000
Subject: [PATCH 07/47] fix: triangular.fit rejects an unknown method instead
 of running the mle

---
 pycircstat2/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 636a90c..c1e8533 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1192,6 +1192,9 @@ class triangular_gen(CircularContinuous):
         The MLE solves a strictly monotone score equation, so bracketing root-finding
         is robust and $O(n)$ per evaluation.
         """
+        if method not in ("mle", "moments"):
+            raise ValueError("method must be 'mle' or 'moments'.")
+
         x = np.asarray(data, dtype=float)
         x = np.mod(x, 2*np.pi)
 
-- 
2.43.0


From 654c8d522b95f77bdc7d109c6761e738675d511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 08/47] fix: Circular rejects an unknown mean confidence
 interval method on every sample

---
 pycircstat2/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index b1e4de1..5f55b9a 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -252,6 +252,10 @@ class Circular:
             self.method_mean_ci = method_mean_ci = kwargs_mean_ci.get(
                 "method", "bootstrap"
             )
+            if method_mean_ci not in (None, "approximate", "bootstrap", "dispersion"):
+                raise ValueError(
+                    f"Method `{method_mean_ci}` for `circ_mean_ci` is not supported."
+                )
             self.mean_ci_level = mean_ci_level = 0.95
 
         if method_mean_ci is not None and mean_pval < 0.05:
-- 
2.43.0


From ca919c2d584351c7ef8300f5081cef2070460b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 09/47] fix: rvs of triangular, cardioid, cartwright, wrapnorm,
 wrapcauchy and vonmises validates its parameters

---
 pycircstat2/distributions.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c1e8533..7365d18 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -267,6 +267,14 @@ class CircularContinuous(rv_continuous):
 
         return generator
 
+    def _rvs_checked(self, *shapes, size=None, random_state=None):
+        """Draw variates after validating the shape parameters (as SciPy's ``rvs`` does)."""
+        if not np.all(self._argcheck(*shapes)):
+            raise ValueError(
+                f"{self._dist_name('rvs')}: shape parameters are outside their domain."
+            )
+        return self._rvs(*shapes, size=size, random_state=random_state)
+
     def _prepare_call_kwargs(self, kwargs, caller):
         if not kwargs:
             return {}
@@ -1150,7 +1158,7 @@ class triangular_gen(CircularContinuous):
         rho_val = getattr(self, "rho", None) if rho is None else rho
         if rho_val is None:
             raise ValueError("'rho' must be provided.")
-        return self._rvs(rho_val, size=size, random_state=random_state)
+        return self._rvs_checked(rho_val, size=size, random_state=random_state)
 
     def fit(self, data, *, weights=None, method="mle", return_info=False):
         r"""
@@ -1590,7 +1598,7 @@ class cardioid_gen(CircularContinuous):
         if mu_val is None or rho_val is None:
             raise ValueError("Both 'mu' and 'rho' must be provided.")
 
-        return self._rvs(mu_val, rho_val, size=size, random_state=random_state)
+        return self._rvs_checked(mu_val, rho_val, size=size, random_state=random_state)
 
     def fit(
         self,
@@ -2097,7 +2105,7 @@ class cartwright_gen(CircularContinuous):
         if mu_val is None or zeta_val is None:
             raise ValueError("Both 'mu' and 'zeta' must be provided.")
 
-        return self._rvs(mu_val, zeta_val, size=size, random_state=random_state)
+        return self._rvs_checked(mu_val, zeta_val, size=size, random_state=random_state)
 
     def fit(
         self,
@@ -2655,7 +2663,7 @@ class wrapnorm_gen(CircularContinuous):
         if mu_val is None or rho_val is None:
             raise ValueError("Both 'mu' and 'rho' must be provided.")
 
-        return self._rvs(mu_val, rho_val, size=size, random_state=random_state)
+        return self._rvs_checked(mu_val, rho_val, size=size, random_state=random_state)
 
     def fit(
         self,
@@ -3127,7 +3135,7 @@ class wrapcauchy_gen(CircularContinuous):
         if mu_val is None or rho_val is None:
             raise ValueError("Both 'mu' and 'rho' must be provided.")
 
-        return self._rvs(mu_val, rho_val, size=size, random_state=random_state)
+        return self._rvs_checked(mu_val, rho_val, size=size, random_state=random_state)
 
     def fit(
         self,
@@ -3687,7 +3695,7 @@ class vonmises_gen(CircularContinuous):
             raise ValueError("Both 'mu' and 'kappa' must be provided.")
 
         # Call the private _rvs method
-        return self._rvs(mu, kappa, size=size, random_state=random_state)
+        return self._rvs_checked(mu, kappa, size=size, random_state=random_state)
 
     def support(self, *args, **kwargs):
         return (0, 2 * np.pi)
-- 
2.43.0


From 31eac5a68cf9c7d3d96bf9a12a221e826471a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 10/47] fix: vonmises.rvs takes mu and kappa positionally like
 every other distribution, so frozen sampling works

---
 pycircstat2/distributions.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7365d18..a9b35fd 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3666,12 +3666,18 @@ class vonmises_gen(CircularContinuous):
             return float(samples[0])
         return samples.reshape(target_shape)
 
-    def rvs(self, size=None, random_state=None, *args, **kwargs):
+    def rvs(self, mu=None, kappa=None, size=None, random_state=None):
         """
         Draw random variates.
 
         Parameters
         ----------
+        mu : float, optional
+            Mean direction, ``0 <= mu <= 2*pi``. Supply explicitly or by
+            freezing the distribution.
+        kappa : float, optional
+            Concentration parameter, ``kappa > 0``. Supply explicitly or by
+            freezing the distribution.
         size : int or tuple, optional
             Number of samples to generate.
         random_state : RandomState, optional
@@ -3682,20 +3688,14 @@ class vonmises_gen(CircularContinuous):
         samples : ndarray
             Random variates.
         """
-        # Check if instance-level parameters are set
-        mu = getattr(self, "mu", None)
-        kappa = getattr(self, "kappa", None)
-
-        # Override instance parameters if provided in args/kwargs
-        mu = kwargs.pop("mu", mu)
-        kappa = kwargs.pop("kappa", kappa)
+        mu_val = getattr(self, "mu", None) if mu is None else mu
+        kappa_val = getattr(self, "kappa", None) if kappa is None else kappa
 
         # Ensure required parameters are provided
-        if mu is None or kappa is None:
+        if mu_val is None or kappa_val is None:
             raise ValueError("Both 'mu' and 'kappa' must be provided.")
 
-        # Call the private _rvs method
-        return self._rvs_checked(mu, kappa, size=size, random_state=random_state)
+        return self._rvs_checked(mu_val, kappa_val, size=size, random_state=random_state)
 
     def support(self, *args, **kwargs):
         return (0, 2 * np.pi)
-- 
2.43.0


From 8f7cacb2b581c31dbac3f97f28de6c8fac0850cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:13 +0000
Subject: [PATCH 11/47] fix: ppf of cardioid, cartwright, wrapnorm, wrapcauchy
 and vonmises rejects array parameters instead of using the first element

---
 pycircstat2/distributions.py | 43 +++++++++++++++---------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a9b35fd..99c6c8b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -103,6 +103,14 @@ OPTIMIZERS = [
 ]
 
 
+def _single_parameter(value, name):
+    """Return the one value of a shape parameter (SciPy repeats it once per evaluated point)."""
+    unique = np.unique(np.asarray(value, dtype=float))
+    if unique.size != 1:
+        raise ValueError(f"Parameter `{name}` must be scalar-valued.")
+    return float(unique[0])
+
+
 class CircularContinuous(rv_continuous):
     """
     Base class for circular distributions with fixed loc=0 and scale=1.
@@ -1474,11 +1482,8 @@ class cardioid_gen(CircularContinuous):
         return result
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_single_parameter(mu, "mu"), 2.0 * np.pi))
+        rho_val = _single_parameter(rho, "rho")
         if not (0.0 <= rho_val <= 0.5):
             raise ValueError("`rho` must lie in [0, 0.5].")
 
@@ -1929,11 +1934,8 @@ class cartwright_gen(CircularContinuous):
         return super().cdf(x, mu, zeta, *args, **kwargs)
 
     def _ppf(self, q, mu, zeta):
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_single_parameter(mu, "mu"), 2.0 * np.pi))
+        zeta_val = _single_parameter(zeta, "zeta")
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2454,11 +2456,8 @@ class wrapnorm_gen(CircularContinuous):
         return super().cdf(x, mu, rho, *args, **kwargs)
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_single_parameter(mu, "mu"), 2.0 * np.pi))
+        rho_val = _single_parameter(rho, "rho")
         two_pi = 2.0 * np.pi
 
         q_arr = np.asarray(q, dtype=float)
@@ -2989,11 +2988,8 @@ class wrapcauchy_gen(CircularContinuous):
         return float(H) if np.isscalar(phi) else H
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_single_parameter(mu, "mu"), 2.0 * np.pi))
+        rho_val = _single_parameter(rho, "rho")
         if not (0.0 <= rho_val < 1.0):
             raise ValueError("`rho` must lie in [0, 1).")
 
@@ -3496,11 +3492,8 @@ class vonmises_gen(CircularContinuous):
         return super().cdf(x, mu, kappa, *args, **kwargs)
 
     def _ppf(self, q, mu, kappa):
-        mu_arr = np.asarray(mu, dtype=float)
-        kappa_arr = np.asarray(kappa, dtype=float)
-        
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        kappa_val = float(kappa_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_single_parameter(mu, "mu"), 2.0 * np.pi))
+        kappa_val = _single_parameter(kappa, "kappa")
         if kappa_val < 0.0:
             raise ValueError("`kappa` must be non-negative.")
 
-- 
2.43.0


From f97d969ceeed0fda1db8faa5d7b28ec5dbd365b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:43 +0000
Subject: [PATCH 12/47] fix: katojones.fit reports the optimizer that produced
 the estimate after falling back to Powell

---
 pycircstat2/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 99c6c8b..bab0cea 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8767,6 +8767,7 @@ class katojones_gen(CircularContinuous):
             (0.0, 2.0 * np.pi),
         ]
 
+        optimizer_used = optimizer
         result = minimize(
             objective,
             x0,
@@ -8789,6 +8790,7 @@ class katojones_gen(CircularContinuous):
                 )
                 if fallback_result.success:
                     result = fallback_result
+                    optimizer_used = fallback_method
             if not result.success:
                 raise RuntimeError(f"Maximum likelihood fit failed: {result.message}")
 
@@ -8808,7 +8810,7 @@ class katojones_gen(CircularContinuous):
                 "loglik": float(-final_nll),
                 "n_effective": n_eff,
                 "nit": getattr(result, "nit", None),
-                "optimizer": optimizer,
+                "optimizer": optimizer_used,
                 "initial": initial,
             }
             return estimates, info
-- 
2.43.0


From ca9057da065e4d0cb17623c9b313a26e93ab1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:38 +0000
Subject: [PATCH 13/47] fix: circular correlations report the mean p-values of
 Circular inputs again

---
 pycircstat2/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 535fb87..983a8f4 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -95,7 +95,7 @@ def _coerce_angles(
     """Return angle array (in radians) and mean p-value if available."""
 
     if isinstance(data, Circular):
-        return np.asarray(data.alpha, dtype=float), getattr(data, "mean_pval", None)
+        return np.asarray(data.alpha, dtype=float), float(data.mean_test_result.pval)
 
     array = np.asarray(data, dtype=float)
     if array.ndim == 0:
-- 
2.43.0


From f9568526bf10353782bad57039e213ac33478fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:38 +0000
Subject: [PATCH 14/47] fix: Circular always has median_lb, median_ub,
 median_ci_level and mixture_opt

---
 pycircstat2/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 5f55b9a..a36fe98 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -291,6 +291,7 @@ class Circular:
 
         # confidence inerval for angular median (only for ungrouped data)
         # it's unclear how to do it for grouped data.
+        self.median_lb = self.median_ub = self.median_ci_level = np.nan
         if not grouped and not np.isnan(median):
             self.median_lb, self.median_ub, self.median_ci_level = circ_median_ci(
                 median=float(median), alpha=alpha
@@ -301,6 +302,7 @@ class Circular:
 
         # check multimodality
         self.mixtures = []
+        self.mixture_opt = None
         if n_clusters_max > 1:
             for k in range(1, n_clusters_max + 1):
                 m = MovM(
-- 
2.43.0


From fd4dc796a1e46809c11823b97e75b02a38231c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:38 +0000
Subject: [PATCH 15/47] fix: circ_plot of grouped data with a density reads the
 configured radius limit and explains a missing mixture model

---
 pycircstat2/visualization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index da705cf..5d9ddd0 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -274,6 +274,10 @@ def circ_plot(
 
                 elif density_method == "MovM":
 
+                    if circ_data.mixture_opt is None:
+                        raise ValueError(
+                            "The `MovM` density needs a mixture model; create the data with `n_clusters_max > 1`."
+                        )
                     x = np.linspace(0, 2 * np.pi, 100)
                     f = circ_data.mixture_opt.predict_density(x=x, unit="radian")
 
@@ -355,12 +359,16 @@ def circ_plot(
 
         if circ_data.grouped and config["density"]:
             x = np.linspace(0, 2 * np.pi, 100)
+            if circ_data.mixture_opt is None:
+                raise ValueError(
+                    "The density of grouped data needs a mixture model; create the data with `n_clusters_max > 1`."
+                )
             f = circ_data.mixture_opt.predict_density(x=x, unit="radian") + 1
             ax.plot(x, f, color="black", linestyle="-")
-            if config["rlim_max"] is None:
+            if config["radius"]["lim_max"] is None:
                 ax.set_ylim(0, f.max())
             else:
-                ax.set_ylim(0, config["rlim_max"])
+                ax.set_ylim(0, config["radius"]["lim_max"])
     else:
         w = circ_data.w
         config["radius"]["ticks"] = [1]  # overwrite
-- 
2.43.0


From b78706d361daa1a0d57715659c45d7743dc07b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 16/47] fix: inverse_batschelet no longer overwrites the shared
 (kappa, lambda) normalizer with one that depends on nu and the grid

---
 pycircstat2/distributions.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index bab0cea..84860f5 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7265,8 +7265,6 @@ class inverse_batschelet_gen(CircularContinuous):
         )
         if not np.isfinite(normalizer) or normalizer <= 0.0:
             normalizer = _c_invbatschelet_numeric(kappa, lmbd, grid_size=_INVBAT_NUMERIC_GRID)
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = normalizer
 
         log_norm = np.log(normalizer)
         log_pdf = log_norm + log_kernel
@@ -7285,8 +7283,6 @@ class inverse_batschelet_gen(CircularContinuous):
             pdf *= scale
             log_norm += np.log(scale)
             mass = 1.0
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = np.exp(log_norm)
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
-- 
2.43.0


From 2aad4032df24e3a2eca703f71a8b43e897170afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 17/47] fix: wrapnorm.fit sizes its series window from the
 parameters alone, not from earlier fits

---
 pycircstat2/distributions.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 84860f5..ea30ef5 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2730,21 +2730,8 @@ class wrapnorm_gen(CircularContinuous):
                 return np.full_like(x, -np.log(2.0 * np.pi), dtype=float)
 
             two_pi = 2.0 * np.pi
-            cache = getattr(self, "_series_window_cache", None)
-            if cache is None:
-                cache = {}
-                self._series_window_cache = cache
-
-            mu_norm = float(np.mod(mu_param, two_pi))
-            mu_bucket = int(round(mu_norm / two_pi * 512)) % 512
-            rho_bucket = int(round(min(4095.0, -np.log1p(-rho_val) * 64.0)))
-            key = (mu_bucket, rho_bucket)
-
             max_cap = 256
-            max_k = cache.get(
-                key,
-                max(5, int(np.ceil(3.0 * sigma / two_pi)) + 5),
-            )
+            max_k = max(5, int(np.ceil(3.0 * sigma / two_pi)) + 5)
 
             tail_tol = 1e-10
             while True:
@@ -2761,7 +2748,6 @@ class wrapnorm_gen(CircularContinuous):
                     np.max(shifted[:, (0, -1)] / np.maximum(sum_exp[:, None], 1e-300))
                 )
                 if tail_contrib <= tail_tol or max_k >= max_cap:
-                    cache[key] = max_k
                     return log_pdf.astype(float, copy=False)
 
                 max_k = min(max_cap, max_k + 2)
-- 
2.43.0


From cab39620c70e25b398ca588dbb31f7eb2bebb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:38 +0000
Subject: [PATCH 18/47] fix: refitting MovM, MoKJ, MoCD or CircHAC starts from
 the seed and clears the convergence flags

---
 pycircstat2/clustering.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index a359b21..0057d11 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -113,6 +113,7 @@ class MovM:
         self.n_iters = n_iters
         self.full_cycle = full_cycle
         self.unit = unit
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         self.converged = False
@@ -207,6 +208,9 @@ class MovM:
             raise ValueError("Input data must contain at least one observation.")
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
+        self._rng = np.random.default_rng(self.random_seed)
+        self.converged = False
+        self.converged_iters = None
         self.data = X
         self.alpha = alpha
         self.n = n = alpha.size
@@ -548,6 +552,7 @@ class MoKJ:
         self.n_iters = n_iters
         self.full_cycle = full_cycle
         self.unit = unit
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         self.mle_maxiter = int(mle_maxiter)
@@ -718,6 +723,9 @@ class MoKJ:
             raise ValueError("Input data must contain at least one observation.")
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
+        self._rng = np.random.default_rng(self.random_seed)
+        self.converged = False
+        self.converged_iters = None
         self.data = X
         self.alpha = alpha
         self.n = n = alpha.size
@@ -969,6 +977,7 @@ class MoCD:
         self.unit = unit
         self.full_cycle = full_cycle
         self.fit_kwargs = {} if fit_kwargs is None else dict(fit_kwargs)
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         fit_signature = inspect.signature(self.distribution.fit)
@@ -1149,6 +1158,9 @@ class MoCD:
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
+        self._rng = np.random.default_rng(self.random_seed)
+        self.converged = False
+        self.converged_iters = None
         self.data = X
         self.alpha = alpha
         self.n = alpha.size
@@ -1353,6 +1365,7 @@ class CircHAC:
         self.unit = unit
         self.full_cycle = full_cycle
         self.metric = metric
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         self.centers_: Optional[np.ndarray] = None
@@ -1409,6 +1422,7 @@ class CircHAC:
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
         self.alpha = alpha
+        self._rng = np.random.default_rng(self.random_seed)
 
         n = alpha.size
         if n <= self.n_clusters:
-- 
2.43.0


From f24bd0ff12e474b6b7e6a7652a7d6aee373c3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:32 +0000
Subject: [PATCH 19/47] fix: circ_median and circ_median_ci reduce the angles
 to one turn before ordering them

---
 pycircstat2/descriptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 0edb289..62fc9b9 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -581,6 +581,7 @@ def circ_median(
             f"Average method `{average_method}` is not supported.\nTry `all` or `unique`."
         )
 
+    alpha = np.mod(alpha, 2 * np.pi)
     if w is None:
         w = np.ones_like(alpha)
 
@@ -1282,7 +1283,7 @@ def circ_median_ci(
         )
 
     n = len(alpha)
-    alpha = np.sort(alpha)
+    alpha = np.sort(np.mod(alpha, 2 * np.pi))
 
     if n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
-- 
2.43.0


From eb1a2b2176e05860fe6fffbcab9a6e0bc4f0bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:32 +0000
Subject: [PATCH 20/47] fix: angular distances in circ_mean_deviation,
 circ_dist and the density estimate reduce the angles first

---
 pycircstat2/descriptive.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 62fc9b9..30e6ba6 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -775,8 +775,8 @@ def circ_mean_deviation_chunked(
     if chunk_size <= 0:
         raise ValueError("`chunk_size` must be a positive integer.")
 
-    alpha_arr = np.atleast_1d(np.asarray(alpha, dtype=float))
-    beta_arr = np.atleast_1d(np.asarray(beta, dtype=float))
+    alpha_arr = np.mod(np.atleast_1d(np.asarray(alpha, dtype=float)), 2 * np.pi)
+    beta_arr = np.mod(np.atleast_1d(np.asarray(beta, dtype=float)), 2 * np.pi)
 
     result = np.empty(beta_arr.size, dtype=float)
 
@@ -829,8 +829,8 @@ def circ_mean_deviation(
     ----
     eq 2.32, Section 2.3.2, Fisher (1993)
     """
-    alpha_arr = np.atleast_1d(np.asarray(alpha, dtype=float))
-    beta_arr = np.atleast_1d(np.asarray(beta, dtype=float))
+    alpha_arr = np.mod(np.atleast_1d(np.asarray(alpha, dtype=float)), 2 * np.pi)
+    beta_arr = np.mod(np.atleast_1d(np.asarray(beta, dtype=float)), 2 * np.pi)
 
     mean_dist = np.mean(
         np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None])),
@@ -1477,7 +1477,9 @@ def circ_dist(
         distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
 
     elif metric == "geodesic":
-        distances = np.pi - np.abs(np.pi - np.abs(x - y))
+        distances = np.pi - np.abs(
+            np.pi - np.abs(np.mod(x, 2 * np.pi) - np.mod(y, 2 * np.pi))
+        )
 
     elif metric == "angularseparation":
         distances = 1 - np.cos(x - y)
@@ -1708,7 +1710,7 @@ def nonparametric_density_estimation(
     """
 
     # vectorized version of step 3
-    a = np.asarray(alpha, dtype=float)
+    a = np.mod(np.asarray(alpha, dtype=float), 2 * np.pi)
     n = len(a)
     x = np.linspace(0, 2 * np.pi, 100)
     d = np.abs(x[:, None] - a)
-- 
2.43.0


From 36adf11d7dc0550a2721ca4c1f41044903b0ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:32 +0000
Subject: [PATCH 21/47] fix: grouped statistics take the bin width from the
 sorted angles

---
 pycircstat2/descriptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 30e6ba6..f5ee56a 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -476,7 +476,7 @@ def circ_var(
     if bin_size is None and w is not None and not np.all(w == w[0]):
         if alpha is None:
             raise ValueError("If `bin_size` is None but `w` is provided, `alpha` must be given.")
-        bin_size = float(np.diff(alpha).min())
+        bin_size = float(np.diff(np.sort(np.mod(alpha, 2 * np.pi))).min())
 
     # Correct `r` if binning is applied
     rc = r if bin_size is None or bin_size == 0 else r * (bin_size / (2 * np.sin(bin_size / 2)))
@@ -630,6 +630,8 @@ def _circ_median_grouped(
     w: np.ndarray,
 ) -> Union[float, np.ndarray]:
     n = np.sum(w)  # sample size
+    order = np.argsort(alpha)
+    alpha, w = alpha[order], w[order]
     n_bins = len(alpha)  # number of intervals
     bin_size = np.diff(alpha).min()
 
-- 
2.43.0


From 42213789efba711db362321ba04b39ee092fa764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 22/47] fix: watson_u2_test and wheeler_watson_test order the
 angles within one turn

---
 pycircstat2/hypothesis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index a88ada7..ad5c2a9 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1104,7 +1104,7 @@ def watson_u2_test(
         raise ValueError("`watson_u2_test` requires exactly two samples.")
 
     def cumfreq(alpha_unique: np.ndarray, sample: _CircularSample) -> np.ndarray:
-        expanded = sample.expand()
+        expanded = np.sort(np.mod(sample.expand(), 2 * np.pi))
         if expanded.size == 0:
             raise ValueError("Each sample must contain at least one observation.")
 
@@ -1118,7 +1118,7 @@ def watson_u2_test(
         tiles = np.diff(idx)
         return np.repeat(freq_cumsum, tiles)
 
-    expanded_samples = [sample.expand() for sample in normalized]
+    expanded_samples = [np.mod(sample.expand(), 2 * np.pi) for sample in normalized]
     a, t = np.unique(np.hstack(expanded_samples), return_counts=True)
     cfs = [cumfreq(a, sample) for sample in normalized]
     d = np.diff(cfs, axis=0)
@@ -1183,14 +1183,14 @@ def wheeler_watson_test(
     normalized = _coerce_circular_samples(samples)
 
     def get_circrank(alpha: np.ndarray, sample: _CircularSample, N: int) -> np.ndarray:
-        expanded = sample.expand()
+        expanded = np.mod(sample.expand(), 2 * np.pi)
         rank_of_direction = (
             np.squeeze([np.where(np.isclose(alpha, value))[0] for value in expanded]) + 1
         )
         return 2 * np.pi / N * rank_of_direction
 
     N = sum(sample.n for sample in normalized)
-    expanded_samples = [sample.expand() for sample in normalized]
+    expanded_samples = [np.mod(sample.expand(), 2 * np.pi) for sample in normalized]
     a, _ = np.unique(np.hstack(expanded_samples), return_counts=True)
 
     circ_ranks = [get_circrank(a, sample, N) for sample in normalized]
-- 
2.43.0


From 81a0f9c93fe883450c6d90bccd73af9bb78438b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 23/47] fix: kuiper_test, watson_test and rao_spacing_test
 reduce the angles to one turn

---
 pycircstat2/hypothesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index ad5c2a9..2a58a5e 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1620,7 +1620,7 @@ def kuiper_test(
         raise ValueError("`alpha` must contain at least one angle.")
 
     def compute_V(sample):
-        ordered = np.sort(sample) / (2 * np.pi)
+        ordered = np.sort(np.mod(sample, 2 * np.pi)) / (2 * np.pi)
         n = ordered.size
         indices = np.arange(1, n + 1, dtype=float)
 
@@ -1728,7 +1728,7 @@ def watson_test(
         raise ValueError("`alpha` must contain at least one angle.")
 
     def compute_U2(sample):
-        ordered = np.sort(sample)
+        ordered = np.sort(np.mod(sample, 2 * np.pi))
         n = ordered.size
         indices = np.arange(1, n + 1, dtype=float)
 
@@ -1826,7 +1826,7 @@ def rao_spacing_test(
         raise ValueError("`alpha` must contain at least one angle.")
 
     def compute_U(sample):
-        ordered = np.sort(sample)
+        ordered = np.sort(np.mod(sample, 2 * np.pi))
         n_local = ordered.size
         spacings = np.hstack([ordered[1:] - ordered[:-1], 2 * np.pi - ordered[-1] + ordered[0]])
         return 0.5 * np.sum(np.abs(spacings - (2 * np.pi / n_local)))
-- 
2.43.0


From 5d0bdc4b976a760583f2e6e741ca18ac98bb4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 24/47] fix: the nonparametric circular correlation ranks the
 angles within one turn

---
 pycircstat2/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 983a8f4..54623d1 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -261,8 +261,8 @@ def _circ_corrcc_np(
         raise ValueError("At least three paired observations are required for the nonparametric test.")
     C = 2 * np.pi / n
 
-    rank_a = rankdata(a_alpha)
-    rank_b = rankdata(b_alpha)
+    rank_a = rankdata(np.mod(a_alpha, 2 * np.pi))
+    rank_b = rankdata(np.mod(b_alpha, 2 * np.pi))
     rank_diff = rank_a - rank_b
     rank_sum = rank_a + rank_b
 
-- 
2.43.0


From e344553665d3ce005280d972fda7d230a7277fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 25/47] fix: Circular bins its data, and finds the width of
 given bins, within one turn

---
 pycircstat2/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index a36fe98..5524b17 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -201,7 +201,9 @@ class Circular:
                 ), "Grouped data should included empty bins."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
-                self.bin_size = bin_size = np.diff(alpha).min()
+                self.bin_size = bin_size = np.diff(
+                    np.sort(np.mod(alpha, 2 * np.pi))
+                ).min()
                 self.alpha_lb = alpha - bin_size / 2
                 self.alpha_ub = alpha + bin_size / 2
 
@@ -209,7 +211,7 @@ class Circular:
         else:
             if isinstance(bins, int) or isinstance(bins, np.ndarray):
                 w, alpha = np.histogram(
-                    alpha, bins=bins, range=(0, 2 * np.pi)
+                    np.mod(alpha, 2 * np.pi), bins=bins, range=(0, 2 * np.pi)
                 )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
-- 
2.43.0


From d74d616cb55ef6477b66d2e390eb2f25f66f1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 26/47] fix: CircKMeans and CircHAC centres lie within one turn
 also when they are copied observations

---
 pycircstat2/clustering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 0057d11..d5fb5cf 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1427,7 +1427,7 @@ class CircHAC:
         n = alpha.size
         if n <= self.n_clusters:
             self.labels_ = np.arange(n, dtype=int)
-            self.centers_ = alpha.copy()
+            self.centers_ = np.mod(alpha, 2 * np.pi)
             self.r_ = np.ones(n, dtype=float)
             self.merges_ = np.empty((0, 4), dtype=float)
             return self
@@ -1717,13 +1717,13 @@ class CircKMeans:
         if n_samples < self.n_clusters:
             # trivial: each point is its own cluster
             self.labels_ = np.arange(n_samples)
-            self.centers_ = alpha.copy()
+            self.centers_ = np.mod(alpha, 2 * np.pi)
             self.inertia_ = 0.0
             return self
 
         # 1) initialize cluster centers by picking random points from data
         init_indices = rng.choice(n_samples, size=self.n_clusters, replace=False)
-        centers = alpha[init_indices]
+        centers = np.mod(alpha[init_indices], 2 * np.pi)
 
         labels = np.zeros(n_samples, dtype=int)
         for iteration in range(self.max_iter):
-- 
2.43.0


From 04bb67eea3dae07e4df62c874b0b269897eed76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 27/47] fix: rayleigh_test never reports a p-value above one

---
 pycircstat2/hypothesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 2a58a5e..ca8e776 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -476,6 +476,7 @@ def rayleigh_test(
     z = n * r**2  # eq(27.2)
 
     pval = np.exp(np.sqrt(1 + 4 * n + 4 * (n**2 - R**2)) - (1 + 2 * n))  # eq(27.4)
+    pval = min(pval, 1.0)
 
     bootstrap_pval: Optional[float]
     if seed is True:
-- 
2.43.0


From 0df96cc07af489fef186c2c2d3bf60159f61571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 28/47] fix: watson_u2_test caps its asymptotic p-value at one

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index ca8e776..a0247ab 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1130,7 +1130,7 @@ def watson_u2_test(
         / N**2
         * (np.sum(t * d**2) - np.sum(t * d) ** 2 / N)
     )
-    pval = 2 * np.exp(-19.74 * U2)
+    pval = min(2 * np.exp(-19.74 * U2), 1.0)
     # Approximated P-value from Watson (1961)
     # https://github.com/pierremegevand/watsons_u2/blob/master/watsons_U2_approx_p.m
 
-- 
2.43.0


From 36d905dbf17e3d02b47e5bb0e7a868db8aa7a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 29/47] fix: kuiper_test caps its asymptotic p-value

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index a0247ab..4395335 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1651,7 +1651,7 @@ def kuiper_test(
         a2 = np.exp(-2 * m * Vo**2)
         b1 = 2 * (a1 - 1) * a2
         b2 = 8 * Vo / (3 * f) * m * (a1 - 3) * a2
-        pval = float(np.sum(b1 - b2))
+        pval = float(np.clip(np.sum(b1 - b2), 0.0, 1.0))
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 7739c53528bcd4858fa7a23059d2346e1c464570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 30/47] fix: watson_test caps its asymptotic p-value

---
 pycircstat2/hypothesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 4395335..4b67235 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1753,6 +1753,7 @@ def watson_test(
         mode = "asymptotic"
         m = np.arange(1, 51)
         pval = float(2 * sum((-1) ** (m - 1) * np.exp(-2 * m**2 * np.pi**2 * U2o)))
+        pval = min(max(pval, 0.0), 1.0)
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 4a31193a7174596e885969d4752c097e492cd6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 31/47] fix: circ_range_test keeps its p-value within [0, 1]

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 4b67235..5cd1404 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1939,7 +1939,7 @@ def circ_range_test(alpha: np.ndarray, verbose: bool = False) -> CircularRangeTe
         * comb(n, index)
         * (1 - index * (1 - range_stat / (2 * np.pi))) ** (n - 1)
     )
-    p_value = float(np.sum(sequence))
+    p_value = float(np.clip(np.sum(sequence), 0.0, 1.0))
 
     result = CircularRangeTestResult(range_stat=float(range_stat), pval=float(p_value))
 
-- 
2.43.0


From 6cea5fdfc9c1e544eb494a91333a819ed7bdb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 32/47] fix: vonmises.mean and median return a direction within
 one turn

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ea30ef5..0458d7f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3689,7 +3689,7 @@ class vonmises_gen(CircularContinuous):
             The circular mean direction (in radians), equal to `mu`.
         """
         (mu, _) = self._parse_args(*args, **kwargs)[0]
-        return mu
+        return self._wrap_angles(mu)
 
     def median(self, *args, **kwargs):
         """
-- 
2.43.0


From c30de9f9b144e351efe3ec972f4ad035bd376e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 33/47] fix: CLRegression reports its mean direction and
 predictions within one turn

---
 pycircstat2/regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 53410f6..c1c7686 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -317,7 +317,7 @@ class CLRegression:
             "beta": beta,
             "alpha": alpha,
             "gamma": gamma,
-            "mu": mu,
+            "mu": np.mod(mu, 2 * np.pi),
             "kappa": kappa,
             "log_likelihood": log_likelihood,
         }
@@ -502,7 +502,7 @@ class CLRegression:
             raise ValueError("`X_new` contains non-finite values.")
 
         mu = self.result["mu"]
-        return mu + 2 * np.arctan(X_arr @ beta)
+        return np.mod(mu + 2 * np.arctan(X_arr @ beta), 2 * np.pi)
 
     def summary(self):
         if self.result is None:
-- 
2.43.0


From 31d127d8027638c8dacf4af682a2d4c5e1774c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 34/47] fix: the bootstrap interval of circ_mean_ci resamples
 weighted data by their frequencies

---
 pycircstat2/descriptive.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index f5ee56a..2fb833b 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -935,7 +935,9 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
-        (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci, seed=seed)
+        (lb, ub) = _circ_mean_ci_bootstrap(
+            alpha=_expand_frequencies(alpha, w), B=B, ci=ci, seed=seed
+        )
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
     elif method == "dispersion" and alpha is not None:
@@ -1106,6 +1108,17 @@ def _circ_mean_ci_approximate(
     return (lb, ub)
 
 
+def _expand_frequencies(alpha: np.ndarray, w: Optional[np.ndarray] = None) -> np.ndarray:
+    """Repeat each angle by its (integer) frequency."""
+    alpha_arr = np.atleast_1d(np.asarray(alpha, dtype=float))
+    if w is None:
+        return alpha_arr
+    counts = np.round(np.asarray(w, dtype=float)).astype(int)
+    if not np.allclose(w, counts) or np.any(counts < 0):
+        raise ValueError("`w` must contain non-negative integer frequencies.")
+    return np.repeat(alpha_arr, counts)
+
+
 def _circ_mean_ci_bootstrap(
     alpha: np.ndarray,
     B: int = 2000,
-- 
2.43.0


From 85c52ae8bcdf0c3be2c66a78089fb44482d94950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 35/47] fix: circ_median_ci counts weighted observations by
 their frequencies

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 2fb833b..41436cd 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1297,8 +1297,8 @@ def circ_median_ci(
             "`alpha` is needed for computing the confidence interval for circular median."
         )
 
+    alpha = np.sort(np.mod(_expand_frequencies(alpha, w), 2 * np.pi))
     n = len(alpha)
-    alpha = np.sort(np.mod(alpha, 2 * np.pi))
 
     if n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
-- 
2.43.0


From 460dac1fd8caa806b683be7d491c285ced303ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 36/47] fix: wallraff_test expands grouped samples by their
 frequencies

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 5cd1404..445bd05 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1270,7 +1270,7 @@ def wallraff_test(
         angles = angle_arr
 
     ns = [sample.n for sample in normalized]
-    distances = [angular_distance(normalized[i].alpha, angles[i]) for i in range(len(normalized))]
+    distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
     rs = rankdata(np.hstack(distances))
 
-- 
2.43.0


From e9ef67ed13ae2b681b8d30681e339735846f3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 37/47] fix: angular_randomisation_test expands grouped samples
 by their frequencies

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 445bd05..0100f16 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1485,7 +1485,7 @@ def angular_randomisation_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    sample_arrays = [np.asarray(sample.alpha, dtype=float) for sample in normalized]
+    sample_arrays = [np.asarray(sample.expand(), dtype=float) for sample in normalized]
     if any(arr.size == 0 for arr in sample_arrays):
         raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From b76a9736f1b22766fa0d2927a25fb593bdd749d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 38/47] fix: Circular counts weighted data by their weights
 when it bins them

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 5524b17..68edb27 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -211,7 +211,7 @@ class Circular:
         else:
             if isinstance(bins, int) or isinstance(bins, np.ndarray):
                 w, alpha = np.histogram(
-                    np.mod(alpha, 2 * np.pi), bins=bins, range=(0, 2 * np.pi)
+                    np.mod(alpha, 2 * np.pi), bins=bins, range=(0, 2 * np.pi), weights=w
                 )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
-- 
2.43.0


From bfd96c3c737839cfc65699483575054d7090a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 39/47] fix: circular correlations repeat weighted Circular
 inputs by their frequencies

---
 pycircstat2/correlation.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 54623d1..049a679 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -1,11 +1,11 @@
 from dataclasses import dataclass
-from typing import Optional, Sequence, Tuple, Union
+from typing import Any, Optional, Sequence, Tuple, Union
 
 import numpy as np
 from scipy.stats import chi2, norm, rankdata
 
 from .base import Circular
-from .descriptive import circ_mean
+from .descriptive import _expand_frequencies, circ_mean
 
 
 @dataclass
@@ -107,6 +107,22 @@ def _coerce_angles(
     return array, None
 
 
+def _expand_pairs(
+    a: Any, b: Any, a_values: np.ndarray, b_values: np.ndarray
+) -> Tuple[np.ndarray, np.ndarray]:
+    """Repeat paired values by the frequencies of weighted Circular inputs."""
+
+    w = a.w if isinstance(a, Circular) else None
+    if isinstance(b, Circular):
+        if w is None:
+            w = b.w
+        elif not np.array_equal(w, b.w):
+            raise ValueError("Paired samples must have the same weights.")
+    if w is None or np.all(np.asarray(w) == 1):
+        return a_values, b_values
+    return _expand_frequencies(a_values, w), _expand_frequencies(b_values, w)
+
+
 def _circ_corrcc_fl(
     a: Union[Circular, np.ndarray, Sequence[float]],
     b: Union[Circular, np.ndarray, Sequence[float]],
@@ -138,6 +154,7 @@ def _circ_corrcc_fl(
 
     if a_alpha.size != b_alpha.size:
         raise ValueError("`a` and `b` must have the same number of samples.")
+    a_alpha, b_alpha = _expand_pairs(a, b, a_alpha, b_alpha)
     if a_alpha.size < 2:
         raise ValueError("At least two paired observations are required.")
 
@@ -206,6 +223,7 @@ def _circ_corrcc_js(
 
     if a_alpha.size != b_alpha.size:
         raise ValueError("`a` and `b` must have the same number of samples.")
+    a_alpha, b_alpha = _expand_pairs(a, b, a_alpha, b_alpha)
     if a_alpha.size < 2:
         raise ValueError("At least two paired observations are required.")
 
@@ -255,6 +273,7 @@ def _circ_corrcc_np(
 
     if a_alpha.size != b_alpha.size:
         raise ValueError("`a` and `b` must have the same number of samples.")
+    a_alpha, b_alpha = _expand_pairs(a, b, a_alpha, b_alpha)
 
     n = a_alpha.size
     if n < 3:
@@ -316,6 +335,7 @@ def circ_corrcl(
         raise ValueError("`x` must be a one-dimensional array.")
     if a_alpha.size != x_arr.size:
         raise ValueError("`a` and `x` must be the same length.")
+    a_alpha, x_arr = _expand_pairs(a, x, a_alpha, x_arr)
     if a_alpha.size < 3:
         raise ValueError("At least three paired observations are required.")
 
-- 
2.43.0


From 28876571398770ff27e3a6641eaa5c9aa8738f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 40/47] fix: MoCD.bic scores the data in the model's own unit

---
 pycircstat2/clustering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index d5fb5cf..f940c43 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1278,9 +1278,9 @@ class MoCD:
         return density
 
     def bic(self) -> float:
-        if self.alpha is None or self.p_ is None or self.params_ is None:
+        if self.data is None or self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before computing BIC.")
-        log_likelihood = self.score_samples(self.alpha)
+        log_likelihood = self.score_samples(self.data)
         nLL = -float(np.sum(log_likelihood))
         n_params_component = len(self.param_names)
         n_params_total = self.n_clusters * n_params_component + (self.n_clusters - 1)
-- 
2.43.0


From 0f9969bc6af533d5d9dd8d6e3bba927cc88880f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 41/47] fix: predict_density spans one whole cycle when no grid
 is given

---
 pycircstat2/clustering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index f940c43..42d854e 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -8,7 +8,7 @@ from scipy.special import logsumexp
 
 from .descriptive import circ_dist, circ_kappa, circ_mean_and_r
 from .distributions import CircularContinuous, vonmises, katojones
-from .utils import data2rad
+from .utils import data2rad, rad2data
 
 ALLOWED_MOCD_DISTRIBUTIONS = {
     "cardioid",
@@ -401,7 +401,7 @@ class MovM:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -892,7 +892,7 @@ class MoKJ:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -1266,7 +1266,7 @@ class MoCD:
         if X is None:
             X = np.linspace(0.0, 2.0 * np.pi, 200, endpoint=False)
             if unit == "degree":
-                X = np.rad2deg(X)
+                X = rad2data(X, k=full_cycle)
 
         X = np.asarray(X, dtype=float).reshape(-1)
         alpha = X if unit == "radian" else data2rad(X, k=full_cycle)
-- 
2.43.0


From d2df011b5ad6846220cc496174e4e7a6afeea7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 42/47] fix: Axial reduces the doubled data modulo the given
 full cycle

---
 pycircstat2/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 68edb27..62e48f7 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -492,15 +492,19 @@ class Axial(Circular):
     ):
         
         data = np.array(data) if isinstance(data, list) else data
-        # doubling original data and reducing them modulo 360 degrees
-        if unit == "degree":
+        # doubling original data and reducing them modulo one full cycle
+        if full_cycle is not None:
+            data_double = 2 * data % full_cycle
+        elif unit == "degree":
             data_double = 2 * data % 360
         elif unit == "radian":
             data_double = 2 * data % (2 * np.pi)
         elif unit == "hour":
             data_double = 2 * data % 24
         else:
-            data_double = 2 * data % full_cycle
+            raise ValueError(
+                "You need to provide a value for `full_cycle` if it is not `degree` or `hour`."
+            )
 
         super().__init__(
             data=data_double,
-- 
2.43.0


From 68d7f9a66dec5bc39cb3bad225e4d4555de66ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 43/47] fix: Axial halves the median, its interval and the
 class limits like the mean

---
 pycircstat2/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 62e48f7..ca3da2a 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -520,6 +520,12 @@ class Axial(Circular):
         self.data = data
         self.alpha_double = self.alpha
         self.alpha = data2rad(data, k=self.full_cycle)
+        if self.grouped:
+            self.alpha_lb = self.alpha_lb / 2
+            self.alpha_ub = self.alpha_ub / 2
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
+        self.median = self.median / 2
+        self.median_lb /= 2
+        self.median_ub /= 2
-- 
2.43.0


From e5f408fa40ae05073eae4d1770b66db88b2fb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 44/47] fix: positional loc/scale are refused like the keywords

cardioid.pdf(x, mu, rho, 0.5) silently shifted the density although
loc=0.5 raises TypeError.
---
 pycircstat2/distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 0458d7f..79350a3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -193,6 +193,11 @@ class CircularContinuous(rv_continuous):
 
             def wrapper(this, *args, __orig=original, __name=attr, **kwargs):
                 clean_kwargs = this._clean_loc_scale_kwargs(kwargs, caller=__name)
+                if len(args) > this.numargs:
+                    raise TypeError(
+                        f"{this._dist_name(__name)} takes {this.numargs} shape parameters; "
+                        "it does not support a free `loc` or `scale`."
+                    )
                 return __orig(*args, **clean_kwargs)
 
             setattr(self, attr, types.MethodType(wrapper, self))
-- 
2.43.0


From 17186feadfdf63e9d00a079b49ed528236542563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 45/47] fix: cdf and sf of cartwright, wrapnorm and wrapcauchy
 accept an array of angles

SciPy repeats the shape parameters once per evaluated point, so every call
with more than one angle raised 'parameters must be scalar-valued'.
---
 pycircstat2/distributions.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 79350a3..d42d2fa 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1869,13 +1869,8 @@ class cartwright_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-        if mu_arr.size != 1 or zeta_arr.size != 1:
-            raise ValueError("cartwright parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = _single_parameter(mu, "mu")
+        zeta_val = _single_parameter(zeta, "zeta")
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2400,13 +2395,8 @@ class wrapnorm_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-        if mu_arr.size != 1 or rho_arr.size != 1:
-            raise ValueError("wrapnorm parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = _single_parameter(mu, "mu")
+        rho_val = _single_parameter(rho, "rho")
         two_pi = 2.0 * np.pi
 
         if rho_val <= 1e-12:
@@ -2913,19 +2903,13 @@ class wrapcauchy_gen(CircularContinuous):
         arr = np.asarray(wrapped, dtype=float)
         flat = arr.reshape(-1)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        if mu_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_arr = np.asarray(rho, dtype=float)
-        if rho_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        rho_val = float(rho_arr.reshape(-1)[0])
-        rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
-
         if flat.size == 0:
             return arr.astype(float)
 
+        mu_val = _single_parameter(mu, "mu")
+        rho_val = _single_parameter(rho, "rho")
+        rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
+
         two_pi = 2.0 * np.pi
         A = (1.0 + rho_val) / (1.0 - rho_val)
 
-- 
2.43.0


From 0ee99c53694b3f22ddd23159bbe5080b080e2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 46/47] fix: logcdf and logsf of wrapstable and katojones
 accept one angle

SciPy evaluates the cdf hook on both sides of the median, one of which may
hold no points; the hooks then indexed an empty parameter array.
---
 pycircstat2/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index d42d2fa..a7382eb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7577,6 +7577,8 @@ class wrapstable_gen(CircularContinuous):
     def _cdf(self, x, delta, alpha, beta, gamma):
         x_arr = np.asarray(x, dtype=float)
         scalar_input = x_arr.ndim == 0
+        if x_arr.size == 0:
+            return np.empty_like(x_arr)
         theta = np.atleast_1d(x_arr)
 
         rho_vals, mu_vals, p = self._get_series_terms(delta, alpha, beta, gamma)
@@ -8181,6 +8183,8 @@ class katojones_gen(CircularContinuous):
         x_arr = np.asarray(x, dtype=float)
         scalar_input = x_arr.ndim == 0
         flat = x_arr.reshape(-1)
+        if flat.size == 0:
+            return np.empty_like(x_arr)
 
         mu_val = float(np.mod(self._scalar_param(mu), 2.0 * np.pi))
         gamma_val = float(np.clip(self._scalar_param(gamma), 0.0, 1.0 - 1e-12))
-- 
2.43.0


From a43ceb8ef42f962af0b46a4d53205279ee9f3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 47/47] fix: circ_median returns a point that carries weight
 when all points coincide

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 41436cd..fda165e 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -590,7 +590,7 @@ def circ_median(
     if np.isclose(circ_r(alpha, w), 1.0, atol=1e-12):
         if verbose:
             print("All points coincide, returning the first point as median.")
-        return alpha[0]
+        return alpha[np.asarray(w) > 0][0]
 
     # grouped data
     if not np.all(w == 1):
-- 
2.43.0

