From c65d22830d4c36c7cf2eb6e63c4e5c4edff604f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 01/33] fix: bistatic interaction used an exit azimuth shifted
 by pi

The pi-shift that defines the monostatic exit azimuth (phi_ex = phi_0 + pi)
was applied to the BRDF expansion for every geometry. For bistatic geometry
phi_ex is already the exit azimuth, so the interaction term was evaluated for
phi_ex + pi (and disagreed with monostatic geometry at the same angles).
---
 src/rt1_model/_calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..9577db7 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -948,9 +948,7 @@ class RT1(object):
 
         angs = self._geom_ang_symbs
 
-        brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
-        ).doit()
+        brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
         ).doit()
-- 
2.43.0


From 6abf01ffec449582747bcbbe42ffd34a9eb31828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 02/33] fix: functions compiled with sympy return arrays of the
 broadcasted input shape

Constant expressions (e.g. Isotropic distributions) returned scalars with the
sympy backend (symengine broadcasts), so array-evaluations of the interaction
term, polarplot and hemreflect failed or returned wrong shapes/values.
Obsolete keyword arguments are now ignored (as already done for symengine).
---
 src/rt1_model/helpers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..852f3d2 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -79,13 +79,26 @@ def _lambdify(variables, functions):
         # using sympy's lambdify without "common subexpression
         # elimination" to perform lambdification
 
-        lambda_func = sp.lambdify(
+        sympy_lambda_func = sp.lambdify(
             var,
             funcs,
             modules=["numpy", "sympy"],
             dummify=False,
             cse=True,
         )
+
+        var_names = list(map(str, variables))
+
+        def lambda_func(*args, **kwargs):
+            # use the same call signature and return the same shapes as for symengine
+            # (e.g. ignore obsolete kwargs and broadcast constant expressions)
+            args = [*args, *(kwargs[key] for key in var_names[len(args) :])]
+            shape = np.broadcast_shapes(*map(np.shape, args))
+            res = sympy_lambda_func(*args)
+
+            if isinstance(res, list):
+                return [np.array(np.broadcast_to(i, shape)) for i in res]
+            return np.array(np.broadcast_to(res, shape))
     else:
         raise TypeError(f"lambda_backend {backend} is not available")
 
-- 
2.43.0


From be2fd24116927c4bf9a9ecb147d38903bb66909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 03/33] fix: evaluate the fn-coefficients by parameter name

The compiled functions depended on the set and order of the parameters known
at the time of compilation, so parameters that were added or re-defined later
were ignored or mixed up (and sp.var polluted the module namespace).
---
 src/rt1_model/_calc.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 9577db7..55e7d28 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -856,10 +856,9 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
-            )
+            angles = ("theta_0", "phi_0", "theta_ex", "phi_ex")
+            symbs = {str(s) for f in self._fn for s in getattr(f, "free_symbols", ())}
+            variables = [*angles, *sorted(symbs.difference(angles))]
 
             self._fnevals_ = _lambdify(variables, self._fn)
             return self._fnevals_
@@ -1097,15 +1096,10 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_0,
-            self.p_0,
-            self.t_ex,
-            self.p_ex,
-            *self.param_dict.values(),
-        )
+        args = (self.t_0, self.p_0, self.t_ex, self.p_ex)
+        fn = self._fnevals(*args, **self.param_dict)
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1124,15 +1118,10 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_ex,
-            self.p_ex,
-            self.t_0,
-            self.p_0,
-            *self.param_dict.values(),
-        )
+        args = (self.t_ex, self.p_ex, self.t_0, self.p_0)
+        fn = self._fnevals(*args, **self.param_dict)
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From 83a986af146bdc1e4e56d95bf12426f932f09b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 04/33] fix: wrong exit-angle term in the derivative of the
 volume contribution wrt. tau

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 55e7d28..95c0735 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1143,7 +1143,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From 89ed90759c0f7396c8d549d358494e7c6d38393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 05/33] fix: jacobian of linear sigma0 values ignored the
 normalization with I0

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 95c0735..f6ccbcc 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1527,7 +1527,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From cc9003a1a5371d4ab2a4e31e6f0251b345b7ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 06/33] fix: interaction-term failed at nadir, for large
 optical depths and for broadcasted angles

The singularities of log(mu / (1 - mu)) and expi(y) cancel at nadir, expi(y)
overflows for large y and multiplying stacked arrays of the terms assumed that
angles and parameters have the same number of dimensions.
---
 src/rt1_model/_calc.py | 73 ++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f6ccbcc..40367d1 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -10,6 +10,7 @@ Quast, Albergel, Calvet, Wagner (2019) : doi:10.3390/rs11030285
 
 from functools import lru_cache, wraps
 from itertools import chain
+from math import factorial
 import timeit
 
 import numpy as np
@@ -71,9 +72,7 @@ class RT1(object):
     # list of names of cached properties
     _cached_properties = [
         "_mu_0",
-        "_mu_0_x",
         "_mu_ex",
-        "_mu_ex_x",
     ]
 
     # list of names of cached functions
@@ -169,7 +168,7 @@ class RT1(object):
 
     def _clear_geom_cache(self):
         # clear chaced functions & properties that might change if geometry is set
-        self._clear_cache("_mu_0", "_mu_0_x", "_mu_ex", "_mu_ex_x")
+        self._clear_cache("_mu_0", "_mu_ex")
 
     def _cache_info(self):
         text = []
@@ -796,22 +795,6 @@ class RT1(object):
             return getattr(self, f"_{param}")
 
     # %% interaction contribution
-    @property
-    @lru_cache()
-    def _mu_0_x(self):
-        # pre-evaluate and cache required cosine powers
-        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])
-        return mux
-
-    @property
-    @lru_cache()
-    def _mu_ex_x(self):
-        # pre-evaluate and cache required cosine powers
-        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])
-        return mux
-
     @property
     def _fn(self):
         fn = getattr(self, "_fn_", None)
@@ -1062,26 +1045,36 @@ class RT1(object):
         return res
 
     def _S2_mu(self, mu, tau):
+        # get a list of the terms `mu ** (n + 1) * S2(n)`
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
-
-        # cache the results of the expn-evaluations to speed up the S2 loop
-        @lru_cache()
-        def innerfunc(k):
-            return mu ** (-k) * (expn(k + 1.0, tau) - np.exp(-tau / mu) / k)
-
-        S2 = np.array(
-            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]
-        )
+        exp_tau_mu = np.exp(-tau / mu)
+
+        # combine log(mu / (1 - mu)) and expi(y) to avoid singularities at nadir (y = 0)
+        # and use the asymptotic series of expi(y) to avoid overflows for large y
+        y = tau / mu - tau
+        is_large = y > 50.0
+        y_small, y_large = np.where(is_large, 1.0, y), np.where(is_large, y, np.inf)
+
+        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
+            hlp1 = np.where(
+                is_large,
+                exp_tau_mu * np.log(mu / (1.0 - mu))
+                + np.exp(-tau) * sum(factorial(k) / y_large ** (k + 1) for k in range(20)),
+                exp_tau_mu
+                * (
+                    np.log(tau)
+                    + np.where(
+                        y_small == 0, np.euler_gamma, expi(y_small) - np.log(y_small)
+                    )
+                ),
+            ) - expi(-tau)
 
-        # clear the cache since tau might have changed!
-        innerfunc.cache_clear()
+        terms, term = [], hlp1
+        for n in range(nmax):
+            term = mu * term + expn(n + 2.0, tau) - exp_tau_mu / (n + 1.0)
+            terms.append(term)
 
-        return S2 + hlp1
+        return terms
 
     def _calc_Fint_1(self):
         """
@@ -1101,9 +1094,7 @@ class RT1(object):
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
-        return S
+        return sum(f * m for f, m in zip(fn, self._S2_mu(self._mu_0, self.tau)))
 
     def _calc_Fint_2(self):
         """
@@ -1123,9 +1114,7 @@ class RT1(object):
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
-        return S
+        return sum(f * m for f, m in zip(fn, self._S2_mu(self._mu_ex, self.tau)))
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
     def _dvolume_dtau(self):
-- 
2.43.0


From 8e5d296d94960608ce866a093a4febb0cda81d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 07/33] fix: tau=0 for some elements must not affect the
 interaction-term of others

- interaction() returned nan for tau=0
- nan-values of other elements stayed in place or were silently set to 0
---
 src/rt1_model/_calc.py | 39 +++++++--------------------------------
 1 file changed, 7 insertions(+), 32 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 40367d1..78f2dda 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -514,38 +514,10 @@ class RT1(object):
         try:
             self.update_params(**params)
 
-            if isinstance(self.tau, (int, float)):
-                Isurf = self._surface()
-                # differentiation for non-existing canopy, as otherwise NAN values
-                if self.tau > 0.0:
-                    Ivol = self._volume()
-                    if self.int_Q is True:
-                        Iint = self._interaction()
-                    else:
-                        Iint = np.array([0.0])
-                else:
-                    Ivol = np.full_like(Isurf, 0.0)
-                    Iint = np.full_like(Isurf, 0.0)
-            else:
-                Isurf = self._surface()
-                Ivol = self._volume()
-                # TODO this should be fixed more properly
-                # (i.e. for tau=0, no interaction-term should be calculated)
-                if self.int_Q is True:
-                    Iint = self._interaction()
-                    # check if there are nan-values present that result from
-                    # (self.tau = 0) and replace them with 0
-                    wherenan = np.isnan(Iint)
-                    if np.any(wherenan) and np.allclose(
-                        *np.broadcast_arrays(wherenan, self.tau == 0.0)
-                    ):
-                        _log.debug(
-                            "Warning replacing nan-values caused by tau=0 "
-                            "in the interaction-term with 0!",
-                        )
-                        Iint[np.where(wherenan)] = 0.0
-                    else:
-                        pass
+            Isurf = self._surface()
+            Ivol = self._volume()
+            if self.int_Q is True:
+                Iint = self._interaction()
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
@@ -699,6 +671,9 @@ class RT1(object):
             )
         )
 
+        # there is no interaction without a canopy (e.g. for tau = 0)
+        Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)
+
         return self.NormBRDF * (1.0 - self.bsf) * Iint
 
     def _surface_volume(self):
-- 
2.43.0


From 859015def12dccfc96fa256c720f7ec65454027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 08/33] fix: contributions with different (but broadcastable)
 shapes could not be combined

---
 src/rt1_model/_calc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 78f2dda..a934a02 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -521,11 +521,13 @@ class RT1(object):
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+                    np.stack(
+                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
+                    ),
                 )
             else:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
+                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
             return ret
-- 
2.43.0


From bdf7bf54f4edfc30af89e59e06366a533709d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 09/33] fix: support numeric strings and sympy-expressions to
 define tau, omega, NormBRDF and bsf

---
 src/rt1_model/_calc.py   | 11 +++--------
 src/rt1_model/helpers.py |  5 +++--
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a934a02..9fef75a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -719,14 +719,9 @@ class RT1(object):
     @lru_cache()
     def _get_param_symbs(self, param):
         """Symbols used to define tau, omega, NormBRDF and bsf."""
-        p = getattr(self, f"_{param}")
-        if isinstance(p, str):
-            expr = _parse_sympy_param(getattr(self, f"_{param}"))
+        expr = _parse_sympy_param(getattr(self, f"_{param}"))
 
-            symbs = list(map(str, expr.free_symbols))
-        else:
-            symbs = []
-        return symbs
+        return list(map(str, getattr(expr, "free_symbols", [])))
 
     @lru_cache()
     def _get_param_funcs(self, param):
@@ -1278,7 +1273,7 @@ class RT1(object):
         # make sure to explicitly parse the equation to support parameter-names
         # such as "N", "S", or "Q"
 
-        if isinstance(getattr(self, f"_{param}"), str):
+        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
                 _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
             )
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 852f3d2..0784285 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -48,7 +48,8 @@ def _lambdify(variables, functions):
     # use symengine's Lambdify if symengine has been used within
     # the fn-coefficient generation
     backend = get_lambda_backend()
-    if backend == "symengine":
+    # (NOTE: symengine does not support functions without arguments)
+    if backend == "symengine" and len(var) > 0:
         from symengine import Lambdify
 
         # using symengines own "common subexpression elimination"
@@ -75,7 +76,7 @@ def _lambdify(variables, functions):
                 )
             )
 
-    elif backend == "sympy":
+    elif backend in ("symengine", "sympy"):
         # using sympy's lambdify without "common subexpression
         # elimination" to perform lambdification
 
-- 
2.43.0


From e6319b4a5e8ab3caed01d5d3c1f15a8c33bce44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 10/33] fix: jacobian ignored all but the first dependency on a
 parameter

Parameters can be used in more than one definition (tau, omega, NormBRDF, bsf,
V and SRF), so all contributions must be considered when applying the chain rule.
---
 src/rt1_model/_calc.py | 129 ++++++++++++++++++-----------------------
 1 file changed, 58 insertions(+), 71 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 9fef75a..b977790 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -79,6 +79,7 @@ class RT1(object):
     _cached_functions = [
         "_get_param_funcs",
         "_get_param_symbs",
+        "_dparam_ddummy_lambda",
         "_d_volume_dummy_lambda",
         "_d_surface_dummy_lambda",
     ]
@@ -164,7 +165,9 @@ class RT1(object):
 
     def _clear_param_cache(self):
         # clear chaced functions & properties that might change if a parameter is set
-        self._clear_cache("_get_param_funcs", "_get_param_symbs")
+        self._clear_cache(
+            "_get_param_funcs", "_get_param_symbs", "_dparam_ddummy_lambda"
+        )
 
     def _clear_geom_cache(self):
         # clear chaced functions & properties that might change if geometry is set
@@ -1281,17 +1284,11 @@ class RT1(object):
         else:
             return 1
 
+    @lru_cache()
     def _dparam_ddummy_lambda(self, param, key):
         diff = self._dparam_ddummy(param, key)
 
-        theta_0 = sp.Symbol("theta_0")
-        theta_ex = sp.Symbol("theta_ex")
-        phi_0 = sp.Symbol("phi_0")
-        phi_ex = sp.Symbol("phi_ex")
-
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
-
-        return _lambdify(args, diff)
+        return _lambdify(sorted(map(str, diff.free_symbols)), diff)
 
     def _d_volume_ddummy(self, key):
         """
@@ -1307,37 +1304,27 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("tau"):
-            inner = self._dparam_ddummy_lambda("tau", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
-            inner = self._dparam_ddummy_lambda("omega", key)(
+        # contribution of the phase-function
+        dIvol = (
+            self.I0
+            * self.omega
+            * self._mu_0
+            / (self._mu_0 + self._mu_ex)
+            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
+            * self._d_volume_dummy_lambda(key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dvolume_domega() * inner
+        )
+        dIvol = (1.0 - self.bsf) * dIvol
 
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dbsf() * inner
-        else:
-            dIvol = (
-                self.I0
-                * self.omega
-                * self._mu_0
-                / (self._mu_0 + self._mu_ex)
-                * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
-            )
-            return (1.0 - self.bsf) * dIvol
+        # Check symbols used to specify parameters.
+        # If yes, use chain rule to evaluate derivatives
+        for param in ("tau", "omega", "bsf"):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._dparam_ddummy_lambda(param, key)(**self.param_dict)
+                dIvol = dIvol + getattr(self, f"_dvolume_d{param}")() * inner
+
+        return dIvol
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key):
@@ -1363,12 +1350,11 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        angles = (theta_0, theta_ex, phi_0, phi_ex)
+        diff = sp.diff(self.V.phase_function, sp.Symbol(key))
+        symbs = sorted(map(str, diff.free_symbols.difference(angles)))
 
-        return _lambdify(
-            args,
-            sp.diff(self.V.phase_function, sp.Symbol(key)),
-        )
+        return _lambdify((*angles, *symbs), diff)
 
     def _d_surface_ddummy(self, key):
         """
@@ -1384,31 +1370,26 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("NormBRDF"):
-            inner = self._dparam_ddummy_lambda("NormBRDF", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
+        # contribution of the phase-function
+        dI_bs = (
+            self.I0
+            * self._mu_0
+            * self._d_surface_dummy_lambda(key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dsurface_dbsf() * inner
-        else:
-            dI_bs = (
-                self.I0
-                * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
-            )
+        )
 
-            dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+        dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+        dIsurf = self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
 
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+        # Check symbols used to specify parameters.
+        # If yes, use chain rule to evaluate derivatives
+        for param in ("tau", "NormBRDF", "bsf"):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._dparam_ddummy_lambda(param, key)(**self.param_dict)
+                dIsurf = dIsurf + getattr(self, f"_dsurface_d{param}")() * inner
+
+        return dIsurf
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key):
@@ -1434,11 +1415,17 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        angles = (theta_0, theta_ex, phi_0, phi_ex)
+        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key))
+        symbs = sorted(map(str, diff.free_symbols.difference(angles)))
+
+        return _lambdify((*angles, *symbs), diff)
 
-        return _lambdify(
-            args,
-            sp.diff(self.SRF.phase_function, sp.Symbol(key)),
+    def _is_symbol(self, key):
+        # check if key is used as a symbol in any of the parameter-definitions
+        # (or in the definition of V or SRF)
+        return key in self._all_param_symbs or sp.Symbol(key) in (
+            self.V.phase_function.free_symbols | self.SRF.phase_function.free_symbols
         )
 
     def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
@@ -1496,13 +1483,13 @@ class RT1(object):
 
         jac = []
         for key in param_list:
-            if key == "omega":
+            if key == "omega" and not self._is_symbol(key):
                 jac += [(self._dsurface_domega() + self._dvolume_domega()) * norm]
-            elif key == "tau":
+            elif key == "tau" and not self._is_symbol(key):
                 jac += [(self._dsurface_dtau() + self._dvolume_dtau()) * norm]
-            elif key == "NormBRDF":
+            elif key == "NormBRDF" and not self._is_symbol(key):
                 jac += [(self._dsurface_dNormBRDF() + self._dvolume_dNormBRDF()) * norm]
-            elif key == "bsf":
+            elif key == "bsf" and not self._is_symbol(key):
                 jac += [(self._dsurface_dbsf() + self._dvolume_dbsf()) * norm]
             elif key in self.param_dict:
                 jac += [
-- 
2.43.0


From 4447e9398c907baaf478db55d7ed755ddb40be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 11/33] fix: jacobian entries must have the shape of the
 results

---
 src/rt1_model/_calc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b977790..b151990 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1501,6 +1501,12 @@ class RT1(object):
                     + str(key)
                     + " is not in param_dict"
                 )
+        # make sure the jacobian-entries have the shape of the calculated results
+        shape = np.broadcast_shapes(
+            np.shape(self._surface_volume()), *(np.shape(j) for j in jac)
+        )
+        jac = [np.array(np.broadcast_to(j, shape)) for j in jac]
+
         if format == "list":
             return jac
         elif format == "scipy_least_squares":
-- 
2.43.0


From c692c880b351f897bc9130946a7a61241bea174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 12/33] fix: pickling or copying an RT1 object must not disable
 its plot-functions

---
 src/rt1_model/_calc.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b151990..3b8bf27 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -127,15 +127,18 @@ class RT1(object):
     def __getstate__(self):
         # this is required since functions created by
         # symengine are currently not pickleable!
+        # (use a copy of the state to avoid changing the pickled object itself!)
+        state = self.__dict__.copy()
+
         _log.warning("Dropping fn-coefficients to allow pickling...")
         for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
+            if delkey in state:
                 _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
+                del state[delkey]
         for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+            if Nonekey in state:
                 _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if get_lambda_backend() == "symengine":
             _log.warning(
@@ -143,11 +146,7 @@ class RT1(object):
                 + "generated by symengine will be platform-dependent!"
             )
 
-        # drop plot-functions (they are not pickleable and re-attached on unpickle)
-        for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
-
-        return self.__dict__
+        return state
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From 03a5ced014a054be48be0497da954b7c9f24e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 13/33] fix: slider labels and center start-values of the
 analyze widgets

---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..df19e5d 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 631ccefa870997e1dfd932d74a688a78274ef4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 14/33] fix: documented name of the minimal log-format

---
 src/rt1_model/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 5d648fb..3db967c 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -150,7 +150,7 @@ def set_loglevel(level, fmt="timed"):
         Available short-names:
 
         - "plain": ``message``
-        - "basic": ``<TIME>: message``
+        - "minimal": ``<TIME>: message``
         - "timed": ``<TIME>: <LEVEL>: message``
         - "debug": ``<TIME>: <LEVEL>: <MODULE>: message``
 
-- 
2.43.0


From 9782da7d9c2fa4893f7e93e64704cd0610c29b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 15/33] fix: HG_nadirnorm was undefined (or numerically
 unstable) for asymmetry-parameters close to 0

---
 src/rt1_model/surface.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 31532ae..75e74fb 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -225,19 +225,18 @@ class HG_nadirnorm(SurfaceScatter):
     def phase_function(self):
         """Define Phase function as sympy object."""
 
+        # (expanded to avoid a division by zero for t -> 0 and a[0] -> 0)
         nadir_hemreflect = 4 * (
             (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
             / (
                 2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
+                * (
+                    1.0
+                    - self.t * (-self.t + self.a[0])
+                    + sp.sqrt(
+                        (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
+                    )
+                )
                 * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
             )
         )
@@ -256,19 +255,18 @@ class HG_nadirnorm(SurfaceScatter):
     @property
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
+        # (expanded to avoid a division by zero for t -> 0 and a[0] -> 0)
         nadir_hemreflect = 4 * (
             (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
             / (
                 2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
+                * (
+                    1.0
+                    - self.t * (-self.t + self.a[0])
+                    + sp.sqrt(
+                        (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
+                    )
+                )
                 * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
             )
         )
-- 
2.43.0


From f325e760c011868e54c1109424988b295773ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 16/33] fix: missing parameters must be reported for all
 evaluations

---
 src/rt1_model/_scatter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index 3ced2b1..62a254c 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -88,6 +88,15 @@ class _Scatter:
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
+        # check for missing parameter specifications
+        symbs = set(map(str, self.phase_function.free_symbols))
+        missing = symbs - {"theta_0", "theta_ex", "phi_0", "phi_ex"} - set(args)
+        if missing:
+            raise TypeError(
+                f"Missing specification for the parameters {missing} to evaluate "
+                f"the {self.__class__.__name__} scattering function."
+            )
+
         # replace arguments and evaluate expression
         args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(args)
         pfunc = _lambdify(args, self.phase_function)
-- 
2.43.0


From 167c30d7181b1b23e85d01c027b6dea51f72edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 17/33] fix: rejected geometry specifications must not change
 the geometry

---
 src/rt1_model/_calc.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 3b8bf27..02b5391 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -333,6 +333,11 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        if p_0 is not None:
+            assert isinstance(
+                p_0, (int, float, np.number)
+            ), "The p_0 angle must be a number for monostatic geometry!"
+
         self._monostatic = True
 
         self._clear_geom_cache()
@@ -341,9 +346,6 @@ class RT1(object):
         self._fnevals_ = None
 
         if p_0 is not None:
-            assert isinstance(
-                p_0, (int, float, np.number)
-            ), "The p_0 angle must be a number for monostatic geometry!"
             self._p_0 = np.atleast_1d(p_0)
             self._fixed_angles.add("p_0")
         else:
@@ -366,6 +368,12 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        angs = [t_0, t_ex, p_0, p_ex]
+        for ang in angs:
+            assert ang is None or isinstance(
+                ang, (int, float, np.number)
+            ), "The fixed angle must be a number!"
+
         # handle bistatic assignments
         self._monostatic = False
 
@@ -374,7 +382,6 @@ class RT1(object):
         self._fn_ = None
         self._fnevals_ = None
 
-        angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
         symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
@@ -386,9 +393,6 @@ class RT1(object):
                 geom += "v"
                 geom_ang_symbs.append(symb)
             else:
-                assert isinstance(
-                    ang, (int, float, np.number)
-                ), "The fixed angle must be a number!"
                 geom += "f"
                 geom_ang_symbs.append(ang)
                 setattr(self, f"_{attr}", np.atleast_1d(ang))
@@ -397,7 +401,7 @@ class RT1(object):
         self._geom_ang_symbs = geom_ang_symbs
 
     def _sanitize_geometry_parameter(self, name, value):
-        assert name not in self._fixed_angles, "The angle {name} is fixed!"
+        assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
         return np.atleast_1d(value)
 
@@ -440,10 +444,15 @@ class RT1(object):
                 "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
             )
 
+        kwargs = {
+            key: self._sanitize_geometry_parameter(key, val)
+            for key, val in kwargs.items()
+        }
+
         self._clear_geom_cache()
 
         for key, val in kwargs.items():
-            setattr(self, f"_{key}", self._sanitize_geometry_parameter(key, val))
+            setattr(self, f"_{key}", val)
 
     def update_params(self, **kwargs):
         """
-- 
2.43.0


From 007426c6726ea61f273612d3b4ab1debe320b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 18/33] fix: support S and Q as parameter names

---
 src/rt1_model/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 0784285..fa840ed 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -4,7 +4,7 @@ from ._numpydoc_docscrape import NumpyDocString
 import sympy as sp
 import numpy as np
 
-_local_variable_symbols = dict(N=sp.Symbol("N"))
+_local_variable_symbols = {key: sp.Symbol(key) for key in ("N", "S", "Q")}
 
 
 def _parse_sympy_param(val):
-- 
2.43.0


From 9ff0f0868e9fa4dad57cf3949d12283ff7d741e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 19/33] fix: interaction-term for bistatic geometries with
 fixed angles

---
 src/rt1_model/_calc.py | 51 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 02b5391..fbb1e03 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -344,6 +344,7 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fnevals_reversed_ = None
 
         if p_0 is not None:
             self._p_0 = np.atleast_1d(p_0)
@@ -381,6 +382,7 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fnevals_reversed_ = None
 
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
@@ -822,11 +824,7 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            angles = ("theta_0", "phi_0", "theta_ex", "phi_ex")
-            symbs = {str(s) for f in self._fn for s in getattr(f, "free_symbols", ())}
-            variables = [*angles, *sorted(symbs.difference(angles))]
-
-            self._fnevals_ = _lambdify(variables, self._fn)
+            self._fnevals_ = self._compile_fn(self._fn)
             return self._fnevals_
 
             toc = timeit.default_timer()
@@ -837,6 +835,12 @@ class RT1(object):
         else:
             return None
 
+    def _compile_fn(self, fn):
+        angles = ("theta_0", "phi_0", "theta_ex", "phi_ex")
+        symbs = {str(s) for f in fn for s in getattr(f, "free_symbols", ())}
+
+        return _lambdify([*angles, *sorted(symbs.difference(angles))], fn)
+
     def _extract_coefficients(self, expr):
         """
         Extract Fn coefficients from given forumula.
@@ -881,7 +885,29 @@ class RT1(object):
 
         return fn
 
-    def _calc_interaction_expansion(self):
+    @property
+    def _fnevals_reversed(self):
+        # function to evaluate the fn-coefficients of the reversed path (e.g. with
+        # incident- and exit-angles interchanged)
+        fnevals = getattr(self, "_fnevals_reversed_", None)
+        if fnevals is not None:
+            return fnevals
+        elif self._monostatic or not self._fixed_angles:
+            # all angles can be interchanged by changing the order of the arguments
+            def fnevals(t_0, p_0, t_ex, p_ex, **params):
+                return self._fnevals(t_ex, p_ex, t_0, p_0, **params)
+
+            return fnevals
+        else:
+            # fixed angles require a separate evaluation of the coefficients
+            t_0, t_ex, p_0, p_ex = self._geom_ang_symbs
+            expr_int = self._calc_interaction_expansion([t_ex, t_0, p_ex, p_0])
+            self._fnevals_reversed_ = self._compile_fn(
+                self._extract_coefficients(expr_int)
+            )
+            return self._fnevals_reversed_
+
+    def _calc_interaction_expansion(self, angs=None):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -898,6 +924,12 @@ class RT1(object):
             4. Expand again to ensure that a fully expanded expression
                is returned (to be used as input in _extract_coefficients() )
 
+        Parameters
+        ----------
+        angs : list, optional
+            The angles (t_0, t_ex, p_0, p_ex) to use.
+            If None, the angles of the current geometry are used.
+
         Returns
         -------
         res : sympy expression
@@ -911,7 +943,8 @@ class RT1(object):
         theta_s = sp.Symbol("theta_s")
         phi_s = sp.Symbol("phi_s")
 
-        angs = self._geom_ang_symbs
+        if angs is None:
+            angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
         volexp = self.V.legendre_expansion(
@@ -1092,8 +1125,8 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = (self.t_ex, self.p_ex, self.t_0, self.p_0)
-        fn = self._fnevals(*args, **self.param_dict)
+        args = (self.t_0, self.p_0, self.t_ex, self.p_ex)
+        fn = self._fnevals_reversed(*args, **self.param_dict)
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
-- 
2.43.0


From f720b78770de7929e2bd3844fb7269d54ac746bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 20/33] fix: jacobian with respect to parameters inside the
 sign-function of CosineLobe

---
 src/rt1_model/_calc.py   |  6 +++---
 src/rt1_model/helpers.py | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index fbb1e03..039e6e5 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -19,7 +19,7 @@ from scipy.special import expi, expn
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
-from .helpers import _lambdify, _parse_sympy_param
+from .helpers import _diff, _lambdify, _parse_sympy_param
 
 try:
     from .plot import Analyze, Analyze3D
@@ -1392,7 +1392,7 @@ class RT1(object):
         phi_ex = sp.Symbol("phi_ex")
 
         angles = (theta_0, theta_ex, phi_0, phi_ex)
-        diff = sp.diff(self.V.phase_function, sp.Symbol(key))
+        diff = _diff(self.V.phase_function, key)
         symbs = sorted(map(str, diff.free_symbols.difference(angles)))
 
         return _lambdify((*angles, *symbs), diff)
@@ -1457,7 +1457,7 @@ class RT1(object):
         phi_ex = sp.Symbol("phi_ex")
 
         angles = (theta_0, theta_ex, phi_0, phi_ex)
-        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key))
+        diff = _diff(self.SRF.phase_function, key)
         symbs = sorted(map(str, diff.free_symbols.difference(angles)))
 
         return _lambdify((*angles, *symbs), diff)
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index fa840ed..f7a4263 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -16,6 +16,16 @@ def _parse_sympy_param(val):
         return val
 
 
+def _diff(func, key):
+    # differentiate a sympy expression with respect to the symbol "key"
+    # (the derivative of "sign" is 0 everywhere except at the discontinuity, so it
+    # is treated as constant... sympy would return an unevaluated derivative)
+    func = sp.sympify(func)
+    signs = {sign: sp.Dummy() for sign in func.atoms(sp.sign)}
+    diff = sp.diff(func.xreplace(signs), sp.Symbol(key))
+    return diff.xreplace({dummy: sign for sign, dummy in signs.items()})
+
+
 def _lambdify(variables, functions):
     """
     Lambdify a list of functions with the selected lambda_backend.
-- 
2.43.0


From 1022af87fe2541fb46c76f1ddbe611150d17387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 21/33] fix: read-only arrays could not be evaluated with the
 symengine backend

---
 src/rt1_model/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index f7a4263..37f9c72 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -80,10 +80,11 @@ def _lambdify(variables, functions):
         def lambda_func(*args, **kwargs):
             # allow similar call signature as sympy functions
             # (e.g. both args and kwargs)
+            # (symengine requires writeable buffers, so read-only arrays are copied)
+            args = [*args, *(kwargs[key] for key in var_names[len(args) :])]
+            shape = np.broadcast_shapes(*map(np.shape, args))
             return seng_lambda_func(
-                *np.broadcast_arrays(
-                    *args, *(kwargs[key] for key in var_names[len(args) :])
-                )
+                *(np.array(np.broadcast_to(i, shape)) for i in args)
             )
 
     elif backend in ("symengine", "sympy"):
-- 
2.43.0


From 39f09727b737567cc434dfa1d37bd964f3abba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 22/33] fix: array-like values could not be evaluated with the
 sympy backend

---
 src/rt1_model/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 37f9c72..f49d8e9 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -105,6 +105,7 @@ def _lambdify(variables, functions):
             # use the same call signature and return the same shapes as for symengine
             # (e.g. ignore obsolete kwargs and broadcast constant expressions)
             args = [*args, *(kwargs[key] for key in var_names[len(args) :])]
+            args = list(map(np.asarray, args))
             shape = np.broadcast_shapes(*map(np.shape, args))
             res = sympy_lambda_func(*args)
 
-- 
2.43.0


From b5b56368f451fa95186280b5ce0affc9c20a3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 23/33] fix: 3D analyzer fails for contributions close to the
 underflow-limit

---
 src/rt1_model/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index df19e5d..9402ef0 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -785,6 +785,9 @@ class Analyze3D:
         with self._cx_set_intq():
             res = self.R.calc()
 
+        # values close to the underflow-limit can not be shaded by matplotlib
+        res = np.where(np.abs(res) < 1e-50, 0, res)
+
         x = res * np.sin(self.R.t_ex) * np.cos(self.R.p_ex)
         y = res * np.sin(self.R.t_ex) * np.sin(self.R.p_ex)
         z = res * np.cos(self.R.t_ex)
-- 
2.43.0


From 41aa7a01a2abc16acd26b2a9b9a282c34e05822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 24/33] fix: allow parameters that have the same name as a
 geometry angle

The function that evaluates the coefficients of the reversed interaction path
had named angle-arguments, so that e.g. a parameter called "t_0" caused a
TypeError (got multiple values for argument).
---
 src/rt1_model/_calc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 039e6e5..06dea81 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -894,7 +894,9 @@ class RT1(object):
             return fnevals
         elif self._monostatic or not self._fixed_angles:
             # all angles can be interchanged by changing the order of the arguments
-            def fnevals(t_0, p_0, t_ex, p_ex, **params):
+            # (use only positional arguments to support any parameter name)
+            def fnevals(*angles, **params):
+                t_0, p_0, t_ex, p_ex = angles
                 return self._fnevals(t_ex, p_ex, t_0, p_0, **params)
 
             return fnevals
-- 
2.43.0


From 6c1d269babdab78fc2a7e9f36c47ae0db255feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 25/33] fix: reject reserved symbol-names instead of returning
 wrong interaction terms

A parameter called "n" (or "theta_s", "phi_s") that is used to define a scattering
function was silently replaced by the index of the Legendre-sum (respectively the
integration variables), so that the interaction contribution was wrong.
---
 src/rt1_model/_scatter.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index 62a254c..62e0076 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -113,6 +113,18 @@ class _Scatter:
 
         return pfunc
 
+    def _check_reserved_symbols(self):
+        # symbols that are used internally can not be used as parameter-names since
+        # they would be replaced when the expansion is evaluated
+        reserved = {"n", "theta_s", "phi_s"}.intersection(
+            map(str, self.phase_function.free_symbols)
+        )
+        if reserved:
+            raise ValueError(
+                f"The names {reserved} are reserved and cannot be used as parameters "
+                f"to define the {self.__class__.__name__} scattering function."
+            )
+
     def legendre_expansion(self, t_0, t_ex, p_0, p_ex):
         """
         Legendre-expansion of the scattering distribution function.
@@ -146,6 +158,7 @@ class _Scatter:
 
         """
         assert self.ncoefs > 0
+        self._check_reserved_symbols()
 
         n = sp.Symbol("n")
 
@@ -280,6 +293,8 @@ class _LinComb(_Scatter):
     @wraps(_Scatter.legendre_expansion)
     def legendre_expansion(self, t_0, t_ex, p_0, p_ex):
         # evaluate the combined legendre expansion
+        self._check_reserved_symbols()
+
         n = sp.Symbol("n")
 
         exp = 0
-- 
2.43.0


From b5fbf2648b51bc80703932f479fcb8fffa3b6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 26/33] fix: support evaluating empty arrays with the symengine
 backend

(the sympy backend returns an empty array, symengine raised a ValueError)
---
 src/rt1_model/helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index f49d8e9..d355c33 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -83,6 +83,11 @@ def _lambdify(variables, functions):
             # (symengine requires writeable buffers, so read-only arrays are copied)
             args = [*args, *(kwargs[key] for key in var_names[len(args) :])]
             shape = np.broadcast_shapes(*map(np.shape, args))
+            if 0 in shape:
+                # (symengine does not support empty arrays)
+                return np.empty(
+                    (len(funcs), *shape) if isinstance(funcs, list) else shape
+                )
             return seng_lambda_func(
                 *(np.array(np.broadcast_to(i, shape)) for i in args)
             )
-- 
2.43.0


From 13c31f879e93b7dac4b34f7cc4d8e7cc6cf0f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 27/33] fix: evaluate all numeric types as floating-point
 numbers with the sympy backend

The symengine backend converts all values to double-precision numbers but the sympy
backend used the provided types, so that e.g. boolean values raised an error,
(unsigned) integers could overflow and results were evaluated with the precision of
the inputs.
---
 src/rt1_model/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index d355c33..40d9399 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -110,7 +110,8 @@ def _lambdify(variables, functions):
             # use the same call signature and return the same shapes as for symengine
             # (e.g. ignore obsolete kwargs and broadcast constant expressions)
             args = [*args, *(kwargs[key] for key in var_names[len(args) :])]
-            args = list(map(np.asarray, args))
+            # (symengine always evaluates floating-point numbers)
+            args = [np.asarray(i, dtype=float) for i in args]
             shape = np.broadcast_shapes(*map(np.shape, args))
             res = sympy_lambda_func(*args)
 
-- 
2.43.0


From a0dac9fe80df657ef103c6f51e11821ca7175072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 28/33] fix: support array-like incident intensities together
 with numeric parameter definitions

(sequences were multiplied with the numeric value of omega before they were converted
to arrays)
---
 src/rt1_model/_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 06dea81..7e4e580 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -635,7 +635,7 @@ class RT1(object):
     def _volume(self):
         # volume contribution (intensity)
         vol = (
-            (self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))
+            (self.I0 * self._mu_0 * self.omega / (self._mu_0 + self._mu_ex))
             * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
             * self.V.calc(
                 self.t_0,
@@ -1147,8 +1147,8 @@ class RT1(object):
         """
         dvdt = (
             self.I0
-            * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
+            * self.omega
             * (
                 (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
@@ -1187,7 +1187,7 @@ class RT1(object):
 
         """
         vol = (
-            (self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))
+            (self.I0 * self._mu_0 * self.omega / (self._mu_0 + self._mu_ex))
             * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
             * self.V.calc(
                 self.t_0,
@@ -1350,8 +1350,8 @@ class RT1(object):
         # contribution of the phase-function
         dIvol = (
             self.I0
-            * self.omega
             * self._mu_0
+            * self.omega
             / (self._mu_0 + self._mu_ex)
             * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
             * self._d_volume_dummy_lambda(key)(
-- 
2.43.0


From cb468a0f01f0ed86bbffe2be146129ec77c37b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 29/33] fix: re-evaluate the model if the scattering functions
 are replaced

(the interaction coefficients and derivatives of the previous functions were used)
---
 src/rt1_model/_calc.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 7e4e580..baea5e1 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -172,6 +172,13 @@ class RT1(object):
         # clear chaced functions & properties that might change if geometry is set
         self._clear_cache("_mu_0", "_mu_ex")
 
+    def _clear_scatter_cache(self):
+        # clear everything that was derived from the scattering functions
+        self._clear_cache("_d_volume_dummy_lambda", "_d_surface_dummy_lambda")
+        self._fn_ = None
+        self._fnevals_ = None
+        self._fnevals_reversed_ = None
+
     def _cache_info(self):
         text = []
 
@@ -210,6 +217,26 @@ class RT1(object):
         def analyze3d(self, **kwargs):
             return Analyze3D(R=self, **kwargs)
 
+    @property
+    def V(self):
+        """The volume-scattering phase function."""
+        return self._V
+
+    @V.setter
+    def V(self, value):
+        self._V = value
+        self._clear_scatter_cache()
+
+    @property
+    def SRF(self):
+        """The surface-scattering phase function (BRDF)."""
+        return self._SRF
+
+    @SRF.setter
+    def SRF(self, value):
+        self._SRF = value
+        self._clear_scatter_cache()
+
     @property
     def param_dict(self):
         """
-- 
2.43.0


From ceac1007cf395a3f16e00073231afeb5ed59c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 30/33] fix: return the created figure from hemreflect as
 documented

---
 src/rt1_model/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 9402ef0..34e3b4b 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -392,6 +392,8 @@ def hemreflect(
 
         axnum.grid()
 
+        return fig
+
 
 def _check_params(R, param_dict, additional_params=[]):
     # check if all required parameters for the analyzers have been defined
-- 
2.43.0


From 398919b21c324774b9ee67d55e35ef514a252c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 31/33] fix: show all curves of hemreflect for multiple values
 of NormBRDF

(the range of the axis was determined from the last curve only)
---
 src/rt1_model/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 34e3b4b..565c7a1 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -374,10 +374,10 @@ def hemreflect(
         axnum = fig.add_subplot(1, 1, 1)
 
         if len(sol.shape) > 1:
-            for i, sol in enumerate(sol):
-                axnum.plot(incnum, sol, label="NormBRDF = " + str(NormBRDF[i]))
+            for i, isol in enumerate(sol):
+                axnum.plot(incnum, isol, label="NormBRDF = " + str(NormBRDF[i]))
                 if showpoints is True:
-                    axnum.plot(incnum, sol, "r.")
+                    axnum.plot(incnum, isol, "r.")
         else:
             axnum.plot(incnum, sol, "k", label="NormBRDF = " + str(NormBRDF))
             if showpoints is True:
-- 
2.43.0


From 4ef08501696df6ccfbf95d913238c57ebe123243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 32/33] fix: show the 135 degree label of polarplot at the
 correct direction

---
 src/rt1_model/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 565c7a1..b6f1f27 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -182,7 +182,7 @@ def polarplot(
                     ax.plot(thetass, radapprox, color + "--")
 
                 ax.fill_between(thetass, rad, alpha=0.2, color=color)
-                ax.set_xticks(np.deg2rad([0, 45, 90, 125, 180]))
+                ax.set_xticks(np.deg2rad([0, 45, 90, 135, 180]))
                 ax.set_xticklabels(
                     [
                         r"$0^\circ$",
-- 
2.43.0


From 1b6f0914d5fd595945325ff403c84c246bf6906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 33/33] fix: jacobian was undefined for parameters of
 scattering functions that are 0 (products of parameters)

---
 src/rt1_model/surface.py | 16 ++++++++--------
 src/rt1_model/volume.py  | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 75e74fb..6a161f9 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -183,10 +183,10 @@ class HenyeyGreenstein(SurfaceScatter):
 
         return (
             1.0
-            * (1.0 - self.t**2.0)
+            * (1.0 - self.t**2)
             / (
                 (sp.pi)
-                * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
+                * (1.0 + self.t**2 - 2.0 * self.t * self.scattering_angle_symbolic)
                 ** 1.5
             )
         )
@@ -227,7 +227,7 @@ class HG_nadirnorm(SurfaceScatter):
 
         # (expanded to avoid a division by zero for t -> 0 and a[0] -> 0)
         nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
+            (1.0 - self.t**2)
             / (
                 2.0
                 * (
@@ -237,15 +237,15 @@ class HG_nadirnorm(SurfaceScatter):
                         (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
                     )
                 )
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
+                * sp.sqrt(1.0 + self.t**2 - 2.0 * self.a[0] * self.t)
             )
         )
 
         func = (1.0 / nadir_hemreflect) * (
-            (1.0 - self.t**2.0)
+            (1.0 - self.t**2)
             / (
                 (sp.pi)
-                * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
+                * (1.0 + self.t**2 - 2.0 * self.t * self.scattering_angle_symbolic)
                 ** 1.5
             )
         )
@@ -257,7 +257,7 @@ class HG_nadirnorm(SurfaceScatter):
         """Legendre coefficients of the BRDF."""
         # (expanded to avoid a division by zero for t -> 0 and a[0] -> 0)
         nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
+            (1.0 - self.t**2)
             / (
                 2.0
                 * (
@@ -267,7 +267,7 @@ class HG_nadirnorm(SurfaceScatter):
                         (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
                     )
                 )
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
+                * sp.sqrt(1.0 + self.t**2 - 2.0 * self.a[0] * self.t)
             )
         )
 
diff --git a/src/rt1_model/volume.py b/src/rt1_model/volume.py
index f460021..bad9769 100644
--- a/src/rt1_model/volume.py
+++ b/src/rt1_model/volume.py
@@ -120,7 +120,7 @@ class Rayleigh(VolumeScatter):
     @property
     def phase_function(self):
         """Phase function as sympy expression."""
-        return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)
+        return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2)
 
     @property
     def legendre_coefficients(self):
@@ -162,9 +162,9 @@ class HenyeyGreenstein(VolumeScatter):
     @property
     def phase_function(self):
         """Phase function as sympy expression."""
-        func = (1.0 - self.t**2.0) / (
+        func = (1.0 - self.t**2) / (
             (4.0 * sp.pi)
-            * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
+            * (1.0 + self.t**2 - 2.0 * self.t * self.scattering_angle_symbolic)
             ** 1.5
         )
 
@@ -211,11 +211,11 @@ class HGRayleigh(VolumeScatter):
                 1.0
                 / (2.0 + self.t**2)
                 * (1 + self.scattering_angle_symbolic**2)
-                * (1.0 - self.t**2.0)
+                * (1.0 - self.t**2)
                 / (
                     (
                         1.0
-                        + self.t**2.0
+                        + self.t**2
                         - 2.0 * self.t * self.scattering_angle_symbolic
                     )
                     ** 1.5
-- 
2.43.0

