From 5c6ae75c49fdf1c3643dba2c1e594003f34bff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/70] fix: Profile.rho works for scalar radii and for
 constant-density profiles

---
 src/halomod/profiles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 2de41ea..436809b 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -356,8 +356,7 @@ class Profile(Component):
             (x(r_vir) = c), and ``s`` is in units of the virial radius (s(r_vir) = 1).
         """
         c, r_s, x = self._get_r_variables(r, m, c, coord)
-        rho = self._f(x) * self._rho_s(c, r_s, norm)
-        rho[x > c] = 0.0
+        rho = np.where(x > c, 0.0, self._f(x) * self._rho_s(c, r_s, norm))
 
         return self._reduce(rho)
 
-- 
2.43.0


From c2ce8ce628a1da6a4f06643a6fce354d05919b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 02/70] fix: untruncated profiles honour the concentration and
 coord arguments of u()

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 436809b..2f37a45 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -591,7 +591,7 @@ class ProfileInf(Profile, abstract=True):
             co-ordinates [units Mpc/h]. ``x`` is in units of the scale radius
             (r_vir = c), and ``s`` is in units of the virial radius (r_vir = 1).
         """
-        c, K = self._get_k_variables(k, m)
+        c, K = self._get_k_variables(k, m, c, coord)
 
         u = self._p(K) / self._h(c)
 
-- 
2.43.0


From e9bb796ae78869b8d209f7352e6ada659353bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/70] fix: do not scramble the wavenumbers in u() of MooreInf
 and GeneralizedNFWInf

---
 src/halomod/profiles.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 2f37a45..0d37b3a 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -850,19 +850,16 @@ class MooreInf(Moore, ProfileInf):
                 k**6 / 46656.0,
             ) / (4 * np.sqrt(3) * np.pi ** (5 / 2) * k)
 
-        if K.ndim == 2:
-            K1 = np.reshape(K, -1)
-            K1.sort()
-        else:
-            K1 = K
-        res = np.zeros(len(K[K < 10**3.2]))
-        for i, k in enumerate(K1[K1 < 10**3.2]):
-            res[i] = G(k)
+        # A sorted copy: never re-order the K of the caller.
+        K1 = np.unique(K)
+        K1 = K1[K1 < 10**3.2]
+        res = np.array([float(G(k)) for k in K1])
 
-        fit = spline(np.log(K1[K1 < 10**3.2]), np.log(res), k=1)
-        res = np.reshape(np.exp(fit(np.log(np.reshape(K, -1)))), (len(K[:, 0]), len(K[0, :])))
+        if len(K1) == 1:
+            return np.full(np.shape(K), res[0])
 
-        return res
+        fit = spline(np.log(K1), np.log(res), k=1)
+        return np.exp(fit(np.log(K)))
 
 
 class Constant(Profile):
@@ -940,19 +937,16 @@ class GeneralizedNFWInf(GeneralizedNFW, ProfileInf):
                 k**2 / 4,
             ) / (np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
 
-        if len(K.shape) == 2:
-            K1 = np.reshape(K, -1)
-            K1.sort()
-        else:
-            K1 = K
-        res = np.zeros(len(K[K < 10**3.2]))
-        for i, k in enumerate(K1[K1 < 10**3.2]):
-            res[i] = G(k)
+        # A sorted copy: never re-order the K of the caller.
+        K1 = np.unique(K)
+        K1 = K1[K1 < 10**3.2]
+        res = np.array([float(G(k)) for k in K1])
 
-        fit = spline(np.log(K1[K1 < 10**3.2]), np.log(res), k=1)
-        res = np.reshape(np.exp(fit(np.log(np.reshape(K, -1)))), (len(K[:, 0]), len(K[0, :])))
+        if len(K1) == 1:
+            return np.full(np.shape(K), res[0])
 
-        return res
+        fit = spline(np.log(K1), np.log(res), k=1)
+        return np.exp(fit(np.log(K)))
 
 
 class Einasto(Profile):
-- 
2.43.0


From a82381ad0555e19ed04b63178e73d2a1066e2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 04/70] fix: numerical Fourier profiles accept scalar and 1D
 wavenumbers and masses

---
 src/halomod/profiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 0d37b3a..c6dfe2d 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -264,9 +264,10 @@ class Profile(Component):
         of the profile, taken to a Hankel transform.
         """
         c = np.atleast_1d(c)
+        K = np.atleast_1d(K)
         if K.ndim < 2:
             # should be len(k) * len(rs)
-            K = np.atleast_2d(K) if len(K) != len(c) else np.atleast_2d(K).T
+            K = np.atleast_2d(K) if len(K) == len(c) else np.atleast_2d(K).T
 
         assert K.ndim == 2
         assert K.shape[1] == len(c)
@@ -276,7 +277,10 @@ class Profile(Component):
         # We get a shorter vector of different K's to find the integral for, otherwise
         # we need to do a full integral for every K (which is 2D, since K is different
         # for every c).
-        kk = np.logspace(np.log10(K.min()), np.log10(K.max()), 100)
+        kmin, kmax = K.min(), K.max()
+        if kmin == kmax:
+            kmin, kmax = 0.99 * kmin, 1.01 * kmax
+        kk = np.logspace(np.log10(kmin), np.log10(kmax), 100)
 
         intermediate_res = np.zeros((len(c), len(kk)))
 
-- 
2.43.0


From b4b2ad59bfc4a03c3a9c97cfa36e9f9a274cec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 05/70] fix: Fourier transform of the constant profile tends to
 unity at small k

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index c6dfe2d..986f399 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -881,7 +881,7 @@ class Constant(Profile):
         return c**3 / 3.0
 
     def _p(self, K, c):
-        return (-c * K * np.cos(c * K) + np.sin(c * K)) / K**3
+        return c**3 * sp.spherical_jn(1, c * K) / (c * K)
 
 
 class GeneralizedNFW(Profile):
-- 
2.43.0


From 6d25b96c2a82cea2b34f5decb26e8659c1a574b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/70] fix: Fourier transforms of MooreInf and
 GeneralizedNFWInf match their density profiles

---
 src/halomod/profiles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 986f399..2dc49cf 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -838,21 +838,21 @@ class MooreInf(Moore, ProfileInf):
     def _p(self, K):
         def G(k):
             return mpmath.meijerg(
-                [[1.0 / 2.0, 3.0 / 4.0, 1.0], []],
+                [[1.0 / 4.0, 1.0 / 2.0, 1.0], []],
                 [
                     [
-                        1.0 / 12.0,
                         1.0 / 4.0,
-                        5.0 / 12.0,
-                        0.5,
-                        3.0 / 4.0,
+                        1.0 / 4.0,
+                        1.0 / 2.0,
+                        7.0 / 12.0,
                         3.0 / 4.0,
+                        11.0 / 12.0,
                         1.0,
                     ],
-                    [-1.0 / 12.0, 7.0 / 12.0],
+                    [1.0 / 12.0, 5.0 / 12.0],
                 ],
                 k**6 / 46656.0,
-            ) / (4 * np.sqrt(3) * np.pi ** (5 / 2) * k)
+            ) / (2 * np.sqrt(2) * np.pi ** (5 / 2) * k**1.5)
 
         # A sorted copy: never re-order the K of the caller.
         K1 = np.unique(K)
@@ -939,7 +939,7 @@ class GeneralizedNFWInf(GeneralizedNFW, ProfileInf):
                 ],
                 [[0, 0, 0.5], [-0.5]],
                 k**2 / 4,
-            ) / (np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
+            ) / (2 ** self.params["alpha"] * np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
 
         # A sorted copy: never re-order the K of the caller.
         K1 = np.unique(K)
-- 
2.43.0


From 967c8062989a4da0dd28db419e50e365773cb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/70] fix: ExtendedSpline extrapolates negative data as a
 power law

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 711d299..494acb3 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -531,7 +531,7 @@ class ExtendedSpline:
             return _NormedCallable(fnc, norm)
         elif fnc == "power_law":
             assert np.all(x > 0), "to use a power-law, x must be >= 0"
-            if not np.all(y > 0) or np.all(y < 0):
+            if not (np.all(y > 0) or np.all(y < 0)):
                 warnings.warn(
                     "to use a power-law, y must be all positive or negative. "
                     "Switching to zero extrapolation.",
-- 
2.43.0


From e9d20a8f355339ab3c56dae961fcac336704c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 08/70] fix: ExtendedSpline does not truncate its values for
 integer arrays

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 494acb3..0e5c85c 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -561,7 +561,7 @@ class ExtendedSpline:
                 return self._spl(x)
         else:
             x = np.array(x)
-            out = np.zeros_like(x)
+            out = np.zeros(x.shape, dtype=np.result_type(x, float))
             lmask = x < self.xmin
             umask = x > self.xmax
             mmask = ~(lmask | umask)
-- 
2.43.0


From 49de730e9d0bf64d1ff7d247a8e9c7a3234fc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 09/70] fix: power_to_corr does not truncate the correlation
 for integer r

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 0e5c85c..bfd1508 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -297,7 +297,7 @@ def power_to_corr(power_func: callable, r: np.ndarray) -> np.ndarray:
     if not np.iterable(r):
         r = [r]
 
-    corr = np.zeros_like(r)
+    corr = np.zeros_like(r, dtype=float)
 
     # the number of steps to fit into a half-period at high-k. 6 is better than 1e-4.
     minsteps = 8
-- 
2.43.0


From fad514fedaf7e5a7abe9396dcdf23a4785e01108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/70] fix: populate draws centrals and satellites with the
 occupation of the HOD

---
 src/halomod/tools.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index bfd1508..3cb984d 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -396,7 +396,7 @@ def populate(
         rng = np.random.default_rng()
 
     # Define which halos have central galaxies.
-    cgal = rng.binomial(1, hodmod.central_occupation(masses))
+    cgal = rng.binomial(1, np.broadcast_to(hodmod.nc(masses), masses.shape))
     cmask = cgal > 0
     central_halos = np.arange(len(masses))[cmask]
 
@@ -405,10 +405,12 @@ def populate(
         centres = centres[cmask]
 
     # Calculate the number of satellite galaxies in halos
-    # Using ns gives the correct answer for both central condition and not.
-    # Note that other parts of the algorithm also need to be changed if central condition
-    # is not true.
-    sgal = poisson.rvs(hodmod.ns(masses), random_state=rng)
+    # ns is the average over *all* halos, so if only those with a central can have
+    # satellites, they must have more of them.
+    mean_sat = np.broadcast_to(hodmod.ns(masses), masses.shape)
+    if hodmod._central:
+        mean_sat = mean_sat / hodmod.nc(masses)
+    sgal = poisson.rvs(mean_sat, size=masses.shape, random_state=rng)
 
     # Get an array ready, hopefully speeds things up a bit
     ncen = np.sum(cgal)
-- 
2.43.0


From 7dab952e2ac8bacf7c2321a9e647650f1143eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 11/70] fix: populate returns an empty catalogue when no halo
 hosts a tracer

---
 src/halomod/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 3cb984d..dd9fcf7 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -459,11 +459,11 @@ def populate(
 
     logger.info(
         f"Took {time.time() - start} seconds, or "
-        f"{(time.time() - start) / nhalos_with_gal} each halo."
+        f"{(time.time() - start) / max(nhalos_with_gal, 1)} each halo."
     )
     logger.info(
         f"NhalosWithGal: {nhalos_with_gal}, Ncentrals: {ncen}, NumGal: {len(halo)}, "
-        f"MeanGal: {float(len(halo)) / nhalos_with_gal}, "
+        f"MeanGal: {float(len(halo)) / max(nhalos_with_gal, 1)}, "
         f"MostGal: {sgal.max() + 1 if len(sgal) > 0 else 1}"
     )
 
-- 
2.43.0


From c501058de728e823989438cf299cad0ecb27b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 12/70] fix: populate places the tracer with the tracer profile
 of the halo model

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index dd9fcf7..e358776 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -387,7 +387,7 @@ def populate(
         Number of central galaxies. The first H galaxies in pos/halo correspond to centrals.
     """
     if halomodel is not None:
-        profile = halomodel.halo_profile
+        profile = halomodel.tracer_profile
         hodmod = halomodel.hod
 
     masses = np.array(masses)
-- 
2.43.0


From 52fd862cda86b1053e27f419f882ad6e871998ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 13/70] fix: no NaN satellite occupation just below M_min in
 the Tinker05 HOD

---
 src/halomod/hod.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index 5ac52b3..2e18ab7 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -458,10 +458,13 @@ class Tinker05(Zehavi05):
         # central_occupation(M_min) == 1 and exp(-inf) == 0, but numpy raises a
         # RuntimeWarning for the intermediate division.  Suppress it here.
         with np.errstate(divide="ignore", invalid="ignore"):
-            return (
+            # Below M_min the exponential may overflow, but there are no satellites there.
+            return np.where(
+                out > 0,
                 out
                 * np.exp(-(10 ** self.params["M_cut"]) / (m - 10 ** self.params["M_min"]))
-                * (m / 10 ** self.params["M_1"])
+                * (m / 10 ** self.params["M_1"]),
+                0.0,
             )
 
 
-- 
2.43.0


From 55a42cdf836d00316794f8ad546ce9ca4bfe86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 14/70] fix: satellite occupation is not truncated for integer
 masses

---
 src/halomod/hod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index 2e18ab7..02938ab 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -292,7 +292,7 @@ class Zehavi05(HODPoisson):
 
     def _central_occupation(self, m):
         """Amplitude of central tracer at mass M."""
-        n_c = np.ones_like(m)
+        n_c = np.ones_like(m, dtype=float)
         n_c[m < 10 ** self.params["M_min"]] = 0
 
         return n_c
@@ -341,7 +341,7 @@ class Zheng05(HODPoisson):
 
     def _satellite_occupation(self, m):
         """Amplitude of satellite tracer at mass M."""
-        ns = np.zeros_like(m)
+        ns = np.zeros_like(m, dtype=float)
         ns[m > 10 ** self.params["M_0"]] = (
             (m[m > 10 ** self.params["M_0"]] - 10 ** self.params["M_0"]) / 10 ** self.params["M_1"]
         ) ** self.params["alpha"]
@@ -668,7 +668,7 @@ class Spinelli19(HODPoisson):
 
     def _tracer_per_satellite(self, M):
         """Number of tracer per satellite tracer source."""
-        n_s = np.zeros_like(M)
+        n_s = np.zeros_like(M, dtype=float)
         index = np.logical_and(
             10 ** self.params["M_min_counts"] <= M,
             10 ** self.params["M_max_counts"] >= M,
-- 
2.43.0


From ba02f7425dc77d075d4261fa898a21947dd0184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 15/70] fix: creating a WDM concentration relation does not
 alter the CDM relation

---
 src/halomod/wdm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index d7433cb..4c731e8 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -35,8 +35,9 @@ def CMRelationWDMRescaled(name):
         b1 = self.params["beta1"]
         return cm * (1 + g1 * self.m_hm / m) ** (-g2) * (1 + z) ** (b0 * z - b1)
 
-    K = type(name + "WDM", (x,), {})
-    K._defaults.update({"g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04})
+    # Do not touch the defaults of the base relation.
+    defaults = x._defaults | {"g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04}
+    K = type(name + "WDM", (x,), {"_defaults": defaults})
 
     K.__init__ = __init__
     K.cm = cm
-- 
2.43.0


From d4e597f44127eef5abfdbf62d3c5d64b6d52c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 16/70] fix: WDM halo fraction and halo-halo power are
 normalised by the comoving matter density

---
 src/halomod/wdm.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index 4c731e8..a09363f 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -63,7 +63,8 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def f_halos(self):
         """The total fraction of mass bound up in halos."""
-        return self.rho_gtm[0] / self.mean_density
+        # The mass function is comoving, and so is the mean density required here.
+        return self.rho_gtm[0] / self.mean_density0
 
     @cached_quantity
     def power_auto_matter(self):
@@ -77,11 +78,9 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def power_auto_matter_hh(self) -> np.ndarray:
         """The halo-halo matter power spectrum (includes both 1-halo and 2-halo terms)."""
-        return (
-            (self.power_1h_auto_matter + self.power_2h_auto_matter)
-            * self.mean_density**2
-            / self.rho_gtm[0] ** 2
-        )
+        # The 1-halo term is normalised by the total matter density, but the 2-halo term
+        # is already normalised by that in halos.
+        return self.power_1h_auto_matter / self.f_halos**2 + self.power_2h_auto_matter
 
     @cached_quantity
     def power_auto_matter_sh(self) -> np.ndarray:
@@ -113,7 +112,7 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def mean_density_smooth(self):
         """Mean density of matter outside halos."""
-        return (1 - self.f_halos) * self.mean_density
+        return (1 - self.f_halos) * self.mean_density0
 
     @parameter("model")
     def halo_concentration_model(self, val):
-- 
2.43.0


From 162d1e7e030552f015a0b935cd8b736e9397b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 17/70] fix: spline_integral honours a limit of exactly zero

---
 src/halomod/tools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index e358776..9963312 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -675,12 +675,12 @@ def spline_integral(
     integral
         The integral from ``xmin`` to ``xmax``.
     """
-    if xmin and xmin < x.min():
+    if xmin is not None and xmin < x.min():
         warnings.warn(
             f"Extrapolation occurs in integral! xmin={xmin} while x.min() ={x.min()}",
             stacklevel=2,
         )
-    if xmax and xmax > x.max():
+    if xmax is not None and xmax > x.max():
         warnings.warn(
             f"Extrapolation occurs in integral! xmax={xmax} while x.max() ={x.max()}",
             stacklevel=2,
@@ -694,7 +694,10 @@ def spline_integral(
         )
     else:
         spl = spline(x, f)
-        return spl.integral(xmin or x.min(), xmax or x.max())
+        return spl.integral(
+            xmin if xmin is not None else x.min(),
+            xmax if xmax is not None else x.max(),
+        )
 
 
 def norm_warn(self):
-- 
2.43.0


From 54120032460e28ff9f71d9e45b32a5ab5db41719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 18/70] fix: models do not alias the parameter dictionaries
 given by the caller

---
 src/halomod/cross_correlations.py |  6 +++---
 src/halomod/halo_model.py         | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index b4013ec..4a9d636 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -200,8 +200,8 @@ class CrossCorrelations(Framework):
         self.cross_hod_model = cross_hod_model
         self.cross_hod_params = cross_hod_params or {}
 
-        self._halo_model_1_params = halo_model_1_params or {}
-        self._halo_model_2_params = halo_model_2_params or {}
+        self._halo_model_1_params = dict(halo_model_1_params or {})
+        self._halo_model_2_params = dict(halo_model_2_params or {})
 
     @parameter("model")
     def cross_hod_model(self, val):
@@ -209,7 +209,7 @@ class CrossCorrelations(Framework):
 
     @parameter("param")
     def cross_hod_params(self, val):
-        return val
+        return dict(val or {})
 
     @subframework
     def halo_model_1(self) -> TracerHaloModel:
diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 10a1f65..eb27adf 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -200,7 +200,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for the Bias model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def hc_spectrum(self, val):
@@ -227,7 +227,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for the Profile model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("model")
     def halo_concentration_model(self, val):
@@ -239,7 +239,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for the concentration model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def rmin(self, val):
@@ -302,7 +302,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for Scale Dependant Bias."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def force_1halo_turnover(self, val):
@@ -321,14 +321,14 @@ class DMHaloModel(MassFunction):
         """Options for colossus cosmology not set/derived in the astropy cosmology."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("param")
     def exclusion_params(self, val):
         """Dictionary of parameters for the Exclusion model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     # ===========================================================================
     # Basic Quantities
@@ -1004,7 +1004,7 @@ class TracerHaloModel(DMHaloModel):
         """Dictionary of parameters for the HOD model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("model")
     def hod_model(self, val):
@@ -1016,7 +1016,7 @@ class TracerHaloModel(DMHaloModel):
         """Dictionary of parameters for the tracer Profile model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("model")
     def tracer_profile_model(self, val):
@@ -1037,7 +1037,7 @@ class TracerHaloModel(DMHaloModel):
         """Dictionary of parameters for tracer concentration-mass relation."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def force_1halo_turnover(self, val):
-- 
2.43.0


From b385832b325931f63dcb8e80be3768ec5e696fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 19/70] fix: cached quantities follow the parameters of newly
 chosen component models

Which parameters a quantity depends on changes with the component models, so
these are switches. Quantities dropped by a switch are indexed anew, also when
other parameters change before they are read, and in sub-frameworks. The matter
bias is recalculated when force_unity_dm_bias changes.
---
 src/halomod/cross_correlations.py | 11 ++++++-
 src/halomod/halo_model.py         | 50 ++++++++++++++++++++++++-------
 src/halomod/wdm.py                |  2 +-
 3 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 4a9d636..7a93450 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -27,7 +27,7 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 from hmf import Component, Framework
-from hmf._internals._cache import cached_quantity, parameter, subframework
+from hmf._internals._cache import cached_quantity, hidden_loc, parameter, subframework
 from hmf._internals._framework import get_mdl, pluggable
 from scipy import integrate as intg
 from scipy.interpolate import InterpolatedUnivariateSpline as _IUS
@@ -203,6 +203,15 @@ class CrossCorrelations(Framework):
         self._halo_model_1_params = dict(halo_model_1_params or {})
         self._halo_model_2_params = dict(halo_model_2_params or {})
 
+    def update(self, **kwargs):
+        """Update parameters of the framework with kwargs."""
+        super().update(**kwargs)
+
+        # The quantities of the sub-frameworks on which those of this one depend may
+        # have changed with the parameters, so index them anew.
+        for index in ("recalc", "recalc_prop_par", "active_q"):
+            getattr(self, hidden_loc(self, index)).clear()
+
     @parameter("model")
     def cross_hod_model(self, val):
         return get_mdl(val, "_HODCross")
diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index eb27adf..bf1d6ee 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -21,6 +21,7 @@ import numpy as np
 import scipy.integrate as intg
 from hmf import Cosmology, MassFunction, cached_quantity, parameter
 from hmf._internals import get_mdl
+from hmf._internals._cache import hidden_loc
 from hmf.cosmology.cosmo import astropy_to_colossus
 from hmf.density_field.filters import TopHat
 from scipy.interpolate import InterpolatedUnivariateSpline as spline
@@ -177,7 +178,31 @@ class DMHaloModel(MassFunction):
     # ===============================================================================
     # Parameters
     # ===============================================================================
+    def __delattr__(self, name):
+        """Drop a cached quantity whose dependencies may have changed."""
+        if name.startswith(":"):
+            # A quantity of a framework that has this one as a sub-framework: it can
+            # not be dropped from here, but it has to be calculated anew.
+            getattr(self, hidden_loc(self, "recalc"))[name] = True
+        else:
+            super().__delattr__(name)
+
+    def _clean_index(self):
+        """Forget the dependencies of quantities that have been dropped.
+
+        Without this, a quantity that is dropped because of a "switch" parameter and
+        then affected by another parameter is never indexed again.
+        """
+        recalc = getattr(self, hidden_loc(self, "recalc"))
+        prop_par = getattr(self, hidden_loc(self, "recalc_prop_par"))
+        getattr(self, hidden_loc(self, "active_q")).clear()
+
+        for name in recalc.keys() ^ prop_par.keys():
+            recalc.pop(name, None)
+            prop_par.pop(name, None)
+
     def validate(self):
+        self._clean_index()
         super().validate()
         if not hasattr(self.rmin, "__len__"):
             assert self.rmin < self.rmax, f"rmin >= rmax: {self.rmin}, {self.rmax}"
@@ -190,7 +215,7 @@ class DMHaloModel(MassFunction):
             f"_logr_table_min >= logr_table_max: {self._logr_table_min}, {self._logr_table_max}"
         )
 
-    @parameter("model")
+    @parameter("switch")
     def bias_model(self, val):
         """Bias Model."""
         return get_mdl(val, "Bias")
@@ -217,7 +242,7 @@ class DMHaloModel(MassFunction):
             )
         return val
 
-    @parameter("model")
+    @parameter("switch")
     def halo_profile_model(self, val):
         """The halo density halo_profile model."""
         return get_mdl(val, "Profile")
@@ -229,7 +254,7 @@ class DMHaloModel(MassFunction):
         assert isinstance(val, dict)
         return dict(val)
 
-    @parameter("model")
+    @parameter("switch")
     def halo_concentration_model(self, val):
         """A halo_concentration-mass relation."""
         return get_mdl(val, CMRelation)
@@ -289,7 +314,7 @@ class DMHaloModel(MassFunction):
         """The maximum k bin in log10."""
         return float(val)
 
-    @parameter("model")
+    @parameter("switch")
     def sd_bias_model(self, val):
         """Model of Scale Dependant Bias."""
         if val is None:
@@ -309,7 +334,12 @@ class DMHaloModel(MassFunction):
         """Suppress 1-halo power on scales larger than a few virial radii."""
         return bool(val)
 
-    @parameter("model")
+    @parameter("switch")
+    def force_unity_dm_bias(self, val):
+        """Normalise the effective bias of matter to unity."""
+        return bool(val)
+
+    @parameter("switch")
     def exclusion_model(self, val):
         """A string identifier for the type of halo exclusion used (or None)."""
         if val is None:
@@ -1006,33 +1036,33 @@ class TracerHaloModel(DMHaloModel):
         assert isinstance(val, dict)
         return dict(val)
 
-    @parameter("model")
+    @parameter("switch")
     def hod_model(self, val):
         """:class:`~hod.HOD` class."""
         return get_mdl(val, "HOD")
 
-    @parameter("param")
+    @parameter("switch")
     def tracer_profile_params(self, val: dict):
         """Dictionary of parameters for the tracer Profile model."""
         val = val or {}
         assert isinstance(val, dict)
         return dict(val)
 
-    @parameter("model")
+    @parameter("switch")
     def tracer_profile_model(self, val):
         """The tracer density halo_profile model."""
         if val is None:
             return val
         return get_mdl(val, "Profile")
 
-    @parameter("model")
+    @parameter("switch")
     def tracer_concentration_model(self, val):
         """The tracer concentration-mass relation."""
         if val is None:
             return val
         return get_mdl(val, CMRelation)
 
-    @parameter("param")
+    @parameter("switch")
     def tracer_concentration_params(self, val):
         """Dictionary of parameters for tracer concentration-mass relation."""
         val = val or {}
diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index a09363f..1cf98a6 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -114,7 +114,7 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
         """Mean density of matter outside halos."""
         return (1 - self.f_halos) * self.mean_density0
 
-    @parameter("model")
+    @parameter("switch")
     def halo_concentration_model(self, val):
         """A halo_concentration-mass relation."""
         if isinstance(val, str) and val.endswith("WDM"):
-- 
2.43.0


From 44d76ad781ce71fd4c859bc2ca8e5d5d9d361ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 20/70] fix: the requested tracer density is delivered for
 every HOD or rejected

cumtrapz is gone from scipy, the density was that of a finer mass grid than the
one in use, and densities that are too low were silently accepted.
---
 src/halomod/halo_model.py | 71 ++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index bf1d6ee..d247f8d 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -25,7 +25,7 @@ from hmf._internals._cache import hidden_loc
 from hmf.cosmology.cosmo import astropy_to_colossus
 from hmf.density_field.filters import TopHat
 from scipy.interpolate import InterpolatedUnivariateSpline as spline
-from scipy.optimize import minimize
+from scipy.optimize import brentq
 
 # import hmf.tools as ht
 from . import tools
@@ -1006,16 +1006,19 @@ class TracerHaloModel(DMHaloModel):
 
     def update(self, **kwargs):
         """Updates any parameter passed."""
-        if "tracer_density" in kwargs:
-            self.tracer_density = kwargs.pop("tracer_density")
-        elif "hod_params" in kwargs and "M_min" in kwargs["hod_params"]:
-            self.tracer_density = None
+        if "tracer_density" not in kwargs and "M_min" in (kwargs.get("hod_params") or {}):
+            kwargs["tracer_density"] = None
 
         super().update(**kwargs)
 
         if self.tracer_density is not None:
-            mmin = self._find_m_min(self.tracer_density)
-            self.hod_params = {"M_min": mmin}
+            try:
+                mmin = self._find_m_min(self.tracer_density)
+            except NGException:
+                # Do not pretend that the model has this density.
+                super().update(tracer_density=None)
+                raise
+            super().update(hod_params={"M_min": mmin})
 
     # ===============================================================================
     # Parameters
@@ -1704,45 +1707,29 @@ class TracerHaloModel(DMHaloModel):
         Calculate the minimum mass of a halo to contain a (central) galaxy
         based on a known mean galaxy density.
         """
-        _ = self.power  # This just makes sure the power is gotten and copied
-        c = self.clone(hod_params={"M_min": self.Mmin}, dlog10m=0.01)
-
-        integrand = c.m[c._tm] * c.dndm[c._tm] * c.total_occupation[c._tm]
-
-        density_message = (
-            f"Maximum mean galaxy density exceeded. User input required density of {ng}, "
-            "but maximum density (with HOD M_min == DM Mmin) is {}. "
-            "Consider decreasing Mmin,or checking tracer_density."
-        )
-        if self.hod.sharp_cut:
-            integral = intg.cumtrapz(integrand[::-1], dx=np.log(c.m[1] / c.m[0]))
-
-            if integral[-1] < ng:
-                raise NGException(density_message.format(integral[-1]))
+        _ = self.dndm  # This just makes sure that it is gotten and copied
+        c = self.clone(hod_params={"M_min": self.Mmin})
 
-            ind = np.where(integral > ng)[0][0]
+        def excess(mmin):
+            c.update(hod_params={"M_min": mmin})
+            return np.log(max(c.mean_tracer_den, np.finfo(float).tiny) / ng)
 
-            m = c.m[c._tm][::-1][1:][max(ind - 4, 0) : min(ind + 4, len(c.m))]
-            integral = integral[max(ind - 4, 0) : min(ind + 4, len(c.m))]
+        # There must be more than one mass that hosts the tracer.
+        lower, upper = self.Mmin, np.log10(self.m[-3])
 
-            spline_int = spline(np.log(integral), np.log(m), k=3)
-            mmin = spline_int(np.log(ng)) / np.log(10)
-        else:
-            # Anything else requires us to do some optimization unfortunately.
-            integral = intg.simpson(integrand, dx=np.log(c.m[1] / c.m[0]))
-            if integral < ng:
-                raise NGException(density_message.format(integral))
-
-            def model(mmin):
-                c.update(hod_params={"M_min": mmin})
-                integrand = c.m[c._tm] * c.dndm[c._tm] * c.total_occupation[c._tm]
-                integral = intg.simpson(integrand, dx=np.log(c.m[1] / c.m[0]))
-                return abs(integral - ng)
-
-            res = minimize(model, 12.0, tol=1e-3, method="Nelder-Mead", options={"maxiter": 200})
-            mmin = res.x[0]
+        if excess(lower) < 0:
+            raise NGException(
+                f"Maximum mean galaxy density exceeded. User input required density of {ng}, "
+                f"but maximum density (with HOD M_min == DM Mmin) is {c.mean_tracer_den}. "
+                "Consider decreasing Mmin,or checking tracer_density."
+            )
+        if excess(upper) > 0:
+            raise NGException(
+                f"User input required mean galaxy density of {ng}, but with the given HOD it is "
+                f"at least {c.mean_tracer_den}. Consider checking hod_params and tracer_density."
+            )
 
-        return mmin
+        return brentq(excess, lower, upper, xtol=1e-10)
 
 
 # For compatibility
-- 
2.43.0


From 77c8e167f69ddde6d774023ac0931f0fe57468d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 21/70] fix: power_hh at a single halo mass uses the bias at
 that mass

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index d247f8d..5d0399a 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -625,7 +625,7 @@ class DMHaloModel(MassFunction):
             mmax2 = mmax
 
         if mmin == mmax or mmin2 == mmax2:
-            spl = spline(np.log10(self.m), self.bias)
+            spl = spline(np.log10(self.m), self.halo_bias)
 
         def get_b(mn, mx):
             if mn == mx:
-- 
2.43.0


From 51b23f8e3d2600599955c7a23f0afe2ab395e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 22/70] fix: large-scale 2-halo power with exclusion or
 scale-dependent bias

The mask was that of another wavenumber grid, and the power scales with the square
of the effective bias.
---
 src/halomod/halo_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 5d0399a..59cae77 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -848,14 +848,14 @@ class DMHaloModel(MassFunction):
 
         # Everything below about k=1e-2 is essentially just the linear power biased,
         # and the hankel transform stops working at some small k.
-        mask = self.k_hm < 1e-2
-        if np.any(mask):
+        mask = self.k < 1e-2
+        if np.any(self.k_hm < 1e-2):
             warnings.warn(
                 "power_2h_auto_tracer for k < 1e-2 is not computed directly, but "
-                "is rather just the linear power * effective bias.",
+                "is rather just the linear power * effective bias squared.",
                 stacklevel=2,
             )
-            out[mask] = self.power[mask] * effective_bias
+        out[mask] = self._power_halo_centres_fnc(self.k[mask]) * effective_bias**2
 
         return tools.ExtendedSpline(self.k, out, lower_func="power_law", upper_func=tools._zero)
 
-- 
2.43.0


From 0755c173d1d69711c329602386bdd27f93a96ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 23/70] fix: 2-halo correlation without exclusion extrapolates
 to small r as intended

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 59cae77..2292580 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -812,7 +812,7 @@ class DMHaloModel(MassFunction):
         # to power.
         corr = tools.hankel_transform(power_primitive, self._r_table, "r", h=1e-4)
 
-        lower_func = "power_law" if isinstance(Exclusion, NoExclusion) else tools._zero
+        lower_func = "power_law" if issubclass(self.exclusion_model, NoExclusion) else tools._zero
         return tools.ExtendedSpline(
             self._r_table, corr, lower_func=lower_func, upper_func=tools._zero
         )
-- 
2.43.0


From ba8c2eb3fccfde5d73440ea63b947c1f6e44b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 24/70] fix: a quantity that could not be evaluated does not
 break later updates

---
 src/halomod/halo_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 2292580..fe06d17 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -185,6 +185,8 @@ class DMHaloModel(MassFunction):
             # not be dropped from here, but it has to be calculated anew.
             getattr(self, hidden_loc(self, "recalc"))[name] = True
         else:
+            # It may still be active if it could not be evaluated.
+            getattr(self, hidden_loc(self, "active_q")).discard(name)
             super().__delattr__(name)
 
     def _clean_index(self):
-- 
2.43.0


From 40feb89239d143da56e1ac51a2565efca983122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 25/70] fix: concentration relations use a profile in the
 cosmology of the model

---
 src/halomod/halo_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index fe06d17..f9bf19f 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -423,6 +423,7 @@ class DMHaloModel(MassFunction):
             cm_relation=None,
             mdef=self.mdef,
             z=self.z,
+            cosmo=self.cosmo,
             nu_fn=self.nu_fn,
             **self.halo_profile_params,
         )
@@ -1126,6 +1127,7 @@ class TracerHaloModel(DMHaloModel):
                 cm_relation=None,
                 mdef=self.mdef,
                 z=self.z,
+                cosmo=self.cosmo,
                 nu_fn=self.nu_fn,
                 **self.halo_profile_params,
             )
@@ -1145,6 +1147,7 @@ class TracerHaloModel(DMHaloModel):
                 cm_relation=None,
                 mdef=self.mdef,
                 z=self.z,
+                cosmo=self.cosmo,
                 nu_fn=self.nu_fn,
                 **tr_params,
             )
-- 
2.43.0


From 24f12a88f5908d17c09f9de80b309245da92378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 26/70] fix: matter and tracer correlations vanish at large r
 for every profile

The 1-halo correlations that are offset by minus one keep that offset without a
profile self-convolution, and beyond the tabulated scales.
---
 src/halomod/halo_model.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index f9bf19f..e87fbb8 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -712,13 +712,13 @@ class DMHaloModel(MassFunction):
                 intg.trapezoid(integrand, dx=np.log(10) * self.dlog10m) / self.mean_density0**2 - 1
             )
         else:
-            table = tools.hankel_transform(self.power_1h_auto_matter_fnc, self._r_table, "r")
+            table = tools.hankel_transform(self.power_1h_auto_matter_fnc, self._r_table, "r") - 1
 
         return tools.ExtendedSpline(
             self._r_table,
             table,
             lower_func="power_law",
-            upper_func=tools._zero,
+            upper_func="boundary",
         )
 
     @property
@@ -1399,10 +1399,8 @@ class TracerHaloModel(DMHaloModel):
             c = c / self.mean_tracer_den**2 - 1
 
         else:
-            c = tools.hankel_transform(self.power_1h_ss_auto_tracer_fnc, self._r_table, "r")
-        return tools.ExtendedSpline(
-            self._r_table, c, lower_func="power_law", upper_func=tools._zero
-        )
+            c = tools.hankel_transform(self.power_1h_ss_auto_tracer_fnc, self._r_table, "r") - 1
+        return tools.ExtendedSpline(self._r_table, c, lower_func="power_law", upper_func="boundary")
 
     @property
     def corr_1h_ss_auto_tracer(self):
@@ -1458,9 +1456,7 @@ class TracerHaloModel(DMHaloModel):
 
         c = c / self.mean_tracer_den**2 - 1
 
-        return tools.ExtendedSpline(
-            self._r_table, c, lower_func="power_law", upper_func=tools._zero
-        )
+        return tools.ExtendedSpline(self._r_table, c, lower_func="power_law", upper_func="boundary")
 
     @property
     def corr_1h_cs_auto_tracer(self):
@@ -1506,7 +1502,7 @@ class TracerHaloModel(DMHaloModel):
                 return tools._SumCallable(
                     self.corr_1h_cs_auto_tracer_fnc,
                     self.corr_1h_ss_auto_tracer_fnc,
-                    offset=1,
+                    offset=2,
                 )
             except AttributeError:
                 c = tools.hankel_transform(self.power_1h_auto_tracer_fnc, self.r, "r")
-- 
2.43.0


From 5f6fb9998b486e7ca5c756d374508b4d12477550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 27/70] fix: tracer-matter cross-correlation vanishes at large
 r

---
 src/halomod/halo_model.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index e87fbb8..43164df 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1692,7 +1692,6 @@ class TracerHaloModel(DMHaloModel):
         return tools._SumCallable(
             self.corr_1h_cross_tracer_matter_fnc,
             self.corr_2h_cross_tracer_matter_fnc,
-            offset=1,
         )
 
     @property
-- 
2.43.0


From f9b1fc4d4b459eed43f2dba56f2c01a513a1cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 28/70] fix: 1-halo tracer correlation does not apply the
 central occupation twice

---
 src/halomod/halo_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 43164df..81b3f42 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1489,9 +1489,7 @@ class TracerHaloModel(DMHaloModel):
             for i, (rho, lam) in enumerate(zip(self.tracer_profile_rho, self.tracer_profile_lam)):
                 c[i] = tools.spline_integral(
                     self.m,
-                    self.dndm
-                    * (ss_pairs * lam + 2 * cs_pairs * rho)
-                    * (self._central_occupation if self.hod._central else 1),
+                    self.dndm * (ss_pairs * lam + 2 * cs_pairs * rho),
                     xmin=self.tracer_mmin,
                 )
 
-- 
2.43.0


From 31a09a32aaa0bb19dd3935e32467eecd18f677f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 29/70] fix: integrals over sharp-cut HODs use their actual
 central occupation

---
 src/halomod/halo_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 81b3f42..9f3c2e9 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1230,11 +1230,11 @@ class TracerHaloModel(DMHaloModel):
         """The central occupation to use when integrating over mass.
 
         The reason is because if a sharp cut happens, we need to make sure the spline
-        carries all the way through past the mmin as unity. Setting the pixel below mmin
+        carries all the way through past the mmin. Setting the pixel below mmin
         to zero causes a bad spline.
         """
         return (
-            np.ones_like(self.m)
+            self.hod.central_occupation(np.maximum(self.m, 10**self.hod.mmin))
             if (self.hod.sharp_cut and (self.hod._central or self.hod.central_condition_inherent))
             else self.central_occupation
         )
-- 
2.43.0


From 7e68dae2c1526a1a6c11f77ef1c7dd67a63b65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 30/70] fix: filtered halo-centre spectrum without a zero of
 the filter in the wavenumber range

---
 src/halomod/halo_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 9f3c2e9..40847be 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -499,8 +499,7 @@ class DMHaloModel(MassFunction):
         if self.hc_spectrum == "filtered-lin":
             f = TopHat(None, None)
             p = self.power * f.k_space(self.k * 2.0)
-            first_zero = np.where(p <= 0)[0][0]
-            p[first_zero:] = 0
+            p[np.maximum.accumulate(p <= 0)] = 0
             return tools.ExtendedSpline(
                 self.k,
                 p,
@@ -511,8 +510,7 @@ class DMHaloModel(MassFunction):
         elif self.hc_spectrum == "filtered-nl":
             f = TopHat(None, None)
             p = self.nonlinear_power * f.k_space(self.k * 3.0)
-            first_zero = np.where(p <= 0)[0][0]
-            p[first_zero:] = 0
+            p[np.maximum.accumulate(p <= 0)] = 0
             return tools.ExtendedSpline(
                 self.k,
                 p,
-- 
2.43.0


From ed62048c648e6f3a23c1fedbe108dd5b59c94c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 31/70] fix: double-integral halo exclusion honours the lower
 mass limit for both halos

---
 src/halomod/halo_exclusion.py | 82 +++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/halomod/halo_exclusion.py b/src/halomod/halo_exclusion.py
index bb41663..8543e6b 100644
--- a/src/halomod/halo_exclusion.py
+++ b/src/halomod/halo_exclusion.py
@@ -238,6 +238,18 @@ class Exclusion(Component):
             arr,
         )
 
+    @cached_property
+    def _weights(self) -> np.ndarray:
+        """The weight of each mass in an integral over log-mass. Shape (m,)."""
+        return self._spline_integrate(np.eye(len(self.m)))
+
+    def _cumulative_density(self) -> np.ndarray:
+        """The density in halos from :attr:`xmin` up to each mass. Shape (m,)."""
+        cumint = intg.cumulative_trapezoid(self.density * self.m, dx=self.dlnx, initial=0)
+        if self.xmin is None:
+            return cumint
+        return np.maximum(cumint - np.interp(np.log(self.xmin), np.log(self.m), cumint), 0)
+
     def integrate(self) -> np.ndarray:
         """
         Integrate the :meth:`raw_integrand` over mass.
@@ -372,7 +384,7 @@ class DblSphere(Sphere):
             integrand[self.mask[i]] = 0
             inner = self._spline_integrate(integrand)
             out[i] = self._spline_integrate(inner)
-        return np.sqrt(out)
+        return np.sqrt(np.maximum(out, 0))
 
     def integrate(self):
         """Integrate the :meth:`raw_integrand` over mass."""
@@ -383,8 +395,8 @@ class DblSphere(Sphere):
 def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
     """Integration function for double sphere model.
 
-    When *m* and *xmin* are provided the outer (m1) integral is evaluated via
-    a cubic spline so that the result varies smoothly as *xmin* changes.
+    When *m* and *xmin* are provided the integrals are evaluated via a cubic spline
+    from *xmin*, so that the result varies smoothly as *xmin* changes.
 
     Parameters
     ----------
@@ -395,7 +407,7 @@ def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
     m : np.ndarray or None
         Halo-mass grid (required when *xmin* is set).
     xmin : float or None
-        Smooth lower bound for the outer (m1) integral.  When ``None`` the
+        Smooth lower bound for both integrals.  When ``None`` the
         standard Simpson rule is used.  The caller is responsible for passing
         ``xmin=None`` when ``xmin <= m[0]``; this function does not re-check
         that condition.
@@ -407,26 +419,21 @@ def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
         lnm = np.log(m)
         lnxmin = np.log(xmin)
 
-        def _outer(inner_arr):
-            # Each row of inner_arr corresponds to a different r value and has
-            # distinct values, so a separate spline must be fitted per row.
-            return np.apply_along_axis(
-                lambda g: _IUS(lnm, g).integral(lnxmin, lnm[-1]),
-                -1,
-                inner_arr,
-            )
+        # The integral of a spline is linear in the values that are interpolated.
+        weights = np.array([_IUS(lnm, row).integral(lnxmin, lnm[-1]) for row in np.eye(len(m))])
+
+        def _integrate(arr):
+            return arr @ weights
     else:
 
-        def _outer(inner_arr):
-            return intg.simpson(inner_arr, dx=dx)
+        def _integrate(arr):
+            return intg.simpson(arr, dx=dx)
 
     for ik in range(integ.shape[1]):
         for ir in range(mask.shape[0]):
             integrand[ir] = np.outer(integ[ir, ik, :], integ[ir, ik, :])
         integrand[mask] = 0
-        # Inner integral (over m2) uses Simpson's rule; outer uses spline if xmin set.
-        inner = intg.simpson(integrand, dx=dx)
-        out[:, ik] = _outer(inner)
+        out[:, ik] = _integrate(_integrate(integrand))
     return out
 
 
@@ -453,12 +460,32 @@ if USE_NUMBA:
                 out[ir, ik] = dblsimps_(integrand, dx, dx)
         return out
 
+    @jit(nopython=True)
+    def integrate_pairs_(integ, prob, weights):  # pragma: no cover
+        r"""Double integration of symmetric pairs with given weights of the masses."""
+        nr = integ.shape[0]
+        nk = integ.shape[1]
+        nm = prob.shape[1]
+
+        out = np.zeros((nr, nk))
+
+        for ir in range(nr):
+            for ik in range(nk):
+                for im in range(nm):
+                    tot = weights[im] * integ[ir, ik, im] * prob[ir, im, im]
+                    for jm in range(im + 1, nm):
+                        tot += 2 * weights[jm] * integ[ir, ik, jm] * prob[ir, im, jm]
+                    out[ir, ik] += weights[im] * integ[ir, ik, im] * tot
+        return out
+
     class DblSphere_(DblSphere):  # pragma: no cover
         r"""The same as :class:`DblSphere`. But uses NUMBA to speed up the integration."""
 
         def integrate(self):
             """Integrate the :meth:`raw_integrand` over mass."""
             integ = self.raw_integrand()  # (r,k,m)
+            if self.xmin is not None:
+                return integrate_pairs_(integ, ~self.mask, self._weights)
             return integrate_dblsphere_(integ, self.mask, self.dlnx)
 
 
@@ -503,8 +530,7 @@ class DblEllipsoid(DblSphere):
         if self.xmin is None:
             return np.sqrt(dbltrapz(integrand, self.dlnx))
         # Spline integration for smooth lower bound: integrate inner (m2), then outer (m1)
-        inner = self._spline_integrate(integrand)  # (r, m1)
-        return np.sqrt(self._spline_integrate(inner))  # (r,)
+        return np.sqrt(np.maximum(integrand @ self._weights @ self._weights, 0))  # (r,)
 
     def integrate(self):
         """Integrate the :meth:`raw_integrand` over mass."""
@@ -515,9 +541,7 @@ class DblEllipsoid(DblSphere):
         for ik in range(integ.shape[1]):
             for ir in range(len(self.r)):
                 integrand[ir] = self.prob[ir] * np.outer(integ[ir, ik, :], integ[ir, ik, :])
-            # Inner integral (m2) uses Simpson's rule; outer (m1) uses spline if xmin set.
-            inner = intg.simpson(integrand, dx=self.dlnx)  # (r, m1)
-            out[:, ik] = self._spline_integrate(inner)  # (r,)
+            out[:, ik] = integrand @ self._weights @ self._weights  # (r,)
         return out
 
 
@@ -529,6 +553,10 @@ if USE_NUMBA:
         @cached_property
         def density_mod(self):  # pragma: no cover
             """The modified density, under new limits."""
+            if self.xmin is not None:
+                density = outer(np.ones((len(self.r), 1)), self.density * self.m)
+                pairs = integrate_pairs_(density, self.prob, self._weights)
+                return np.sqrt(np.maximum(pairs[:, 0], 0))
             return density_mod_(
                 self.r,
                 self.r_halo,
@@ -543,6 +571,8 @@ if USE_NUMBA:
 
         def integrate(self):  # pragma: no cover
             """Integrate the :meth:`raw_integrand` over mass."""
+            if self.xmin is not None:
+                return integrate_pairs_(self.raw_integrand(), self.prob, self._weights)
             return integrate_dblell(self.raw_integrand(), self.prob, self.dlnx)
 
     @jit(nopython=True)
@@ -620,8 +650,7 @@ class NgMatched(DblEllipsoid):
     @cached_property
     def mask(self):
         """Mask Function for matching density."""
-        integrand = self.density * self.m
-        cumint = intg.cumulative_trapezoid(integrand, dx=self.dlnx, initial=0)  # len m
+        cumint = self._cumulative_density()  # len m
         cumint = np.outer(np.ones_like(self.r), cumint)  # r,m
         return np.where(
             cumint > 1.0001 * np.outer(self.density_mod, np.ones_like(self.m)),
@@ -644,8 +673,7 @@ if USE_NUMBA:
         @cached_property
         def mask(self):
             """Mask Function for matching density."""
-            integrand = self.density * self.m
-            cumint = intg.cumulative_trapezoid(integrand, dx=self.dlnx, initial=0)  # len m
+            cumint = self._cumulative_density()  # len m
             cumint = np.outer(np.ones_like(self.r), cumint)  # r,m
             return np.where(
                 cumint > 1.0001 * np.outer(self.density_mod, np.ones_like(self.m)),
@@ -657,7 +685,7 @@ if USE_NUMBA:
             """Integrate the :meth:`raw_integrand` over mass."""
             integ = self.raw_integrand()  # r,k,m
             integ.transpose((1, 0, 2))[:, self.mask] = 0
-            return intg.simpson(integ, dx=self.dlnx) ** 2
+            return self._spline_integrate(integ) ** 2
 
 
 def cumsimps(func, dx):
-- 
2.43.0


From 78cb1bec5dd37fac8af384c5607df37dcd7bfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 32/70] fix: get_halomodel works with its default fast
 parameters, and the example configuration runs

---
 examples/example_run_config.toml | 2 +-
 src/halomod/functional.py        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/examples/example_run_config.toml b/examples/example_run_config.toml
index 55a8e18..3766263 100644
--- a/examples/example_run_config.toml
+++ b/examples/example_run_config.toml
@@ -6,7 +6,7 @@ framework = "halomod.TracerHaloModel"
 # The params section holds any parameters used in the framework.
 z = 1.0
 mdef_model = 'SOCritical'
-profile_model = 'Moore'
+halo_profile_model = 'Moore'
 
 [params.mdef_params]
 # Model parameters go in sub-dictionaries like this.
diff --git a/src/halomod/functional.py b/src/halomod/functional.py
index e5ed55d..dd164ee 100644
--- a/src/halomod/functional.py
+++ b/src/halomod/functional.py
@@ -18,7 +18,7 @@ def get_halomodel(
     :func:`~hmf.helpers.functional.get_hmf` for input parameters and yields.
     """
     fast_kwargs = fast_kwargs or {
-        "transfer_fit": "BBKS",
+        "transfer_model": "BBKS",
         "lnk_min": -4,
         "lnk_max": 2,
         "dlnk": 1,
@@ -27,9 +27,9 @@ def get_halomodel(
         "rmin": 10,
         "rmax": 20,
         "rnum": 4,
-        "halo_exclusion": "None",
-        "nonlinear": False,
-        "scale_dependent_bias": False,
+        "exclusion_model": None,
+        "hc_spectrum": "linear",
+        "sd_bias_model": None,
         "hod_model": "Zehavi05",
     }
     return get_hmf(required_attrs, get_label, kls, fast_kwargs, **kwargs)
-- 
2.43.0


From 2f1646c5f373ad56dee44ebefe64a19e4a91e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 33/70] fix: projected correlation is not truncated for integer
 separations

---
 src/halomod/integrate_corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index a1adc21..a2f2297 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -152,7 +152,7 @@ def projected_corr_gal(
     lnr = np.log(r)
     lnxi = np.log(xir)
 
-    p = np.zeros_like(rp_out)
+    p = np.zeros(len(rp_out))
     fit = _spline(r, xir, k=3)  # [self.corr_gal > 0] maybe?
     f_peak = 0.01
     a = 0
-- 
2.43.0


From b147e79949fff963eb48a2497b3ce88d5aaf5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 34/70] fix: the default selection of AngularCF follows its
 redshift limits

---
 src/halomod/integrate_corr.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index a2f2297..fd2dd89 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -281,9 +281,6 @@ class AngularCF(HaloModel):
                 stacklevel=2,
             )
 
-        if p1 is None:
-            p1 = flat_z_dist(zmin, zmax)
-
         self.p1 = p1
         self.p2 = p2
         self.zmin = zmin
@@ -302,7 +299,7 @@ class AngularCF(HaloModel):
 
     @parameter("param")
     def p1(self, val):
-        """The redshift distribution of the sample."""
+        """The redshift distribution of the sample. If None, flat in redshift."""
         return val
 
     @parameter("param")
@@ -374,6 +371,11 @@ class AngularCF(HaloModel):
         """If False, cancels checking the normalisation of :func:`p1` and :func:`p2`."""
         return val
 
+    @cached_quantity
+    def _selection(self):
+        """The redshift distribution of the sample in use."""
+        return flat_z_dist(self.zmin, self.zmax) if self.p1 is None else self.p1
+
     @cached_quantity
     def zvec(self):
         """Redshift distribution grid."""
@@ -423,7 +425,7 @@ class AngularCF(HaloModel):
         return angular_corr_gal(
             self.theta,
             self.corr_auto_tracer_fnc,
-            self.p1,
+            self._selection,
             self.zmin,
             self.zmax,
             self.logu_min,
@@ -433,7 +435,7 @@ class AngularCF(HaloModel):
             p2=self.p2,
             check_p_norm=self.check_p_norm,
             cosmo=self.cosmo,
-            p_of_z=self.p_of_z,
+            p_of_z=self.p_of_z or (self.p1 is None and self.p2 is None),
         )
 
     @cached_quantity
@@ -453,7 +455,7 @@ class AngularCF(HaloModel):
         return angular_corr_gal(
             self.theta,
             self.corr_auto_matter_fnc,
-            self.p1,
+            self._selection,
             self.zmin,
             self.zmax,
             self.logu_min,
@@ -463,7 +465,7 @@ class AngularCF(HaloModel):
             p2=self.p2,
             check_p_norm=self.check_p_norm,
             cosmo=self.cosmo,
-            p_of_z=self.p_of_z,
+            p_of_z=self.p_of_z or (self.p1 is None and self.p2 is None),
         )
 
 
-- 
2.43.0


From 211cdd0b8bb2a1e3ca12724b88a3547fe739ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 35/70] fix: AngularCF.xvec is in Mpc\/h as documented

---
 src/halomod/integrate_corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index fd2dd89..e149634 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -389,7 +389,7 @@ class AngularCF(HaloModel):
     @cached_quantity
     def xvec(self):
         """Radial distance grid (corresponds to zvec) [Mpc/h]."""
-        return self.cosmo.comoving_distance(self.zvec).value
+        return (self.cosmo.comoving_distance(self.zvec) * self.cosmo.h).value
 
     @cached_quantity
     def theta(self):
-- 
2.43.0


From c9f6c4418ebf18bc17ebd64dbf92d5dacb20122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 36/70] fix: self-convolution of the untruncated Hernquist
 profile

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 2dc49cf..1becb84 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -790,7 +790,7 @@ class HernquistInf(Hernquist, ProfileInf):
         h1 = (24 + 60 * x + 56 * x**2 + 24 * x**3 + 6 * x**4 + x**5) / (1 + x)
         h2 = 12 * (1 + x) * (2 + 2 * x + x**2) * np.log(1 + x) / x
 
-        return 4 * np.pi * 4 * (h1 - h2) / (x**4 * (2 + x) ** 4)
+        return 4 * np.pi * (h1 - h2) / (x**4 * (2 + x) ** 4)
 
 
 class Moore(Profile):
-- 
2.43.0


From 0850f12b5860ee83ddfea56c5714dc209b64d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 37/70] fix: the scale radius of the Moore profile is the halo
 radius over its concentration

---
 src/halomod/profiles.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 1becb84..f2d6c46 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -827,10 +827,6 @@ class Moore(Profile):
 
         return c
 
-    def _rs_from_m(self, m, c=None):
-        r_s = super()._rs_from_m(m, c)
-        return r_s * c / (c / 1.7) ** 0.9
-
 
 class MooreInf(Moore, ProfileInf):
     r"""The same with Moore, but not truncated at x=c."""
-- 
2.43.0


From 36fbf3f14e5c96935da09a0ab799f294c6f1fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 38/70] fix: cumulative mass of the power-law profile with
 exponential cut-off

---
 src/halomod/profiles.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index f2d6c46..552eb17 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -1105,6 +1105,16 @@ class PowerLawWithExpCut(ProfileInf):
             * np.ones_like(c)
         )
 
+    def cdf(self, r, c=None, m=None, coord="r"):
+        """
+        The cumulative distribution function, :math:`m(<x)/m_v`.
+
+        See :meth:`Profile.cdf` for the parameters.
+        """
+        c, _r_s, x = self._get_r_variables(r, m, c, coord)
+        a, s = self.params["a"], 3 - self.params["b"]
+        return gammainc(s, a * x) / gammainc(s, a * c)
+
     def _p(self, K, c=None):
         b = self.params["b"]
         a = self.params["a"]
-- 
2.43.0


From 5a0c51023c7bbf8f7fa8f2255de5cbe657526f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 39/70] fix: profile transforms and self-convolutions are not
 truncated for integer coordinates

---
 src/halomod/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 552eb17..7c7b1cf 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -309,7 +309,7 @@ class Profile(Component):
                     intermediate_res[indx, j] = integral
 
         # Now we need to interpolate onto the actual K values we have at each c.
-        out = np.zeros_like(K)
+        out = np.zeros_like(K, dtype=float)
         for ic, integral in enumerate(intermediate_res):
             spl = spline(kk, integral)
             out[:, ic] = spl(K[:, ic])
@@ -692,7 +692,7 @@ class NFW(Profile):
     def _l(self, x, c):
         x = np.atleast_1d(x)
         c = np.atleast_1d(c)
-        result = np.zeros_like(x)
+        result = np.zeros_like(x, dtype=float)
 
         if np.all(x > 2 * c):
             return result  # Stays as zero
-- 
2.43.0


From ebe28b7a9e1ca4424ecdf4a6c92d3ba8ff956838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 40/70] fix: enclosed mass of the generalized NFW profile does
 not depend on the largest requested radius

---
 src/halomod/profiles.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 7c7b1cf..2fdd0ac 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -908,16 +908,9 @@ class GeneralizedNFW(Profile):
     def _f(self, x):
         return 1.0 / (x ** self.params["alpha"] * (1 + x) ** (3 - self.params["alpha"]))
 
-    # def _h(self, c=None, m=None):
-    #     if c is None and m is None:
-    #         raise ValueError("Either c or m must be provided.")
-    #     if m is not None:
-    #         c = self.cm_relation(m)
-    #
-    #     c = np.complex(c)
-    #     f1 = -((-c) ** self.params['alpha']) * c ** self.params['alpha']
-    #     f2 = mpmath.betainc(-c, 3 - self.params['alpha'], self.params['alpha'] - 2)
-    #     return (f1 * f2).real
+    def _h(self, c):
+        s = 3 - self.params["alpha"]
+        return c**s / s * sp.hyp2f1(s, s, s + 1, -c)
 
 
 class GeneralizedNFWInf(GeneralizedNFW, ProfileInf):
-- 
2.43.0


From 1db0fe440bc5dd40aa6cee3d60cd745ce32a40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 41/70] fix: satellites of Leauthaud11 are not weighted twice
 by the central occupation

---
 src/halomod/hod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index 02938ab..303087e 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -775,7 +775,8 @@ class Leauthaud11(HODPoisson):
         "M_min": 10,
     }
     sharp_cut = False  # or False
-    central_condition_inherent = False  # or False
+    # The satellite occupation is already modulated by the central occupation.
+    central_condition_inherent = True
 
     def _central_occupation(self, m):
         """Expected number of central galaxies in a halo.
-- 
2.43.0


From 1072faab999cbc01b6dd3b1977e0169401790eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 42/70] fix: the minimum mass of Leauthaud11 does not change
 when its occupation is read

---
 src/halomod/hod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index 303087e..e8a0187 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -778,6 +778,11 @@ class Leauthaud11(HODPoisson):
     # The satellite occupation is already modulated by the central occupation.
     central_condition_inherent = True
 
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        # M_min follows from the stellar mass threshold.
+        self._update_M_min()
+
     def _central_occupation(self, m):
         """Expected number of central galaxies in a halo.
         See Equation 8 of arXiv:1103.2077.
-- 
2.43.0


From 88105822ad1de6177b23aefc5aefd4b0773d0050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 43/70] fix: populate accepts an empty halo list

---
 src/halomod/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 9963312..1d6888a 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -410,7 +410,8 @@ def populate(
     mean_sat = np.broadcast_to(hodmod.ns(masses), masses.shape)
     if hodmod._central:
         mean_sat = mean_sat / hodmod.nc(masses)
-    sgal = poisson.rvs(mean_sat, size=masses.shape, random_state=rng)
+    # (explicit type, for the case that there are no halos)
+    sgal = np.asarray(poisson.rvs(mean_sat, size=masses.shape, random_state=rng), dtype=int)
 
     # Get an array ready, hopefully speeds things up a bit
     ncen = np.sum(cgal)
-- 
2.43.0


From 6b5b79e9e828d31a1cd6750ffac4bd36837b9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 44/70] fix: colossus-based bias and concentration keep the
 cosmology of their own model

---
 src/halomod/bias.py          | 8 ++++++--
 src/halomod/concentration.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/halomod/bias.py b/src/halomod/bias.py
index a3fbf76..44b36b7 100644
--- a/src/halomod/bias.py
+++ b/src/halomod/bias.py
@@ -63,7 +63,7 @@ from __future__ import annotations
 
 import numpy as np
 from astropy.cosmology import FLRW, Planck15
-from colossus.cosmology.cosmology import fromAstropy
+from colossus.cosmology.cosmology import fromAstropy, setCurrent
 from colossus.lss.bias import haloBiasFromNu
 from hmf import Component
 from hmf._internals import pluggable
@@ -815,9 +815,13 @@ def make_colossus_bias(model="comparat17", mdef=SO_MEAN, **defaults):
         def __init__(self, *args, **kwargs):
             super().__init__(*args, **kwargs)
 
-            fromAstropy(self.cosmo, sigma8=self.sigma_8, ns=self.n)
+            self._colossus_cosmo = fromAstropy(
+                self.cosmo, sigma8=self.sigma_8, ns=self.n, cosmo_name="", persistence=""
+            )
 
         def bias(self):
+            # colossus works with a global cosmology, which may belong to another model by now
+            setCurrent(self._colossus_cosmo)
             return haloBiasFromNu(
                 nu=np.sqrt(self.nu),
                 z=self.z,
diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 07dd304..60cc953 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -53,7 +53,7 @@ from __future__ import annotations
 import warnings
 
 import numpy as np
-from colossus.cosmology.cosmology import fromAstropy
+from colossus.cosmology.cosmology import fromAstropy, setCurrent
 from colossus.halo import concentration
 from hmf import Component
 from hmf._internals import pluggable
@@ -205,11 +205,13 @@ def make_colossus_cm(model="diemer15", **defaults):
                 warnings.filterwarnings(
                     "ignore", "Astropy cosmology class contains massive neutrinos"
                 )
-                fromAstropy(
+                self._colossus_cosmo = fromAstropy(
                     self.cosmo.cosmo, sigma8=self.sigma_8, ns=self.ns, cosmo_name="", persistence=""
                 )
 
         def cm(self, m, z=0):
+            # colossus works with a global cosmology, which may belong to another model by now
+            setCurrent(self._colossus_cosmo)
             return self.norm * concentration.concentration(
                 M=m,
                 mdef=self.mdef.colossus_name,
-- 
2.43.0


From 05662edcc67a75087bb993576635c36284c48117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 45/70] Restore the example configuration

---
 examples/example_run_config.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/example_run_config.toml b/examples/example_run_config.toml
index 3766263..55a8e18 100644
--- a/examples/example_run_config.toml
+++ b/examples/example_run_config.toml
@@ -6,7 +6,7 @@ framework = "halomod.TracerHaloModel"
 # The params section holds any parameters used in the framework.
 z = 1.0
 mdef_model = 'SOCritical'
-halo_profile_model = 'Moore'
+profile_model = 'Moore'
 
 [params.mdef_params]
 # Model parameters go in sub-dictionaries like this.
-- 
2.43.0


From 42cc3dad9f8c4d6a872a16013c8339e1ac17a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 46/70] fix: Ludlow16 concentrations at high redshift do not
 saturate at the largest tabulated value

---
 src/halomod/concentration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 60cc953..c2237fe 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -557,8 +557,9 @@ class Ludlow16(CMRelation):
         # Calculate zf for all values in cvec
         cvec, zf = self._eq6_zf(cvec, C, z)
 
-        # Mask out those that are unphysical
-        mask = (np.isnan(zf) | np.isinf(zf)) | (zf < 0)
+        # Mask out those that are unphysical, and the radiation-dominated regime where hmf
+        # may switch ODE solvers, causing a normalization inconsistency in growth_factor.
+        mask = (np.isnan(zf) | np.isinf(zf)) | (zf < 0) | (zf > 50)
         zf = zf[~mask]
         cvec = cvec[~mask]
 
-- 
2.43.0


From 2548488dae7053fb1efafb054ec7260c5add7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 47/70] fix: Ludlow16 gives the same concentration for scalar,
 integer and floating-point masses

---
 src/halomod/concentration.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index c2237fe..fef743b 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -586,23 +586,18 @@ class Ludlow16(CMRelation):
         # print("num: ", num)
         # print("den: ", den[indx_mass])
 
-        if np.isscalar(m):
-            rhs = rhs[:, 0]
-            spl = interp1d(lhs - rhs, cvec)
-            return spl(0.0)
-        else:
-            out = np.zeros_like(m)
-            for i in range(len(m)):
-                arg = lhs - rhs[:, i]
-
-                if np.sum(arg <= 0) == 0:
-                    out[i] = cvec.min()
-                elif np.sum(arg >= 0) == 0:
-                    out[i] = cvec.max()
-                else:
-                    spl = interp1d(arg, cvec)
-                    out[i] = spl(0.0)
-            return out
+        out = np.zeros(rhs.shape[1])
+        for i in range(len(out)):
+            arg = lhs - rhs[:, i]
+
+            if np.sum(arg <= 0) == 0:
+                out[i] = cvec.min()
+            elif np.sum(arg >= 0) == 0:
+                out[i] = cvec.max()
+            else:
+                spl = interp1d(arg, cvec)
+                out[i] = spl(0.0)
+        return out[0] if np.isscalar(m) else out
 
     def cm(self, m, z=0):
         return self.params["norm"] * self._eq7(self.params["f"], self.params["C"], m, z)
-- 
2.43.0


From e6e86d911ab05b3cee7483deead0579ab1c8dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 48/70] fix: Bullock01 concentrations do not depend on the
 order of the masses

---
 src/halomod/concentration.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index fef743b..2cd8da2 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -300,7 +300,6 @@ class Bullock01(CMRelation):
         gf_fine = self.growth.growth_factor(z_fine)
         g = interp1d(gf_fine[::-1], z_fine[::-1], bounds_error=False, fill_value=(z_fine[-1], 0.0))
         zc = g(np.sqrt(nu))
-        zc[np.logical_or.accumulate(zc == zc.min())] = zc.min()
         # As massive halos have not formed yet,
         # we need to set the formation time of those to the future
         zc[zc < z] = z  # hack?
-- 
2.43.0


From 100da0e979a10912b44b51237b07590e8815f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 49/70] fix: Duffy08 accepts a zero slope in mass or redshift

---
 src/halomod/concentration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 2cd8da2..bb28086 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -469,9 +469,9 @@ class Duffy08(Bullock01Power):
         parameter_set = set_params.get(self.mdef.colossus_name, set_params["200c"]).get(
             self.params["sample"]
         )
-        a = self.params["a"] or parameter_set["a"]
-        b = self.params["b"] or parameter_set["b"]
-        c = self.params["c"] or parameter_set["c"]
+        a, b, c = (
+            parameter_set[k] if self.params[k] is None else self.params[k] for k in ("a", "b", "c")
+        )
         return self.params["norm"] * self._cm(m, self.params["ms"], a, b, c, z)
 
 
-- 
2.43.0


From 7aa2ab294542e58cf565545f80431f3ef996de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 50/70] fix: cross-correlations follow direct changes of either
 halo model

---
 src/halomod/cross_correlations.py | 21 +++++++++++++--------
 src/halomod/halo_model.py         |  4 ++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 7a93450..765ba62 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -230,6 +230,11 @@ class CrossCorrelations(Framework):
         """Halo Model of the second tracer."""
         return TracerHaloModel(**self._halo_model_2_params)
 
+    @property
+    def _models(self) -> tuple[TracerHaloModel, TracerHaloModel]:
+        """Both halo models, so that a quantity is known to depend on both of them."""
+        return self.halo_model_1, self.halo_model_2
+
     # ===========================================================================
     # Cross-correlations
     # ===========================================================================
@@ -275,9 +280,10 @@ class CrossCorrelations(Framework):
     @cached_quantity
     def corr_1h_cross_fnc(self):
         """The 1-halo term of the cross correlation."""
-        corr = tools.hankel_transform(self.power_1h_cross_fnc, self.halo_model_1._r_table, "r")
+        r_table = self._models[0]._r_table
+        corr = tools.hankel_transform(self.power_1h_cross_fnc, r_table, "r")
         return tools.ExtendedSpline(
-            self.halo_model_1._r_table,
+            r_table,
             corr,
             lower_func="power_law",
             upper_func=tools._zero,
@@ -286,7 +292,7 @@ class CrossCorrelations(Framework):
     @cached_quantity
     def corr_1h_cross(self):
         """The 1-halo term of the cross correlation."""
-        return self.corr_1h_cross_fnc(self.halo_model_1.r)
+        return self.corr_1h_cross_fnc(self._models[0].r)
 
     @cached_quantity
     def power_2h_cross_fnc(self):
@@ -353,11 +359,10 @@ class CrossCorrelations(Framework):
     @cached_quantity
     def corr_2h_cross_fnc(self):
         """The 2-halo term of the cross-correlation."""
-        corr = tools.hankel_transform(
-            self.power_2h_cross_fnc, self.halo_model_1._r_table, "r", h=1e-4
-        )
+        r_table = self._models[0]._r_table
+        corr = tools.hankel_transform(self.power_2h_cross_fnc, r_table, "r", h=1e-4)
         return tools.ExtendedSpline(
-            self.halo_model_1._r_table,
+            r_table,
             corr,
             lower_func="power_law",
             upper_func=tools._zero,
@@ -366,7 +371,7 @@ class CrossCorrelations(Framework):
     @cached_quantity
     def corr_2h_cross(self):
         """The 2-halo term of the cross-correlation."""
-        return self.corr_2h_cross_fnc(self.halo_model_1.r)
+        return self.corr_2h_cross_fnc(self._models[0].r)
 
     def power_cross_fnc(self, k):
         """Total tracer cross power spectrum."""
diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 40847be..ee619e0 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -203,6 +203,10 @@ class DMHaloModel(MassFunction):
             recalc.pop(name, None)
             prop_par.pop(name, None)
 
+        # Quantities of a framework that has this one as a sub-framework can depend on
+        # it through other quantities, in which case their dependencies are not indexed.
+        recalc.update({name: True for name in recalc if name.startswith(":")})
+
     def validate(self):
         self._clean_index()
         super().validate()
-- 
2.43.0


From 6d5240bce6c24455825848fc65a41c8571991c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 51/70] fix: AngularCF with its default selection can be
 pickled

---
 src/halomod/integrate_corr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index e149634..68c2851 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -7,6 +7,7 @@ to obtain eg. projected and angular correlations functions.
 from __future__ import annotations
 
 import warnings
+from functools import partial
 
 import numpy as np
 from hmf import Cosmology as csm
@@ -201,12 +202,12 @@ def _get_theta(a):
 
 def flat_z_dist(zmin, zmax):
     """Get an array of z weights, assuming equally distributed z bins."""
+    return partial(_flat_z_dist, zmin=zmin, zmax=zmax)
 
-    def ret(z):
-        z = np.atleast_1d(z)
-        return np.where(np.logical_and(z >= zmin, z <= zmax), 1.0 / (zmax - zmin), 0)
 
-    return ret
+def _flat_z_dist(z, zmin, zmax):
+    z = np.atleast_1d(z)
+    return np.where(np.logical_and(z >= zmin, z <= zmax), 1.0 / (zmax - zmin), 0)
 
 
 def dxdz(z, cosmo=csm().cosmo):
-- 
2.43.0


From 7fdfaaf186de2fc4a5ce69d00dc1d20e050cfdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 52/70] fix: models with a rescaled WDM concentration relation
 can be pickled

---
 src/halomod/wdm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index 1cf98a6..884228d 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -1,6 +1,7 @@
 """Contains WDM versions of all models and frameworks."""
 
 import sys
+from functools import cache
 
 import numpy as np
 from hmf import cached_quantity, parameter
@@ -15,6 +16,7 @@ from .integrate_corr import ProjectedCF
 # ===============================================================================
 # C-M relations
 # ===============================================================================
+@cache
 def CMRelationWDMRescaled(name):
     """Class factory for Rescaled CM relations."""
     if name.endswith("WDM"):
@@ -44,6 +46,13 @@ def CMRelationWDMRescaled(name):
     return K
 
 
+def __getattr__(name):
+    """Find the rescaled relations by name, so that models using them can be pickled."""
+    if name.endswith("WDM"):
+        return CMRelationWDMRescaled(name)
+    raise AttributeError(f"module {__name__!r} has no attribute {name!r}")
+
+
 # ===============================================================================
 # Framework
 # ===============================================================================
-- 
2.43.0


From 12b83b93c2a80097eb5809fd8932400158e64bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 53/70] fix: models do not alias the parameter dictionaries of
 the underlying mass function

---
 src/halomod/halo_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index ee619e0..3d09b19 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -33,6 +33,11 @@ from .concentration import CMRelation
 from .halo_exclusion import Exclusion, NoExclusion
 
 
+def _copy_dicts(kwargs: dict) -> dict:
+    """Copy the dictionaries among kwargs, so that they are not shared with the caller."""
+    return {k: dict(v) if isinstance(v, dict) else v for k, v in kwargs.items()}
+
+
 class DMHaloModel(MassFunction):
     """
     Dark-matter-only halo model class.
@@ -137,7 +142,7 @@ class DMHaloModel(MassFunction):
         if "hmf_model" not in hmf_kwargs:
             hmf_kwargs["hmf_model"] = hmf_model
 
-        super().__init__(Mmin=Mmin, Mmax=Mmax, **hmf_kwargs)
+        super().__init__(Mmin=Mmin, Mmax=Mmax, **_copy_dicts(hmf_kwargs))
 
         # Initially save parameters to the class.
         self.halo_profile_model, self.halo_profile_params = (
@@ -175,6 +180,10 @@ class DMHaloModel(MassFunction):
         self.force_unity_dm_bias = force_unity_dm_bias
         self.colossus_params = colossus_params or {}
 
+    def update(self, **kwargs):
+        """Update parameters of the framework with kwargs."""
+        super().update(**_copy_dicts(kwargs))
+
     # ===============================================================================
     # Parameters
     # ===============================================================================
-- 
2.43.0


From 81a7e8b3933542a21a22c8d279f0d08956ed6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 54/70] fix: satellites and pairs do not see a step at a sharp
 mass cut between grid points

---
 src/halomod/halo_model.py | 40 +++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 3d09b19..115fac0 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1250,13 +1250,21 @@ class TracerHaloModel(DMHaloModel):
             else self.central_occupation
         )
 
+    @property
+    def _satellite_occupation(self):
+        """The satellite occupation to use when integrating over mass.
+
+        See _central_occupation for why.
+        """
+        return self.hod.satellite_occupation(self._hod_m)
+
     @property
     def _total_occupation(self):
         """The total occupation to use when integrating over mass.
 
         See _central_occupation for why.
         """
-        return self._central_occupation + self.satellite_occupation
+        return self._central_occupation + self._satellite_occupation
 
     @property
     def tracer_mmin(self):
@@ -1272,6 +1280,14 @@ class TracerHaloModel(DMHaloModel):
         else:
             return None
 
+    @property
+    def _hod_m(self):
+        """The masses at which to evaluate the HOD when integrating over mass.
+
+        See _central_occupation for why these do not go below a sharp cut.
+        """
+        return self.m if self.tracer_mmin is None else np.maximum(self.m, self.tracer_mmin)
+
     # ===========================================================================
     # Derived HOD Quantities
     # ===========================================================================
@@ -1322,7 +1338,7 @@ class TracerHaloModel(DMHaloModel):
         """
         # Integrand is just the density of satellite galaxies at mass m
         s = tools.spline_integral(
-            self.m, self.dndm * self.satellite_occupation, xmin=self.tracer_mmin
+            self.m, self.dndm * self._satellite_occupation, xmin=self.tracer_mmin
         )
         return s / self.mean_tracer_den
 
@@ -1372,8 +1388,8 @@ class TracerHaloModel(DMHaloModel):
         Note: May not exist for every kind of tracer.
         """
         p = self._do_1halo_integral(
-            max_mmin=self.hod.mmin,
-            integrand=self.tracer_profile_ukm**2 * self.dndm * self.hod.ss_pairs(self.m),
+            max_mmin=self.tracer_mmin or self.m[0],
+            integrand=self.tracer_profile_ukm**2 * self.dndm * self.hod.ss_pairs(self._hod_m),
             mean_dens=self.mean_tracer_den,
         )
 
@@ -1400,7 +1416,7 @@ class TracerHaloModel(DMHaloModel):
 
         Note: May not exist for every kind of tracer.
         """
-        ss_pairs = self.hod.ss_pairs(self.m)
+        ss_pairs = self.hod.ss_pairs(self._hod_m)
         if self.tracer_profile.has_lam:
             c = np.zeros_like(self._r_table)
             for i, lam in enumerate(self.tracer_profile_lam):
@@ -1431,8 +1447,8 @@ class TracerHaloModel(DMHaloModel):
         Note: May not exist for every kind of tracer.
         """
         p = self._do_1halo_integral(
-            max_mmin=self.hod.mmin,
-            integrand=self.dndm * 2 * self.hod.cs_pairs(self.m) * self.tracer_profile_ukm,
+            max_mmin=self.tracer_mmin or self.m[0],
+            integrand=self.dndm * 2 * self.hod.cs_pairs(self._hod_m) * self.tracer_profile_ukm,
             mean_dens=self.mean_tracer_den,
         )
 
@@ -1459,7 +1475,7 @@ class TracerHaloModel(DMHaloModel):
         Note: May not exist for every kind of tracer.
         """
         c = np.zeros_like(self._r_table)
-        cs_pairs = self.hod.cs_pairs(self.m)
+        cs_pairs = self.hod.cs_pairs(self._hod_m)
         for i, rho in enumerate(self.tracer_profile_rho):
             c[i] = tools.spline_integral(
                 self.m, self.dndm * 2 * cs_pairs * rho, xmin=self.tracer_mmin
@@ -1495,8 +1511,8 @@ class TracerHaloModel(DMHaloModel):
         if self.tracer_profile.has_lam:
             c = np.zeros_like(self._r_table)
 
-            ss_pairs = self.hod.ss_pairs(self.m)
-            cs_pairs = self.hod.cs_pairs(self.m)
+            ss_pairs = self.hod.ss_pairs(self._hod_m)
+            cs_pairs = self.hod.cs_pairs(self._hod_m)
             for i, (rho, lam) in enumerate(zip(self.tracer_profile_rho, self.tracer_profile_lam)):
                 c[i] = tools.spline_integral(
                     self.m,
@@ -1610,7 +1626,7 @@ class TracerHaloModel(DMHaloModel):
                 self.dndm
                 * self.m
                 * uh
-                * (self._central_occupation + self.satellite_occupation * ut),
+                * (self._central_occupation + self._satellite_occupation * ut),
                 xmin=self.tracer_mmin,
             )
 
@@ -1646,7 +1662,7 @@ class TracerHaloModel(DMHaloModel):
                 self.m,
                 self.dndm
                 * self.halo_bias
-                * (self._central_occupation + self.satellite_occupation * ut),
+                * (self._central_occupation + self._satellite_occupation * ut),
                 xmin=self.tracer_mmin,
             )
             bm[i] = tools.spline_integral(self.m, self.dndm * self.halo_bias * self.m * um)
-- 
2.43.0


From 00ffc0a8df9d8b4e45ef546d5e16dfec94119eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 55/70] fix: reject a tracer density that is jumped over by the
 minimum-mass solver

---
 src/halomod/halo_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 115fac0..499321b 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1754,7 +1754,15 @@ class TracerHaloModel(DMHaloModel):
                 f"at least {c.mean_tracer_den}. Consider checking hod_params and tracer_density."
             )
 
-        return brentq(excess, lower, upper, xtol=1e-10)
+        mmin = brentq(excess, lower, upper, xtol=1e-10)
+
+        # The density may jump past the required one, eg. to zero at a maximum mass.
+        if abs(excess(mmin)) > 0.5:
+            raise NGException(
+                f"User input required mean galaxy density of {ng}, but the closest to it with the "
+                f"given HOD is {c.mean_tracer_den}. Consider checking hod_params and tracer_density."
+            )
+        return mmin
 
 
 # For compatibility
-- 
2.43.0


From 5bb4cd73e2668c11e1d10bd4cb6581e1c0873e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 56/70] fix: tracer profile uses the tracer concentration
 relation when only that is given

---
 src/halomod/halo_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 499321b..ecf5089 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1192,7 +1192,17 @@ class TracerHaloModel(DMHaloModel):
     def tracer_profile(self):
         """Object to calculate quantities of the tracer profile."""
         if self.tracer_profile_model is None:
-            return self.halo_profile
+            if self.tracer_concentration_model is None:
+                return self.halo_profile
+
+            # Same density profile as the haloes, but the tracer's own concentration.
+            return self.halo_profile_model(
+                cm_relation=self.tracer_concentration,
+                mdef=self.mdef,
+                z=self.z,
+                nu_fn=self.nu_fn,
+                **self.halo_profile_params,
+            )
 
         if not self.tracer_profile_params and self.tracer_profile_model == self.halo_profile_model:
             tr_params = self.halo_profile_params
-- 
2.43.0


From 9d9aa100d4dc9bd18784f19f7314069cd62d8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 57/70] fix: mass-normalised self-convolution is the default
 for infinite profiles, as for truncated ones

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 2fdd0ac..8d8c09c 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -625,7 +625,7 @@ class ProfileInf(Profile, abstract=True):
 
         return out
 
-    def lam(self, r, m, norm=None, c=None, coord="r"):
+    def lam(self, r, m, norm="m", c=None, coord="r"):
         """
         The density profile convolved with itself.
 
-- 
2.43.0


From affa2e3cdd338fed41820e6a9d89c0dd9ac9b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 58/70] fix: the projected correlation vanishes at the
 integration limit instead of being NaN

---
 src/halomod/integrate_corr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index 68c2851..0598fda 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -159,6 +159,10 @@ def projected_corr_gal(
     a = 0
 
     for i, rp in enumerate(rp_out):
+        if rp >= rlim:
+            # There is nothing along this line of sight.
+            continue
+
         if a != 1.3 and i < len(r) - 1:
             # Get log slope at rp
             ydiff = (lnxi[i + 1] - lnxi[i]) / (lnr[i + 1] - lnr[i])
-- 
2.43.0


From d44149d3cce162ad18be8bcc7694fca244cdef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 59/70] fix: the default selection of AngularCF follows its
 limits after p1 is unset

---
 src/halomod/integrate_corr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index 0598fda..2205eee 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -379,7 +379,9 @@ class AngularCF(HaloModel):
     @cached_quantity
     def _selection(self):
         """The redshift distribution of the sample in use."""
-        return flat_z_dist(self.zmin, self.zmax) if self.p1 is None else self.p1
+        # Always use the limits, so that this is known to depend on them.
+        flat = flat_z_dist(self.zmin, self.zmax)
+        return flat if self.p1 is None else self.p1
 
     @cached_quantity
     def zvec(self):
-- 
2.43.0


From 7e9c854901431f52a68acb7b12ca92596bf09393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 60/70] fix: tracers in WDM models may use a rescaled
 concentration relation

---
 src/halomod/wdm.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index 884228d..eeed843 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -146,6 +146,23 @@ class TracerHaloModelWDM(TracerHaloModel, HaloModelWDM):
         kw.setdefault("halo_concentration_model", "Ludlow2016")
         super().__init__(**kw)
 
+    @parameter("switch")
+    def tracer_concentration_model(self, val):
+        """The tracer concentration-mass relation."""
+        if isinstance(val, str) and val.endswith("WDM"):
+            return CMRelationWDMRescaled(val)
+        return val if val is None else get_mdl(val, "CMRelation")
+
+    @cached_quantity
+    def tracer_concentration(self):
+        """Concentration-mass relation model instance."""
+        cm = super().tracer_concentration
+
+        if hasattr(cm, "m_hm"):
+            cm.m_hm = self.wdm.m_hm
+
+        return cm
+
 
-class ProjectedCFWDM(ProjectedCF, HaloModelWDM):
+class ProjectedCFWDM(ProjectedCF, TracerHaloModelWDM):
     """Projected Correlation Function for WDM halos."""
-- 
2.43.0


From b47ab8638517843f1fd87de88b36d7b1cae13126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 61/70] fix: get_halomodel iterates over several parameters of
 models without tracers

---
 src/halomod/functional.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/halomod/functional.py b/src/halomod/functional.py
index dd164ee..08d6360 100644
--- a/src/halomod/functional.py
+++ b/src/halomod/functional.py
@@ -30,6 +30,5 @@ def get_halomodel(
         "exclusion_model": None,
         "hc_spectrum": "linear",
         "sd_bias_model": None,
-        "hod_model": "Zehavi05",
     }
     return get_hmf(required_attrs, get_label, kls, fast_kwargs, **kwargs)
-- 
2.43.0


From e79edee519fd6f1475ee81131a5c7b760097648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 62/70] fix: the parameters of an HOD include its central
 condition

---
 src/halomod/hod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index e8a0187..6a1ee8e 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -117,6 +117,9 @@ class HOD(Component, metaclass=ABCMeta):
 
         super().__init__(**model_parameters)
 
+        # Reported along with the other parameters, so that they define the same model.
+        self.params["central"] = central
+
     @abstractmethod
     def nc(self, m):
         """Defines the average number of centrals at mass m.
-- 
2.43.0


From eff74a860e5dca1de206319853e64eafcd73c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 63/70] fix: non-positive separations and inverted projected,
 redshift and integration limits are rejected

---
 src/halomod/halo_model.py     |  1 +
 src/halomod/integrate_corr.py | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index ecf5089..74fe93c 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -222,6 +222,7 @@ class DMHaloModel(MassFunction):
         if not hasattr(self.rmin, "__len__"):
             assert self.rmin < self.rmax, f"rmin >= rmax: {self.rmin}, {self.rmax}"
         assert len(self.r) > 0, "r has length zero!"
+        assert np.all(self.r > 0), f"r must be positive: {self.r}"
         assert self.hm_logk_min < self.hm_logk_max, (
             f"hm_logk_min >= hm_logk_max: {self.hm_logk_min}, {self.hm_logk_max}"
         )
diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index 2205eee..ed010ca 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -57,6 +57,11 @@ class ProjectedCF(HaloModel):
         self.rp_num = rp_num
         self.rp_log = rp_log
 
+    def validate(self):
+        super().validate()
+        if not hasattr(self.rp_min, "__len__"):
+            assert self.rp_min <= self.rp_max, f"rp_min > rp_max: {self.rp_min}, {self.rp_max}"
+
     @parameter("switch")
     def rp_min(self, val):
         """Minimum projected radius."""
@@ -302,6 +307,13 @@ class AngularCF(HaloModel):
         self.theta_num = theta_num
         self.theta_log = theta_log
 
+    def validate(self):
+        super().validate()
+        assert 0 <= self.zmin < self.zmax, f"invalid redshift limits: {self.zmin}, {self.zmax}"
+        assert self.logu_min < self.logu_max, (
+            f"logu_min >= logu_max: {self.logu_min}, {self.logu_max}"
+        )
+
     @parameter("param")
     def p1(self, val):
         """The redshift distribution of the sample. If None, flat in redshift."""
-- 
2.43.0


From 5488eb5be2784afe0bb7ca6d7cc04622434365bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 64/70] fix: the mass in haloes of models with a required
 tracer density is available for all mass ranges

---
 src/halomod/halo_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 74fe93c..a5d45c4 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1738,6 +1738,14 @@ class TracerHaloModel(DMHaloModel):
     # ===========================================================================
     # Other utilities
     # ===========================================================================
+    def _gtm(self, dndm, mass_density=False):
+        """Integral of the mass function above each mass, beyond the highest mass if needed."""
+        if self.tracer_density is None:
+            return super()._gtm(dndm, mass_density)
+
+        # The integration changes the mass range, in which the tracers may not reach this density.
+        return self.clone(tracer_density=None)._gtm(dndm, mass_density)
+
     def _find_m_min(self, ng):
         """
         Calculate the minimum mass of a halo to contain a (central) galaxy
-- 
2.43.0


From 6fd606f4f3fed576c3f62c286baef1b765b5eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:22 +0000
Subject: [PATCH 65/70] fix: unknown names of the transformed variable and
 unlimited redshifts are rejected

---
 src/halomod/integrate_corr.py | 2 +-
 src/halomod/tools.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index ed010ca..e06b4c3 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -309,7 +309,7 @@ class AngularCF(HaloModel):
 
     def validate(self):
         super().validate()
-        assert 0 <= self.zmin < self.zmax, f"invalid redshift limits: {self.zmin}, {self.zmax}"
+        assert 0 <= self.zmin < self.zmax < np.inf, f"invalid redshift limits: {self.zmin}, {self.zmax}"
         assert self.logu_min < self.logu_max, (
             f"logu_min >= logu_max: {self.logu_min}, {self.logu_max}"
         )
diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 1d6888a..3c3a58c 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -54,7 +54,7 @@ def hankel_transform(
     rtol=1e-8,
 ):
     r"""Function to do the hankel tranformation."""
-    if trns_var_name not in "kr":
+    if trns_var_name not in ("k", "r"):
         raise ValueError("trns_var_name must be either 'k' or 'r'.")
 
     # Optimal value of nmax, given h.
-- 
2.43.0


From f0009f5ff37901e50a8bd989f64da656569c992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 66/70] fix: invalid parameters of warm models never leave cold
 quantities behind

---
 src/halomod/wdm.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index eeed843..06c71ff 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -69,6 +69,30 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
         kw.setdefault("halo_concentration_model", "Ludlow2016")
         super().__init__(**kw)
 
+    def validate(self):
+        super().validate()
+        self._validate_alteration()
+
+    def _validate_alteration(self):
+        """Reject unknown parameters of the recalibration of the mass function."""
+        if self.alter_model is not None:
+            unknown = set(self.alter_params) - set(self.alter_model._defaults)
+            if unknown:
+                raise ValueError(f"{unknown} not valid for {self.alter_model.__name__}.")
+
+    # If the warm model is invalid, the following must not remain those of CDM after an
+    # attempt to evaluate them.
+    @cached_quantity
+    def _unnormalised_lnT(self):
+        _ = self.wdm
+        return super()._unnormalised_lnT
+
+    @cached_quantity
+    def dndm(self):
+        """The number density of haloes in WDM."""
+        self._validate_alteration()
+        return super().dndm
+
     @cached_quantity
     def f_halos(self):
         """The total fraction of mass bound up in halos."""
-- 
2.43.0


From 16bd4bac53a871532ba659dd0c9c83b4c1a926f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 67/70] fix: quantities can be read after a rejected update
 that changed a switch

---
 src/halomod/cross_correlations.py | 13 +++++++------
 src/halomod/halo_model.py         |  7 ++++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 765ba62..82ab740 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -205,12 +205,13 @@ class CrossCorrelations(Framework):
 
     def update(self, **kwargs):
         """Update parameters of the framework with kwargs."""
-        super().update(**kwargs)
-
-        # The quantities of the sub-frameworks on which those of this one depend may
-        # have changed with the parameters, so index them anew.
-        for index in ("recalc", "recalc_prop_par", "active_q"):
-            getattr(self, hidden_loc(self, index)).clear()
+        try:
+            super().update(**kwargs)
+        finally:
+            # The quantities of the sub-frameworks on which those of this one depend may
+            # have changed with the parameters, so index them anew.
+            for index in ("recalc", "recalc_prop_par", "active_q"):
+                getattr(self, hidden_loc(self, index)).clear()
 
     @parameter("model")
     def cross_hod_model(self, val):
diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index a5d45c4..08393f7 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -182,7 +182,12 @@ class DMHaloModel(MassFunction):
 
     def update(self, **kwargs):
         """Update parameters of the framework with kwargs."""
-        super().update(**_copy_dicts(kwargs))
+        try:
+            super().update(**_copy_dicts(kwargs))
+        except Exception:
+            # Some of the parameters may have been set.
+            self._clean_index()
+            raise
 
     # ===============================================================================
     # Parameters
-- 
2.43.0


From dc5e8e63869b1e629f795d18cf857d32587d5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:29 +0000
Subject: [PATCH 68/70] fix: the functions and correlations of warm models
 include the smooth component

---
 src/halomod/wdm.py | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index 06c71ff..7f037e6 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -9,6 +9,7 @@ from hmf._internals._framework import get_mdl
 from hmf.alternatives.wdm import MassFunctionWDM
 from scipy import integrate as intg
 
+from . import tools
 from .halo_model import DMHaloModel, TracerHaloModel
 from .integrate_corr import ProjectedCF
 
@@ -108,6 +109,36 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
             + self.f_halos**2 * self.power_auto_matter_hh
         )
 
+    @cached_quantity
+    def _power_clustering_fnc(self):
+        """All but the 1-halo term of the matter power: haloes and the smooth component."""
+        power = (
+            (1 - self.f_halos) ** 2 * self._power_ss(self.k)
+            + 2 * (1 - self.f_halos) * self.f_halos * self._power_sh(self.k)
+            + self.f_halos**2 * self.power_2h_auto_matter_fnc(self.k)
+        )
+        return tools.ExtendedSpline(
+            self.k,
+            power,
+            lower_func=self.linear_power_fnc,
+            match_lower=True,
+            upper_func=tools._zero,
+        )
+
+    @cached_quantity
+    def power_auto_matter_fnc(self):
+        """A callable returning the auto power spectrum of dark matter."""
+        return tools._SumCallable(self.power_1h_auto_matter_fnc, self._power_clustering_fnc)
+
+    @cached_quantity
+    def corr_auto_matter_fnc(self):
+        """A callable returning the auto-correlation function of dark matter."""
+        corr = tools.hankel_transform(self._power_clustering_fnc, self._r_table, "r", h=1e-4)
+        clustering = tools.ExtendedSpline(
+            self._r_table, corr, lower_func="boundary", upper_func=tools._zero
+        )
+        return tools._SumCallable(self.corr_1h_auto_matter_fnc, clustering, offset=1)
+
     @cached_quantity
     def power_auto_matter_hh(self) -> np.ndarray:
         """The halo-halo matter power spectrum (includes both 1-halo and 2-halo terms)."""
@@ -118,16 +149,20 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def power_auto_matter_sh(self) -> np.ndarray:
         """The smooth-halo cross power spectrum."""
-        integrand = (
-            self.m * self.dndm * self.halo_bias * self.halo_profile.u(self.k_hm, self.m, norm="m")
-        )
+        return self._power_sh(self.k_hm)
+
+    def _power_sh(self, k):
+        integrand = self.m * self.dndm * self.halo_bias * self.halo_profile.u(k, self.m, norm="m")
         pch = intg.simpson(integrand, x=self.m)
-        return self.bias_smooth * self._power_halo_centres_fnc(self.k_hm) * pch / self.rho_gtm[0]
+        return self.bias_smooth * self._power_halo_centres_fnc(k) * pch / self.rho_gtm[0]
 
     @cached_quantity
     def power_auto_matter_ss(self) -> np.ndarray:
         """The smooth-smooth matter power spectrum."""
-        return self.bias_smooth**2 * self._power_halo_centres_fnc(self.k_hm)
+        return self._power_ss(self.k_hm)
+
+    def _power_ss(self, k):
+        return self.bias_smooth**2 * self._power_halo_centres_fnc(k)
 
     @cached_quantity
     def bias_smooth(self):
-- 
2.43.0


From 316cc0e1a6eccd11ee6143175afcae2eee8a4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:08 +0000
Subject: [PATCH 69/70] fix: a transform is not taken as converged because a
 single node contributes nothing

---
 src/halomod/tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 3c3a58c..ca95486 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -208,10 +208,12 @@ def power_to_corr_ogata(
         if kk.max() <= k.max():
             out[ir] = cumsum[-1]
         else:
-            # Check whether we have convergence at k.max
+            # Check whether we have convergence at k.max (over several nodes, because a
+            # single one may happen to contribute nothing).
             indx = np.where(kk > k.max())[0][0]
+            last = cumsum[max(indx - 10, 0) : indx]
 
-            if np.isclose(cumsum[indx], cumsum[indx - 1], atol=atol, rtol=rtol):
+            if len(last) and np.allclose(last, cumsum[indx], atol=atol, rtol=rtol):
                 # If it converged in the non-extrapolated part, return that.
                 out[ir] = cumsum[indx]
             else:
-- 
2.43.0


From 03fd7c4fcab76b8c56596025786ba933576aecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:21 +0000
Subject: [PATCH 70/70] fix: every concentration relation has a default
 redshift, as the base class

---
 src/halomod/concentration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index bb28086..5cd3f4e 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -245,7 +245,7 @@ def interp_concentration(base):
         def __init__(self, *args, **kwargs):
             super().__init__(*args, **kwargs)
 
-        def cm(self, m, z):
+        def cm(self, m, z=0):
             c = base.cm(self, m, z)
             if len(c[c > 0]) == 0:
                 return np.ones_like(m)
@@ -374,7 +374,7 @@ class Maccio07(CMRelation):
     _defaults = {"c_0": 28.65, "gamma": 1.45, "norm": 1.0}
     native_mdefs = (SOMean(),)
 
-    def cm(self, m, z):
+    def cm(self, m, z=0):
         return (
             self.params["norm"]
             * self.params["c_0"]
-- 
2.43.0

