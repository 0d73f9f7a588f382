From d6fe1b5c52d31129632e5be1e3569dd6f0e79d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 01/23] fix: include a transit exactly at max_time in
 compute_expected_transit_times

---
 src/exoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..6112735 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -26,7 +26,7 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
         max_ind = np.ceil((max_time - t0) / period)
-        times = t0 + period * np.arange(min_ind, max_ind, 1)
+        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
         times = times[(min_time <= times) & (times <= max_time)]
         transit_times.append(times)
     return transit_times
-- 
2.43.0


From 4c09787b90945daae02e7ac5f4a87da09f8349ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 02/23] fix: apply the parallax when light_delay is requested

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..c94b788 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From a83a4f4840cdb03bffecf5c63518cb11ced8092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 03/23] fix: finite accelerations for bodies with zero
 semimajor axis

---
 src/exoplanet/orbits/keplerian.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c94b788..037418f 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -678,33 +678,29 @@ class KeplerianOrbit:
         v = self.get_star_velocity(t)
         return -conv * v[2]
 
-    def _get_acceleration(self, a, m, t):
+    def _get_acceleration(self, a, t):
         sinf, cosf = self._get_true_anomaly(t)
-        K = self.K0 * m
-        if self.ecc is None:
-            factor = -(K**2) / a
-        else:
-            factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
-            )
+        factor = -(self.n**2) * a
+        if self.ecc is not None:
+            factor *= ((1 + self.ecc * cosf) / (1 - self.ecc**2)) ** 2
         return self._rotate_vector(factor * cosf, factor * sinf)
 
     def get_planet_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_planet, -self.m_star, t)
+            for x in self._get_acceleration(self.a_planet, t)
         )
 
     def get_star_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_star, self.m_planet, t)
+            for x in self._get_acceleration(self.a_star, t)
         )
 
     def get_relative_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(-self.a, -self.m_total, t)
+            for x in self._get_acceleration(-self.a, t)
         )
 
     def in_transit(self, t, r=0.0, texp=None, light_delay=False):
-- 
2.43.0


From 7ce2a6fdd695700b6dcb112d91eaebb81bc22423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 04/23] fix: eccentric anomaly at transit is singular for omega
 = -pi/2

---
 src/exoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 037418f..1c1174c 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -202,10 +202,9 @@ class KeplerianOrbit:
             else:
                 raise ValueError("both e and omega must be provided")
 
-            opsw = 1 + self.sin_omega
-            E0 = 2 * pt.arctan2(
-                pt.sqrt(1 - self.ecc) * self.cos_omega,
-                pt.sqrt(1 + self.ecc) * opsw,
+            E0 = pt.arctan2(
+                pt.sqrt(1 - self.ecc**2) * self.cos_omega,
+                self.ecc + self.sin_omega,
             )
             self.M0 = E0 - self.ecc * pt.sin(E0)
 
-- 
2.43.0


From a511d1a6d95dab3b31f71d0cf1c99863298b19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 05/23] fix: support one exposure time per observation in
 in_transit

---
 src/exoplanet/orbits/keplerian.py | 3 +++
 src/exoplanet/orbits/simple.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 1c1174c..7fd2671 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -760,6 +760,9 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..3eec5b0 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,9 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From 0ad6a3c2945a6b79c0180cbe422d86ac5aee872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 06/23] fix: light travel delay of TTV orbits

---
 src/exoplanet/orbits/ttv.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 6112735..857c7d2 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -184,4 +184,11 @@ class TTVOrbit(KeplerianOrbit):
         # stretching the time axis around each transit
         if _pad:
             return pt.shape_padright(t) - self._get_model_dt(t)
-        return t - self._get_model_dt(t)
+        # In this case, the last axis of 't' already runs over the planets
+        return pt.stack(
+            [
+                t[..., i] - self._get_model_dt(t[..., i])[..., i]
+                for i in range(len(self.ttvs))
+            ],
+            axis=-1,
+        )
-- 
2.43.0


From 771ee36a4b173d4a7da0b21e2c23557e850042e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 07/23] fix: use the TTV period for the transits that are not
 labelled

---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 857c7d2..2ffa36c 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From 0c2e71a473c7a46224f38714491280b90d09e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 08/23] fix: the edges of the grid are not out of bounds in
 regular_grid_interp

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..b72eca0 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= (x < grid[0]) | (x > grid[-1])
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From cd617c404068d3faf1d8e11b35c46d09c5a00486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 09/23] fix: find_peaks reports the index of the peak

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..1be82b2 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From 16fea8ac14b4e3c4a034d2d2f3aa5013f36e61df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 10/23] fix: estimate_semi_amplitude for a Quantity without
 uncertainties

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 1be82b2..8d54426 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,7 +64,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
         ivar = 1.0 / yerr**2
 
-- 
2.43.0


From d21b9832a0d702006ceac0bcd65b0b00a8bda683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 11/23] fix: bls_estimator ignores minimum_period

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 8d54426..0d7ba2d 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From e65dc0c40f040ea4d6091e97cadc2aa2b523c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 12/23] fix: initial value of unit_disk

---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From c5f4f4ca2589a0c8944e29a31d66ae177268e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 13/23] fix: honour the units of the inputs of the duration
 parameterization

---
 src/exoplanet/orbits/keplerian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 7fd2671..8a37f47 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -124,8 +124,9 @@ class KeplerianOrbit:
                     "the 'ror' parameter should also be provided.",
                     UserWarning,
                 )
+            r_star = to_unit(r_star, u.R_sun)
             aor, daordtau = get_aor_from_transit_duration(
-                duration, period, b, ror=ror
+                to_unit(duration, u.day), to_unit(period, u.day), b, ror=ror
             )
             a = r_star * aor
             duration = None
-- 
2.43.0


From bcff7d37e440f2654ddef279ce7b397b02b352a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 14/23] fix: duration Jacobians of a_star and a_planet for
 massive planets

---
 src/exoplanet/orbits/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 8a37f47..d10ee2e 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -152,11 +152,13 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
+            # The total mass scales as a**3 at fixed period so:
+            # a_star = a * m_planet / m_total and a_planet = a_star - a
             self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
+                -2 * dadtau * self.m_planet / self.m_total
             )
             self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
+                -2 * dadtau * self.m_planet / self.m_total - dadtau
             )
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
-- 
2.43.0


From e83aec376381015957231788a6f77c534d3ff039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 15/23] fix: sign of the acceleration term in the light travel
 delay

---
 src/exoplanet/orbits/keplerian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index d10ee2e..592be1b 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -457,11 +457,11 @@ class KeplerianOrbit:
             (z0 - z) / (c_light + vz),
             (c_light / az)
             * (
-                (1 + vz / c_light)
-                - pt.sqrt(
+                pt.sqrt(
                     (1 + vz / c_light) * (1 + vz / c_light)
-                    - 2 * az * (z0 - z) / c_light**2
+                    + 2 * az * (z0 - z) / c_light**2
                 )
+                - (1 + vz / c_light)
             ),
         )
 
-- 
2.43.0


From 9bbadc82ab82092a41e2ebb986b235c781dd475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 16/23] fix: light travel delay of a star with a massless
 planet

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 592be1b..4827702 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -435,10 +435,12 @@ class KeplerianOrbit:
         angvel = 2 * np.pi / self.period
         if self.ecc is None:
             r = a
+            aor3 = 1.0
             vamp = angvel * a
             vz = vamp * self.sin_incl * cosf
         else:
             r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
+            aor3 = ((1 + self.ecc * cosf) / (1.0 - self.ecc**2)) ** 3
             vamp = angvel * a / pt.sqrt(1 - self.ecc**2)
             cwf = self.cos_omega * cosf - self.sin_omega * sinf
             vz = vamp * self.sin_incl * (self.ecc * self.cos_omega + cwf)
@@ -447,7 +449,7 @@ class KeplerianOrbit:
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
         # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        az = -(angvel**2) * aor3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From de5dea92a952fd27953211fc62a966ba12f62f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 17/23] fix: impact parameter from the duration of an eccentric
 orbit

---
 src/exoplanet/orbits/keplerian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 4827702..59cf88c 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -242,9 +242,15 @@ class KeplerianOrbit:
             assert self.ecc is not None
 
             self.duration = as_tensor_variable(to_unit(duration, u.day))
-            c = pt.sin(np.pi * self.duration * incl_factor / self.period)
+            c = pt.sin(
+                np.pi
+                * self.duration
+                * incl_factor
+                * pt.sqrt(ome2)
+                / self.period
+            )
             c2 = c * c
-            aor = self.a_planet / self.r_star
+            aor = self.a / self.r_star
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
                 (aor**2 * c2 - 1)
-- 
2.43.0


From b01458c691dd3b3d7be6f51ec299abd2202f957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 18/23] fix: broadcast depth and impact parameter in
 get_ror_from_approx_transit_depth

---
 src/exoplanet/light_curves/limb_dark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index efc6e55..e66732b 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -92,9 +92,9 @@ class LimbDarkLightCurve:
         factor = f0 / f
         ror = pt.sqrt(delta * factor)
         if not jac:
-            return pt.reshape(ror, b.shape)
+            return ror
         drorddelta = 0.5 * factor / ror
-        return pt.reshape(ror, b.shape), pt.reshape(drorddelta, b.shape)
+        return ror, drorddelta
 
     def get_light_curve(
         self,
-- 
2.43.0


From 2a9ce5fa1e08ac70cb9396808063af92c3ff6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 19/23] fix: SimpleTransitOrbit.get_planet_position silently
 ignores light_delay

---
 src/exoplanet/orbits/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 3eec5b0..f8a7385 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -40,7 +40,7 @@ class SimpleTransitOrbit:
         return nothing, nothing, nothing
 
     def get_planet_position(self, t, light_delay=False):
-        return self.get_relative_position(t, light_delay=False)
+        return self.get_relative_position(t, light_delay=light_delay)
 
     def get_relative_position(self, t, light_delay=False):
         """The planets' positions relative to the star
-- 
2.43.0


From 5d6f6f88288a7bb36590fc7fd2add57a714d0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 20/23] fix: weight every output channel of its own test point
 in regular_grid_interp

With trailing output dimensions the (ntest,) weights were broadcast against
the last axis of the (ntest, nout) values, and likewise for fill_value.
---
 src/exoplanet/interp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index b72eca0..0a6f19f 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -44,15 +44,19 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
 
+    # Any trailing dimensions of 'values' are independent outputs
+    nout = values.ndim - ndim
     result = pt.zeros(tuple(coords.shape[:-1]) + tuple(values.shape[ndim:]))
     for edge_indices in itertools.product(*((i, i + 1) for i in indices)):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
-        result += values[edge_indices] * weight
+        result += values[edge_indices] * pt.shape_padright(weight, nout)
 
     if fill_value is not None:
-        result = pt.switch(out_of_bounds, fill_value, result)
+        result = pt.switch(
+            pt.shape_padright(out_of_bounds, nout), fill_value, result
+        )
 
     return result
 
-- 
2.43.0


From 6e6a3d4290cf467d78e738bf2b19f15f0feac69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 21/23] fix: InterpolatedLightCurve with the ephemeris of a
 single planet given as vectors

---
 src/exoplanet/light_curves/interpolated.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index 876dfd7..4e19591 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -86,11 +86,14 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0
-            mx = orbit.t0 + orbit.period
+            # The ephemeris can also be given as vectors of length one
+            t0 = pt.reshape(orbit.t0, ())
+            period = pt.reshape(orbit.period, ())
+            mn = t0
+            mx = t0 + period
             return interp(
                 0,
-                pt.mod(t - orbit.t0, orbit.period) + orbit.t0,
+                pt.mod(t - t0, period) + t0,
                 mn,
                 mx,
                 (mx - mn) / (self.num_phase + 1),
-- 
2.43.0


From 08444473619bd0835be6521a275724c6b0bbe5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 22/23] fix: default starting point of quad_limb_dark with a
 shape

---
 src/exoplanet/distributions/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..e1940d8 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,9 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    shape_arg = kwargs.get("shape", ())
+    default = [np.full(shape_arg, np.sqrt(0.5)), np.zeros(shape_arg)]
+    u = kwargs.pop("initval", kwargs.pop("testval", default))
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From 9ab6fe078b650809fdeedf9bdfa8996a65995cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 23/23] fix: default starting point of a bounded kipping13
 prior with a shape

---
 src/exoplanet/distributions/eccentricity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..5f709aa 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -88,6 +88,13 @@ def kipping13(
                 kwargs["initval"] = kwargs.pop(
                     "initval", kwargs.pop("testval", 0.5 * (lower + upper))
                 )
+                shape = kwargs.get("shape", None)
+                if shape is not None and not USING_PYMC3:
+                    if isinstance(shape, int):
+                        shape = (shape,)
+                    kwargs["initval"] = pt.broadcast_to(
+                        kwargs["initval"], shape
+                    )
                 return _truncate(
                     name,
                     pm.Beta,
-- 
2.43.0

