From bf439ce3d9707f4b8a2d6fa76289fb4b4cccba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 01/47] fix: geodetic2eci honours delta_ut1, xp and yp

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From 8f63ff8a5febddaf88d1665da3bd117e79cd226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 02/47] fix: ECI/ECEF state transforms accept arrays of more
 than one state

---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From 8c60b339578fc5fd5ac9d273dbe2ac7901ca7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 03/47] fix: lookAtSpheroid uses the given ellipsoid for the
 observer and the intersection point

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From 70f9ac37979e688372ae23c3c155dd086e2e1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 04/47] fix: enu2aer and the functions built on it leave the
 caller's arrays unchanged

---
 src/pymap3d/enu.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..b7c34b3 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -4,6 +4,11 @@ from __future__ import annotations
 
 from math import tau
 
+try:
+    from numpy import where
+except ImportError:
+    pass
+
 from ._typing import FloatLike
 
 from .ecef import ecef2geodetic, enu2ecef, geodetic2ecef, uvw2enu
@@ -52,10 +57,7 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
     # 1 millimeter precision for singularity stability
 
     def _zero_trim_numpy(x, y, z) -> tuple:
-        x[abs(x) < 1e-3] = 0.0
-        y[abs(y) < 1e-3] = 0.0
-        z[abs(z) < 1e-3] = 0.0
-        return x, y, z
+        return tuple(where(abs(v) < 1e-3, 0.0, v) for v in (x, y, z))
 
     def _zero_trim_scalar(*values: float, threshold: float = 1e-3) -> tuple[float, ...]:
         """Trim small values (|x| < threshold) to zero."""
@@ -63,7 +65,7 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     try:
         e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
+    except NameError:
         e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
 
     r = hypot(e, n)
-- 
2.43.0


From 2e9a7bf534839f94a8c87e3f36d74363b6cf91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 05/47] fix: Karney geodesics use the smallest normal number,
 not the machine epsilon, as the pole guard

---
 src/pymap3d/karney.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..3e708da 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -16,6 +16,7 @@ points and nearly-equatorial lines.
 from __future__ import annotations
 
 import math
+import sys
 
 from .ellipsoid import Ellipsoid, get_cached_geodesic
 from .mathfun import copysign, fmod, hypot, isnan, sqrt
@@ -23,7 +24,7 @@ from .mathfun import copysign, fmod, hypot, isnan, sqrt
 __all__ = ["geodesic_direct", "geodesic_inverse", "geodesic_line", "geodesic_area"]
 
 # --- Constants ---
-_tiny = sqrt(2.220446049250313e-16)
+_tiny = sqrt(sys.float_info.min)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
-- 
2.43.0


From 82006c3dad22409506b7fc32b2855d67bac6c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 06/47] fix: Karney inverse selects the well-conditioned form
 of calp2 near the equator

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index 3e708da..e4a4c82 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -523,7 +523,7 @@ class _Geodesic:
         salp2 = salp0 / cbet2 if cbet2 != cbet1 else salp1
         calp2 = (
             sqrt((calp1 * cbet1) ** 2 +
-                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet2 != cbet1
+                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet1 < -sbet1
                   else (sbet1 - sbet2) * (sbet1 + sbet2))) / cbet2
             if cbet2 != cbet1 or abs(sbet2) != -sbet1
             else abs(calp1))
-- 
2.43.0


From 5f17e4758594cbc3479fec67a5fdb8404f951366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 07/47] fix: ecef2geodetic no longer changes the process-wide
 warning filters

---
 src/pymap3d/ecef.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..4eb683d 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -4,8 +4,6 @@ as well as related ENU (east, north, up) and ECI (earth-centered inertial) frame
 
 from __future__ import annotations
 
-import warnings
-
 try:
     from numpy import empty_like, finfo, where
 except ImportError:
@@ -209,22 +207,20 @@ def ecef2geodetic(
 
     def _beta_scalar(x: float, y: float, z: float) -> tuple:
         """using scalar math"""
-        try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
-                Beta = atan(huE / u * z / hxy)
-                # eqn. 13
-                Beta += (
-                    (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
-                    * sin(Beta)
-                ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
-        except (ArithmeticError, RuntimeWarning):
+        if isclose(u, 0) or isclose(hxy, 0):
             if isclose(z, 0):
                 Beta = 0
             elif z > 0:
                 Beta = pi / 2
             else:
                 Beta = -pi / 2
+        else:
+            Beta = atan(huE / u * z / hxy)
+            # eqn. 13
+            Beta += (
+                (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
+                * sin(Beta)
+            ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
 
         # eqn. 4c
         lat = atan(ell.semimajor_axis / ell.semiminor_axis * tan(Beta))
-- 
2.43.0


From 608ce35ca1a46d7427de9008c81baf92d40a115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 08/47] fix: geodetic2conformal handles each array element on
 its own and leaves the warning filters alone

---
 src/pymap3d/latitude.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..901be2b 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,10 +4,13 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
-
 from math import pi
 
+try:
+    from numpy import errstate
+except ImportError:
+    pass
+
 from . import rcurve
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import (
@@ -366,11 +369,14 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
 
     #  compute conformal latitudes with correction for points at +90
     try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
+        # at the north pole f3 = 0: the quotient is infinite and the latitude pi/2
+        with errstate(divide="ignore"):
+            conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
+    except NameError:
+        try:
             conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
-        conformal_lat = pi / 2
+        except ArithmeticError:
+            conformal_lat = pi / 2
 
     return degrees(conformal_lat) if deg else conformal_lat
 
-- 
2.43.0


From 1bdd6032bc6d5d5db59afe0b5b3f919f09f0ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 09/47] fix: vdist and vreckon leave the caller's latitude
 arrays unchanged

---
 src/pymap3d/vincenty.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..79e8f21 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -112,7 +112,10 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     except AttributeError:
         if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
-    # %% correct for errors at exact poles by adjusting 0.6 millimeters:
+    # %% correct for errors at exact poles by adjusting 0.6 millimeters,
+    # without writing to the caller's arrays:
+    lat1 = copy(lat1)
+    lat2 = copy(lat2)
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
         lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
@@ -349,7 +352,9 @@ def vreckon(
         if abs(lat1) > pi / 2:
             raise ValueError("Input lat. must be between -90 and 90 deg., inclusive.")
 
-    # correct for errors at exact poles by adjusting 0.6 millimeters:
+    # correct for errors at exact poles by adjusting 0.6 millimeters,
+    # without writing to the caller's array:
+    lat1 = copy(lat1)
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
         lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
-- 
2.43.0


From 0b9f7996757c89cd66b39f6bad0916e442ca0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 10/47] fix: vdist solves each pair of an array on its own and
 leaves the warning filters alone

---
 src/pymap3d/vincenty.py | 89 ++++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 79e8f21..78080ef 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -4,17 +4,29 @@ Vincenty's methods for computing ground distance and reckoning
 
 from __future__ import annotations
 
-import warnings
-
 import logging
 from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
+from .mathfun import (
+    asin,
+    atan,
+    atan2,
+    cos,
+    degrees,
+    isnan,
+    linspace,
+    minimum,
+    radians,
+    sign,
+    sin,
+    sqrt,
+    tan,
+)
 from math import pi, tau, nan
 
 try:
-    from numpy import asarray
+    from numpy import asarray, where
 except ImportError:
     pass
 
@@ -142,55 +154,47 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if L > pi:
             L = 2 * pi - L
 
-    lamb = copy(L)  # NOTE: program will fail without copy!
+    # each pair is iterated on its own: once a pair is done, its lambdaold is kept, so that
+    # the evaluations still needed by the other pairs reproduce its result
+    lamb = L
+    lambdaold = L
+    done = False
+    alldone = False
     itercount = 0
     warninggiven = False
-    notdone = True
-    while notdone:  # force at least one execution
+    while not alldone:  # force at least one execution
         itercount += 1
         if itercount > 50:
             if not warninggiven:
                 logging.warning("Essentially antipodal points--precision may be reduced slightly.")
 
-            lamb = pi
+            try:
+                lamb = where(done, lamb, pi)
+            except NameError:
+                lamb = pi
             break
 
-        lambdaold = copy(lamb)
+        try:
+            lambdaold = where(done, lambdaold, lamb)
+        except NameError:
+            lambdaold = lamb
 
         sinsigma = sqrt(
-            (cos(U2) * sin(lamb)) ** 2 + (cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(lamb)) ** 2
+            (cos(U2) * sin(lambdaold)) ** 2
+            + (cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(lambdaold)) ** 2
         )
 
-        cossigma = sin(U1) * sin(U2) + cos(U1) * cos(U2) * cos(lamb)
+        cossigma = sin(U1) * sin(U2) + cos(U1) * cos(U2) * cos(lambdaold)
         # eliminate rare imaginary portions at limit of numerical precision:
         sinsigma = sinsigma.real
         cossigma = cossigma.real
 
         sigma = atan2(sinsigma, cossigma)
 
-        try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
-                sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-
-                alpha = asin(sinAlpha)
-            alpha[isnan(sinAlpha)] = 0
-            alpha[(sinAlpha > 1) | (abs(sinAlpha - 1) < 1e-16)] = pi / 2
-
-        except (ArithmeticError, RuntimeWarning, TypeError, ValueError):
-            try:
-                with warnings.catch_warnings(record=True):
-                    warnings.simplefilter("error")
-                    sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-            except (ArithmeticError, RuntimeWarning):
-                sinAlpha = 0.0
-
-            if isnan(sinAlpha):
-                alpha = 0.0
-            elif sinAlpha > 1 or abs(sinAlpha - 1) < 1e-16:
-                alpha = pi / 2
-            else:
-                alpha = asin(sinAlpha)
+        # coincident points have sigma = 0, and alpha = 0 by convention
+        coincident = sin(sigma) == 0
+        sinAlpha = cos(U1) * cos(U2) * sin(lambdaold) / (sin(sigma) + coincident)
+        alpha = asin(minimum(sinAlpha, 1.0))
 
         cos2sigmam = cos(sigma) - 2 * sin(U1) * sin(U2) / cos(alpha) ** 2
 
@@ -201,23 +205,26 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         )
         # print(f'then, lambda(21752) = {lamb[21752],20})
         # correct for convergence failure for essentially antipodal points
+        antipodal = lamb > pi
         try:
-            i = (lamb > pi).any()
+            i = antipodal.any()
         except AttributeError:
-            i = lamb > pi
+            i = antipodal
 
-        if i:
+        if i and not warninggiven:
             logging.warning(
                 "Essentially antipodal points encountered. Precision may be reduced slightly."
             )
             warninggiven = True
-            lambdaold = pi
-            lamb = pi
 
+        lamb = minimum(lamb, pi)
+
+        change = abs(lamb - lambdaold)
+        done = done | antipodal | (change <= 1e-12) | isnan(change)
         try:
-            notdone = (abs(lamb - lambdaold) > 1e-12).any()
+            alldone = done.all()
         except AttributeError:
-            notdone = abs(lamb - lambdaold) > 1e-12
+            alldone = done
 
     u2 = cos(alpha) ** 2 * (a**2 - b**2) / b**2
     A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
-- 
2.43.0


From f2783c28ba49c7032a82c1b9d61b7e5af5aeb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 11/47] fix: loxodrome_inverse goes the shorter way across the
 antimeridian

---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..1f31ab4 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -154,7 +154,8 @@ def loxodrome_inverse(
 
     # compute changes in isometric latitude and longitude between points
     disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
-    dlon = lon2 - lon1
+    # the shorter way around, as departure() takes
+    dlon = pi - (lon1 - lon2 + pi) % tau
 
     # compute azimuth
     az12 = atan2(dlon, disolat)
-- 
2.43.0


From 673ff057de5e9336ae6cc28502d93efb218e0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 12/47] fix: CLI commands with an optional radius work without
 it

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..1cf2dd1 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=None if default is None else str(default),
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From 3a9387f37e37b1abb7c851051e2e68149f8e26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 13/47] fix: CLI JSON output renders NumPy arrays

---
 src/pymap3d/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 1cf2dd1..e01fe3c 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -183,7 +183,8 @@ def _to_jsonable(value: Any) -> Any:
         case datetime():
             return value.isoformat()
 
-    return value
+    # NumPy array or scalar
+    return value.tolist() if hasattr(value, "tolist") else value
 
 
 def _emit_result(result: Any, output_mode: str, precision: int | None) -> None:
-- 
2.43.0


From 7fce40d5fb3fa650ab9f9778c7040f347d9239ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 14/47] fix: str2dt converts lists of times as documented

---
 src/pymap3d/timeconv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 4f5e710..35dcf16 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -28,5 +28,7 @@ def str2dt(time: DatetimeLike):
         return time
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
+    elif isinstance(time, (list, tuple)):
+        return [str2dt(t) for t in time]
     else:
         return time.astype(datetime)
-- 
2.43.0


From b632975c9f366377974fa91fce145490ad98f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 15/47] fix: vallado azel/radec are right at the poles and use
 the pure-Python sidereal time

---
 src/pymap3d/vallado.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..02e226b 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -67,12 +67,10 @@ def azel2radec(
     # %% Vallado "algorithm 28" p 268
     dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
 
-    lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
-    )
+    # free of divisions by cos(lat) and cos(dec), which vanish at the poles
+    lha = atan2(-sin(az) * cos(el), sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az))
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -124,15 +122,13 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
     el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
     # %% combine Eq. 4-13 and 4-14 p. 268
-    az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
-    )
+    # free of divisions by cos(lat) and cos(el), which vanish at the poles
+    az = atan2(-sin(lha) * cos(dec), sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha))
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 143c52acc12672dfdd170655b4d960d82d84a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 16/47] fix: vreckon iterates at least once, also for a
 distance of exactly one turn

---
 src/pymap3d/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 78080ef..afd83d4 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -23,7 +23,7 @@ from .mathfun import (
     sqrt,
     tan,
 )
-from math import pi, tau, nan
+from math import inf, nan, pi, tau
 
 try:
     from numpy import asarray, where
@@ -384,7 +384,7 @@ def vreckon(
     B = uSq / 1024 * (256 + uSq * (-128 + uSq * (74 - 47 * uSq)))
 
     sigma = rng / (b * A)
-    sigmaP = 2 * pi
+    sigmaP = inf
 
     sinSigma = nan
     cosSigma = nan
-- 
2.43.0


From b8af3b30e06a8cccd145d75f3b3bc3a58478205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 17/47] fix: lookAtSpheroid finds the surface under an observer
 standing on it

---
 src/pymap3d/los.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index 7eeeb54..5da849d 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -105,10 +105,15 @@ def lookAtSpheroid(
 
     d = (value - a * b * c * sqrt(radical)) / magnitude
 
+    # rounding may put the intersection of an observer on the surface just behind the observer
+    d_eps = 1e-9 * a
     try:
+        d[(d < 0) & (d > -d_eps)] = 0.0
         d[d < 0] = nan
     except TypeError:
-        if d < 0:
+        if -d_eps < d < 0:
+            d = 0.0
+        elif d < 0:
             d = nan
 
     # %% cartesian to ellipsodal
-- 
2.43.0


From 5145fb4ec7b1044f7868a8a7190d86adab4c8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 18/47] fix: ecef2geodetic keeps the shape of arrays and takes
 arrays mixed with scalars

---
 src/pymap3d/ecef.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 4eb683d..60cd00f 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -5,7 +5,7 @@ as well as related ENU (east, north, up) and ECI (earth-centered inertial) frame
 from __future__ import annotations
 
 try:
-    from numpy import empty_like, finfo, where
+    from numpy import broadcast_arrays, empty_like, finfo, where
 except ImportError:
     pass
 
@@ -181,14 +181,16 @@ def ecef2geodetic(
     def _beta_numpy(x, y, z) -> tuple:
         """using Numpy"""
         Beta = empty_like(r)
-        ibad = isclose(u, 0) | isclose(hxy, 0)
-        Beta[~ibad] = atan(huE[~ibad] / u[~ibad] * z[~ibad] / hxy[~ibad])
+        # arrays may be mixed with scalars
+        ub, hub, zb, hxyb = broadcast_arrays(u, huE, z, hxy)
+        ibad = isclose(ub, 0) | isclose(hxyb, 0)
+        Beta[~ibad] = atan(hub[~ibad] / ub[~ibad] * zb[~ibad] / hxyb[~ibad])
         # eqn. 13
         Beta[~ibad] += (
-            (ell.semiminor_axis * u[~ibad] - ell.semimajor_axis * huE[~ibad] + E**2)
+            (ell.semiminor_axis * ub[~ibad] - ell.semimajor_axis * hub[~ibad] + E**2)
             * sin(Beta[~ibad])
         ) / (
-            ell.semimajor_axis * huE[~ibad] * 1 / cos(Beta[~ibad])
+            ell.semimajor_axis * hub[~ibad] * 1 / cos(Beta[~ibad])
             - E**2 * cos(Beta[~ibad])
         )
         iz = ibad & isclose(z, 0)
@@ -201,7 +203,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
-- 
2.43.0


From 8f65e7ec166b068ed30878ab2a04c7f2e9d819e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 19/47] fix: ECI/ECEF transforms keep the shape of arrays

---
 src/pymap3d/eci.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index a4e089f..8d5aaf7 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -504,23 +504,19 @@ def _apply_state_rotation_scalar(
 def _squeeze_xyz(x, y, z):
     """Preserve scalar inputs while supporting array outputs."""
 
-    try:
-        return x.squeeze()[()], y.squeeze()[()], z.squeeze()[()]
-    except AttributeError:
-        return x, y, z
+    return _squeeze_one(x), _squeeze_one(y), _squeeze_one(z)
 
 
 def _squeeze_state(x, y, z, vx, vy, vz):
     """Preserve scalar state inputs while supporting array outputs."""
 
+    return tuple(_squeeze_one(v) for v in (x, y, z, vx, vy, vz))
+
+
+def _squeeze_one(v):
+    """One-element arrays become scalars, other arrays keep their shape."""
+
     try:
-        return (
-            x.squeeze()[()],
-            y.squeeze()[()],
-            z.squeeze()[()],
-            vx.squeeze()[()],
-            vy.squeeze()[()],
-            vz.squeeze()[()],
-        )
+        return v.squeeze()[()] if v.size == 1 else v
     except AttributeError:
-        return x, y, z, vx, vy, vz
+        return v
-- 
2.43.0


From 0afaa7c270089a68c0c19a69fe468716e5398c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 20/47] fix: loxodrome functions keep the shape of arrays

---
 src/pymap3d/lox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 1f31ab4..0741bee 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -176,6 +176,8 @@ def loxodrome_inverse(
         az12 = degrees(az12) % 360.0
 
     try:
+        if dist.size > 1:
+            return dist, az12
         return dist.squeeze()[()], az12.squeeze()[()]
     except AttributeError:
         return dist, az12
@@ -264,6 +266,8 @@ def loxodrome_direct(
         lat2, lon2 = degrees(lat2), degrees(lon2)
 
     try:
+        if lon2.size > 1:
+            return lat2[()], lon2
         return lat2.squeeze()[()], lon2.squeeze()[()]
     except AttributeError:
         return lat2, lon2
-- 
2.43.0


From 72e96a301737eb57c059879e9048a6a105531487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 21/47] fix: vallado azel/radec give no NaN at zenith and at
 the celestial poles

---
 src/pymap3d/vallado.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 02e226b..0e5459f 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import atan2, cos, degrees, hypot, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -65,10 +65,14 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    sindec = sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az)
 
     # free of divisions by cos(lat) and cos(dec), which vanish at the poles
-    lha = atan2(-sin(az) * cos(el), sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az))
+    y = -sin(az) * cos(el)
+    x = sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az)
+    lha = atan2(y, x)
+    # rounding can take sindec beyond 1
+    dec = atan2(sindec, hypot(x, y))
 
     lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
@@ -126,9 +130,13 @@ def radec2azel(
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
+    sinel = sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha)
     # %% combine Eq. 4-13 and 4-14 p. 268
     # free of divisions by cos(lat) and cos(el), which vanish at the poles
-    az = atan2(-sin(lha) * cos(dec), sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha))
+    y = -sin(lha) * cos(dec)
+    x = sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha)
+    az = atan2(y, x)
+    # rounding can take sinel beyond 1
+    el = atan2(sinel, hypot(x, y))
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From e07f7824bfbb0beb8b54b91b7794c245959ef0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 22/47] fix: nvector2geodetic and cross-track distance are
 accurate at poles and give no NaN by rounding

---
 src/pymap3d/nvector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 800fb05..9672557 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from .mathfun import acos, atan2, cos, degrees, hypot, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -66,7 +66,8 @@ def nvector2geodetic(n1: FloatLike, n2: FloatLike, n3: FloatLike, deg: bool = Tr
     """
 
     # Compute latitude and longitude from n-vector
-    lat = asin(n3)
+    # well-conditioned at the poles, and rounding can take n3 beyond 1
+    lat = atan2(n3, hypot(n1, n2))
     lon = atan2(n2, n1)
 
     if deg:
@@ -285,7 +286,10 @@ def nvector_cross_track_distance(
     cx, cy, cz = _norm3(cx, cy, cz)
 
     # Signed angular distance from the great circle
-    return radius * asin(_dot3(cx, cy, cz, np_1, np_2, np_3))
+    sin_dist = _dot3(cx, cy, cz, np_1, np_2, np_3)
+    px, py, pz = _cross3(cx, cy, cz, np_1, np_2, np_3)
+    # rounding can take sin_dist beyond 1
+    return radius * atan2(sin_dist, sqrt(px * px + py * py + pz * pz))
 
 
 def nvector_intersection(
-- 
2.43.0


From 887c4ed20fd44021fc39121a28c7612811b4884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 23/47] fix: geodetic/spherical conversion is accurate near the
 poles

---
 src/pymap3d/spherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index fde9166..3f5b2d6 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import asin, atan2, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -69,7 +69,7 @@ def geodetic2spherical(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     # radius of curvature of the prime vertical section
     N = ell.semimajor_axis**2 / hypot(
@@ -82,7 +82,7 @@ def geodetic2spherical(
     xy_projection = (alt + N) * coslat
     z_cartesian = (alt + (1 - ell.eccentricity**2) * N) * sinlat
     radius = hypot(xy_projection, z_cartesian)
-    slat = asin(z_cartesian / radius)
+    slat = atan2(z_cartesian, xy_projection)
 
     if deg:
         slat = degrees(slat)
@@ -138,7 +138,7 @@ def spherical2geodetic(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     Z = radius * sinlat
     p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
-- 
2.43.0


From cfd42861384756dd4a9e36471de61f91221a1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 24/47] fix: geoc2geod uses the right sign in the second-order
 term

---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 901be2b..5179b4d 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -93,7 +93,7 @@ def geoc2geod(
     geodetic_lat = (
         geocentric_lat
         + (sin(2 * geocentric_lat) / r) * ell.flattening
-        + ((1 / r**2 + 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
+        + ((1 / r**2 - 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
     )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From 3942cb2d623f6e6f87f9ccb1996c3253ef28e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 25/47] fix: Karney inverse bisects to convergence for nearly
 antipodal points

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index e4a4c82..ce17aec 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -30,7 +30,7 @@ _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
 _xthresh = 1000 * _tol2
 _maxit1 = 20
-_maxit2 = _maxit1 + 10 + 1
+_maxit2 = _maxit1 + sys.float_info.mant_dig + 10
 
 _nC1 = 6
 _nC1p = 6
-- 
2.43.0


From 09f5220e5b36bc02fe7ec2f4ae99869979d5fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 26/47] fix: geodesic_area returns the area enclosed by the
 geodesic edges

---
 src/pymap3d/karney.py | 77 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 16 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index ce17aec..f4a38e0 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -733,6 +733,52 @@ class _Geodesic:
         azi2 = _atan2d(salp2, calp2)
         return s12x, azi1, azi2
 
+    def _EdgeArea(self, lat1, lat2, lon12, azi1, azi2):
+        """signed area between the geodesic from 1 to 2 and the equator (eastward north of it is positive)"""
+        sbet1, cbet1 = _sincosd(lat1)
+        sbet1, cbet1 = _norm2(sbet1 * self._f1, max(_tiny, cbet1))
+        sbet2, cbet2 = _sincosd(lat2)
+        sbet2, cbet2 = _norm2(sbet2 * self._f1, max(_tiny, cbet2))
+        salp1, calp1 = _sincosd(azi1)
+        salp2, calp2 = _sincosd(azi2)
+
+        salp0 = salp1 * cbet1
+        calp0 = hypot(calp1, salp1 * sbet1)
+        k2 = calp0 ** 2 * self._ep2
+        eps = k2 / (2.0 * (1.0 + sqrt(1.0 + k2)) + k2)
+        ssig1, csig1 = _norm2(sbet1, calp1 * cbet1) if sbet1 or calp1 else (0.0, 1.0)
+        ssig2, csig2 = _norm2(sbet2, calp2 * cbet2) if sbet2 or calp2 else (0.0, 1.0)
+
+        # longitude difference on the auxiliary sphere
+        sig12 = math.atan2(abs(csig1 * ssig2 - ssig1 * csig2), csig1 * csig2 + ssig1 * ssig2)
+        C3a = [0.0] * _nC3
+        self._C3f(eps, C3a)
+        B312 = (_SinCosSeries(True, ssig2, csig2, C3a, _nC3 - 1) -
+                _SinCosSeries(True, ssig1, csig1, C3a, _nC3 - 1))
+        omg12 = math.radians(lon12) + self.f * self._A3f(eps) * salp0 * (sig12 + B312)
+
+        if abs(omg12) < 2.3:
+            # spherical excess; well conditioned also for short edges
+            alp12 = 2.0 * math.atan2(
+                math.sin(omg12 / 2.0) * (sbet1 * (1.0 + cbet2) + sbet2 * (1.0 + cbet1)),
+                math.cos(omg12 / 2.0) * (sbet1 * sbet2 + (1.0 + cbet1) * (1.0 + cbet2)))
+            # the azimuth at 2 is ill conditioned for short edges running east-west
+            calp2 = calp1 * math.cos(alp12) - salp1 * math.sin(alp12)
+            ssig2, csig2 = _norm2(sbet2, calp2 * cbet2) if sbet2 or calp2 else (0.0, 1.0)
+        else:
+            alp12 = math.atan2(salp2 * calp1 - calp2 * salp1, calp2 * calp1 + salp2 * salp1)
+            # over a pole, half a turn in the direction of travel
+            sign = copysign(1.0, lon12) * copysign(1.0, calp1)
+            if abs(alp12) > 3.0 and alp12 * sign < 0 and abs(salp0) < _tol2:
+                alp12 += copysign(2.0 * math.pi, sign)
+
+        C4a = [0.0] * _nC4
+        self._C4f(eps, C4a)
+        C4a.insert(0, 0.0)  # _SinCosSeries counts from 1
+        B412 = (_SinCosSeries(False, ssig2, csig2, C4a, _nC4) -
+                _SinCosSeries(False, ssig1, csig1, C4a, _nC4))
+        return self._c2 * alp12 + self.a ** 2 * calp0 * salp0 * self._e2 * B412
+
     def _Direct(self, lat1, lon1, azi1, s12):
         salp1, calp1 = _sincosd(_AngNormalize(azi1))
         sbet1, cbet1 = _sincosd(_AngRound(lat1))
@@ -969,7 +1015,7 @@ def geodesic_area(
     Compute the area and perimeter of a geodesic polygon.
     Polygon must have at least 3 vertices.
 
-    Counterclockwise vertex ordering gives positive area.
+    Clockwise vertex ordering (seen from outside) gives positive area.
 
     Parameters
     ----------
@@ -985,7 +1031,7 @@ def geodesic_area(
     Returns
     -------
     area : float
-        Area in square meters (signed: CCW = positive).
+        Area in square meters (signed: clockwise = positive).
     perimeter : float
         Perimeter in meters.
     """
@@ -994,29 +1040,28 @@ def geodesic_area(
     if n < 3:
         raise ValueError("Polygon must have at least 3 vertices")
 
+    if not deg:
+        lats = [math.degrees(v) for v in lats]
+        lons = [math.degrees(v) for v in lons]
+
     g = _get_geodesic(ell)
     perimeter = 0.0
-    area_sum = 0.0
-    azi2_prev = None
-    azi1_first = None
+    area = 0.0
+    turn = 0.0
 
     for i in range(n):
         j = (i + 1) % n
         dist_ij, azi1_ij, azi2_ij = geodesic_inverse(
-            lats[i], lons[i], lats[j], lons[j], ell=ell, deg=deg)
+            lats[i], lons[i], lats[j], lons[j], ell=ell)
+        lon_ij, _ = _AngDiff(lons[i], lons[j])
         perimeter += dist_ij
-        if i == 0:
-            azi1_first = azi1_ij
-        else:
-            diff, _ = _AngDiff(azi2_prev, azi1_ij)
-            area_sum += diff
-        azi2_prev = azi2_ij
-
-    diff, _ = _AngDiff(azi2_prev, azi1_first)
-    area_sum += diff
+        turn += lon_ij
+        area += g._EdgeArea(lats[i], lats[j], lon_ij, azi1_ij, azi2_ij)
 
-    area = g._c2 * math.radians(area_sum)
     area0 = 4.0 * math.pi * g._c2
+    # a polygon around a pole was measured against the other side of the equator
+    if round(turn / 360.0) % 2:
+        area -= copysign(area0 / 2, area)
     if abs(area) > area0 / 2:
         area -= copysign(area0, area)
     return area, perimeter
-- 
2.43.0


From bd955a0c7bb675e27880652c3d68a874e5d40cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 27/47] fix: Earth rotation matrix rate no longer differences
 40 us time steps

A Julian date resolves 40 microseconds, so the central difference over one
second had a relative error up to 4e-5: 3 cm/s in the velocities of
eci2ecef_state and ecef2eci_state at 1e7 m. Differentiate the spin
analytically and only the slow terms numerically.
---
 src/pymap3d/earth_orientation.py | 47 +++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..adcaf11 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -141,6 +141,17 @@ def greenwich_mean_sidereal_time(jd_ut1: float) -> float:
     return gmst_sec * tau / 86400.0 % tau
 
 
+def _greenwich_mean_sidereal_rate(jd_ut1: float) -> float:
+    """Rate of Greenwich mean sidereal time in radians per second."""
+
+    t_ut1 = julian_centuries(jd_ut1)
+    sec_per_century = (
+        (876600 * 3600 + 8640184.812866) + 2 * 0.093104 * t_ut1 - 3 * 6.2e-6 * t_ut1**2
+    )
+
+    return sec_per_century / (86400.0 * 36525.0) * tau / 86400.0
+
+
 def earth_rotation_angle(jd_ut1: float) -> float:
     """Earth rotation angle in radians, per IAU 2000 formulation."""
 
@@ -319,17 +330,39 @@ def eci_to_ecef_matrix_rate(
     delta_ut1: float = 0.0,
     xp: float = 0.0,
     yp: float = 0.0,
-    dt_seconds: float = 0.5,
+    dt_seconds: float = 3600.0,
 ):
     """
     Time derivative of the ECI->ECEF rotation matrix.
 
-    Uses a central difference over the same Earth-orientation model as
-    ``eci_to_ecef_matrix()``.
+    The Earth's spin is differentiated analytically: a Julian date only resolves
+    40 microseconds, too coarse to difference it over a second.
+    The slow precession, nutation and equation of the equinoxes are differentiated
+    by a central difference of half width ``dt_seconds``.
     """
 
-    dt = timedelta(seconds=dt_seconds)
-    c_plus = eci_to_ecef_matrix(time + dt, delta_ut1=delta_ut1, xp=xp, yp=yp)
-    c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp, yp=yp)
+    jd_ut1 = juliandate(utc_with_offset(time, delta_ut1))
+    jd_tt = juliandate(utc_to_tt(time))
+    ttt = julian_centuries(jd_tt)
+    dt_centuries = dt_seconds / (86400.0 * 36525.0)
+
+    def precession_nutation(t: float):
+        return matmul3(nutation_matrix(t), precession_matrix(t))
+
+    t_plus = ttt + dt_centuries
+    t_minus = ttt - dt_centuries
+    scale = 1.0 / (2.0 * dt_seconds)
+    eqeq_rate = (equation_of_equinoxes(t_plus) - equation_of_equinoxes(t_minus)) * scale
+    np_rate = matscale3(matsub3(precession_nutation(t_plus), precession_nutation(t_minus)), scale)
+
+    gast = greenwich_apparent_sidereal_time(jd_ut1, jd_tt)
+    gast_rate = _greenwich_mean_sidereal_rate(jd_ut1) + eqeq_rate
+    c = gast_rate * cos(gast)
+    s = gast_rate * sin(gast)
+    spin_rate = ((-s, c, 0.0), (-c, -s, 0.0), (0.0, 0.0, 0.0))
+
+    spin = matmul3(spin_rate, precession_nutation(ttt))
+    slow = matmul3(rotation_z(gast), np_rate)
+    total = tuple(tuple(spin[i][j] + slow[i][j] for j in range(3)) for i in range(3))
 
-    return matscale3(matsub3(c_plus, c_minus), 1.0 / (2.0 * dt_seconds))
+    return matmul3(polar_motion_matrix(xp, yp), total)
-- 
2.43.0


From 45bae516e2e22fa6669db2773b8dcc9d3fd53208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 28/47] fix: str2dt of datetime64 in other units than seconds
 to microseconds

numpy.datetime64[ns].astype(datetime) is an integer and datetime64[D] a date.
---
 src/pymap3d/timeconv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 35dcf16..10f46f2 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -31,4 +31,7 @@ def str2dt(time: DatetimeLike):
     elif isinstance(time, (list, tuple)):
         return [str2dt(t) for t in time]
     else:
+        if time.dtype.kind == "M":
+            # other units than microseconds become integers or dates
+            time = time.astype("datetime64[us]")
         return time.astype(datetime)
-- 
2.43.0


From 02cc367327b304dbe0507d9ae900e9c8d10c8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 29/47] fix: polar motion turned the wrong way in eci2ecef and
 ecef2eci

The matrix for terrestrial to celestial was used in the opposite direction, so
giving xp and yp doubled the effect of polar motion instead of removing it
(20 m at the surface). Now agrees with ERFA's pom00.
---
 src/pymap3d/earth_orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index adcaf11..42adde4 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -293,7 +293,7 @@ def polar_motion_matrix(xp_arcsec: float = 0.0, yp_arcsec: float = 0.0):
 
     xp = xp_arcsec * ARCSEC2RAD
     yp = yp_arcsec * ARCSEC2RAD
-    return matmul3(rotation_y(xp), rotation_x(yp))
+    return matmul3(rotation_x(-yp), rotation_y(-xp))
 
 
 def eci_to_ecef_matrix(
-- 
2.43.0


From 1cda3e9fcaf53c45d3e763cbde38f4e2dc037477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 30/47] fix: command line printed matrices as np.float64(...)
 and arrays with 8 digits, ignoring --precision

---
 src/pymap3d/__main__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index e01fe3c..818c45f 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -167,6 +167,16 @@ def _call_selected_function(
 
 
 def _format_scalar(value: Any, precision: int | None) -> str:
+    if getattr(value, "ndim", 0):
+        # NumPy array, with all digits of its elements
+        value = value.tolist()
+
+    match value:
+        case tuple():
+            return f"({', '.join(_format_scalar(v, precision) for v in value)})"
+        case list():
+            return f"[{', '.join(_format_scalar(v, precision) for v in value)}]"
+
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
-- 
2.43.0


From 53226faa80cbd9a03dbb3ace33db3731dd66cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 31/47] fix: command line rejected negative numbers with
 exponents

---
 src/pymap3d/__main__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 818c45f..243ba91 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -12,10 +12,13 @@ import argparse
 from datetime import datetime
 import inspect
 import json
+import re
 from typing import Any
 
 import pymap3d as pm
 
+_NEGATIVE_NUMBER = re.compile(r"^-(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?(,.*)?$")
+
 
 def _is_datetime_param(param: inspect.Parameter) -> bool:
     """Detect datetime-like parameters from annotation or conventional parameter names."""
@@ -133,6 +136,8 @@ def _register_commands(subparsers: argparse._SubParsersAction) -> dict[str, Any]
             continue
 
         cmd_parser = subparsers.add_parser(name, help=(obj.__doc__ or "").strip().splitlines()[0])
+        # argparse takes -1e-9 for an option
+        cmd_parser._negative_number_matcher = _NEGATIVE_NUMBER
         cmd_parser.set_defaults(_func_name=name)
 
         for param in sig.parameters.values():
-- 
2.43.0


From 70d7da8363ed6e3379f342e7e92fc5f9aca7d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 32/47] fix: vdist in radians accepts arrays mixed with floats

---
 src/pymap3d/vincenty.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index afd83d4..4900b8f 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -118,11 +118,14 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    try:
-        if (abs(lat1) > pi / 2).any() | (abs(lat2) > pi / 2).any():
-            raise ValueError("Input latitudes must be in [-90, 90] degrees.")
-    except AttributeError:
-        if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
+    for lat in (lat1, lat2):
+        # each on its own, since one may be an array and the other a float
+        beyond = abs(lat) > pi / 2
+        try:
+            beyond = beyond.any()
+        except AttributeError:
+            pass
+        if beyond:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters,
     # without writing to the caller's arrays:
-- 
2.43.0


From 36a66723c6d0c60c6a21e70a3925c024fdcc90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 33/47] fix: track2 recognises antipodal end points

---
 src/pymap3d/vincenty.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 4900b8f..36a4e40 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -510,11 +510,10 @@ def track2(
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    gcarclen = 2.0 * asin(
-        sqrt((sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2)
-    )
-    # check to see if points are antipodal (if so, route is undefined).
-    if abs(gcarclen - pi) < 1e-12:
+    # check to see if points are antipodal (if so, route is undefined): squared half chord from the
+    # first point to the antipode of the second, without the cancellation of the arc length near pi
+    hav = (sin((lat1 + lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (cos((lon1 - lon2) / 2)) ** 2
+    if hav < (0.5e-12) ** 2:
         raise ValueError(
             "cannot compute intermediate points on a great circle whose endpoints are antipodal"
         )
-- 
2.43.0


From 9433ef99935955930b1153f0649cab05903fc3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 34/47] fix: vallado azel/radec accept arrays of observer
 latitudes

---
 src/pymap3d/vallado.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 0e5459f..d76c659 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -57,8 +57,12 @@ def azel2radec(
     p.258-259
     """
 
-    if abs(lat_deg) > 90:
-        raise ValueError("-90 <= lat <= 90")
+    try:
+        if (abs(lat_deg) > 90).any():
+            raise ValueError("-90 <= lat <= 90")
+    except AttributeError:
+        if abs(lat_deg) > 90:
+            raise ValueError("-90 <= lat <= 90")
 
     az = radians(az_deg)
     el = radians(el_deg)
@@ -118,8 +122,12 @@ def radec2azel(
     from D. Vallado "Fundamentals of Astrodynamics and Applications "
        4th Edition Ch. 4.4 pg. 266-268
     """
-    if abs(lat_deg) > 90:
-        raise ValueError("-90 <= lat <= 90")
+    try:
+        if (abs(lat_deg) > 90).any():
+            raise ValueError("-90 <= lat <= 90")
+    except AttributeError:
+        if abs(lat_deg) > 90:
+            raise ValueError("-90 <= lat <= 90")
 
     ra = radians(ra_deg)
     dec = radians(dec_deg)
-- 
2.43.0


From bb19020b80998aab2d464cabae291ca55cc03bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 35/47] fix: vdist leaves the logging configuration alone

---
 src/pymap3d/vincenty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 36a4e40..f8cabd7 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -33,6 +33,8 @@ except ImportError:
 
 __all__ = ["vdist", "vreckon", "track2"]
 
+logger = logging.getLogger(__name__)
+
 
 def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True) -> tuple:
     """
@@ -169,7 +171,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         itercount += 1
         if itercount > 50:
             if not warninggiven:
-                logging.warning("Essentially antipodal points--precision may be reduced slightly.")
+                logger.warning("Essentially antipodal points--precision may be reduced slightly.")
 
             try:
                 lamb = where(done, lamb, pi)
@@ -215,7 +217,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             i = antipodal
 
         if i and not warninggiven:
-            logging.warning(
+            logger.warning(
                 "Essentially antipodal points encountered. Precision may be reduced slightly."
             )
             warninggiven = True
-- 
2.43.0


From 3e0a1dc591ab0c2d336219a3ac2e27fe86187bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 36/47] fix: meanm counts every point when latitude and
 longitude broadcast

---
 src/pymap3d/lox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 0741bee..5156bf4 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -340,6 +340,11 @@ def meanm(lat: NDArray, lon: NDArray, ell: Ellipsoid | None = None, deg: bool =
 
     lat = geodetic2authalic(lat, ell, deg=False)
 
+    try:
+        lat, lon = broadcast_arrays(lat, lon)
+    except NameError:
+        pass
+
     x, y, z = sph2cart(lon, lat, 1.0)
     lonbar, latbar, _ = cart2sph(x.sum(), y.sum(), z.sum())
     latbar = authalic2geodetic(latbar, ell, deg=False)
-- 
2.43.0


From 670116ff1ed699f043a73c2e5cb86e77fc64f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:32 +0000
Subject: [PATCH 37/47] fix: loxodrome functions keep the shape of empty arrays

---
 src/pymap3d/lox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 5156bf4..f984228 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -176,7 +176,7 @@ def loxodrome_inverse(
         az12 = degrees(az12) % 360.0
 
     try:
-        if dist.size > 1:
+        if dist.size != 1:
             return dist, az12
         return dist.squeeze()[()], az12.squeeze()[()]
     except AttributeError:
@@ -266,7 +266,7 @@ def loxodrome_direct(
         lat2, lon2 = degrees(lat2), degrees(lon2)
 
     try:
-        if lon2.size > 1:
+        if lon2.size != 1:
             return lat2[()], lon2
         return lat2.squeeze()[()], lon2.squeeze()[()]
     except AttributeError:
-- 
2.43.0


From d107178414b18c5c6f436b63b783a96d07712c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 38/47] fix: angles given as arrays of 8- and 16-bit integers
 were converted in half or single precision

---
 src/pymap3d/mathfun.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index f8df0ed..15f391f 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -25,13 +25,19 @@ try:
         linspace,
         log,
         minimum,
+        multiply,
         power,
-        radians,
         sign,
         sin,
         sqrt,
         tan,
     )
+    from numpy import radians as _radians
+
+    def radians(x):
+        """degrees to radians, in double precision for integers of any size"""
+        return _radians(multiply(x, 1.0))
+
 except ImportError:
     from math import (  # type: ignore
         acos,
-- 
2.43.0


From 779e4455a63dd7a45619321b189f8915422dc6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 39/47] fix: 32-bit integer positions overflowed in
 ecef2geodetic and spherical2geodetic

---
 src/pymap3d/ecef.py      | 3 +++
 src/pymap3d/spherical.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 60cd00f..a8b36d2 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -125,6 +125,9 @@ def ecef2geodetic(
 
     ell = resolve_ellipsoid(ell)
 
+    # integers would overflow
+    x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
+
     r = sqrt(x**2 + y**2 + z**2)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index 3f5b2d6..f2fa565 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -141,7 +141,7 @@ def spherical2geodetic(
     coslat = cos(lat)
 
     Z = radius * sinlat
-    p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
+    p_0 = power(radius * coslat, 2) / ell.semimajor_axis**2
     q_0 = (1 - ell.eccentricity**2) / ell.semimajor_axis**2 * Z**2
     r_0 = (p_0 + q_0 - ell.eccentricity**4) / 6
     s_0 = ell.eccentricity**4 * p_0 * q_0 / 4 / r_0**3
-- 
2.43.0


From 2a397613abec252cc6e7cd705d32142d00f52c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 40/47] fix: single-precision latitudes of the poles changed
 hemisphere

---
 src/pymap3d/latitude.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 5179b4d..2188c1f 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -16,6 +16,7 @@ from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import (
     asinh,
     atan,
+    atan2,
     atanh,
     cos,
     degrees,
@@ -135,7 +136,9 @@ def geodetic2geocentric(geodetic_lat: FloatLike, alt_m: FloatLike, ell: Ellipsoi
         geodetic_lat = radians(geodetic_lat)
 
     r = rcurve.transverse(geodetic_lat, ell, deg=False)
-    geocentric_lat = atan((1 - ell.eccentricity**2 * (r / (r + alt_m))) * tan(geodetic_lat))
+    geocentric_lat = atan2(
+        (1 - ell.eccentricity**2 * (r / (r + alt_m))) * sin(geodetic_lat), cos(geodetic_lat)
+    )
 
     return degrees(geocentric_lat) if deg else geocentric_lat
 
@@ -179,7 +182,9 @@ def geocentric2geodetic(geocentric_lat: FloatLike, alt_m, ell: Ellipsoid | None
         geocentric_lat = radians(geocentric_lat)
 
     r = rcurve.transverse(geocentric_lat, ell, deg=False)
-    geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))
+    geodetic_lat = atan2(
+        sin(geocentric_lat), (1 - ell.eccentricity**2 * (r / (r + alt_m))) * cos(geocentric_lat)
+    )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
 
@@ -230,7 +235,7 @@ def geodetic2isometric(geodetic_lat: FloatArray, ell: Ellipsoid | None = None, d
     # isometric_lat = log(tan(a2)) + e/2 * log((1-e*sin(geodetic_lat)) / (1+e*sin(geodetic_lat)))
 
     coslat = cos(geodetic_lat)
-    i = abs(coslat) <= COS_EPS
+    i = coslat <= COS_EPS
 
     try:
         isometric_lat[i] = sign(geodetic_lat[i]) * inf
@@ -610,7 +615,7 @@ def geodetic2parametric(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, d
     if deg:
         geodetic_lat = radians(geodetic_lat)
 
-    parametric_lat = atan(sqrt(1 - (ell.eccentricity) ** 2) * tan(geodetic_lat))
+    parametric_lat = atan2(sqrt(1 - (ell.eccentricity) ** 2) * sin(geodetic_lat), cos(geodetic_lat))
 
     return degrees(parametric_lat) if deg else parametric_lat
 
@@ -647,6 +652,6 @@ def parametric2geodetic(parametric_lat: FloatLike, ell: Ellipsoid | None = None,
     if deg:
         parametric_lat = radians(parametric_lat)
 
-    geodetic_lat = atan(tan(parametric_lat) / sqrt(1 - (ell.eccentricity) ** 2))
+    geodetic_lat = atan2(sin(parametric_lat), sqrt(1 - (ell.eccentricity) ** 2) * cos(parametric_lat))
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From 24ce32b53962ecf8e12a045b77d7539b7104773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 41/47] fix: vdist and vreckon did not converge in single
 precision

---
 src/pymap3d/mathfun.py  | 9 +++++++++
 src/pymap3d/vincenty.py | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index 15f391f..e596645 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -26,6 +26,7 @@ try:
         log,
         minimum,
         multiply,
+        positive,
         power,
         sign,
         sin,
@@ -38,6 +39,10 @@ try:
         """degrees to radians, in double precision for integers of any size"""
         return _radians(multiply(x, 1.0))
 
+    def double(x):
+        """the same numbers in double precision"""
+        return positive(x, dtype=float)
+
 except ImportError:
     from math import (  # type: ignore
         acos,
@@ -73,6 +78,9 @@ except ImportError:
         step = (stop - start) / (num - 1)
         return [start + i * step for i in range(num)]
 
+    def double(x):  # type: ignore
+        return x
+
     def power(x, y):  # type: ignore
         return pow(x, y)
 
@@ -99,6 +107,7 @@ __all__ = [
     "copysign",
     "cos",
     "degrees",
+    "double",
     "exp",
     "fmod",
     "hypot",
diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index f8cabd7..0b3ecbb 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -14,6 +14,7 @@ from .mathfun import (
     atan2,
     cos,
     degrees,
+    double,
     isnan,
     linspace,
     minimum,
@@ -114,6 +115,9 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     b = ell.semiminor_axis
     f = ell.flattening
 
+    # the iteration does not converge in single precision
+    lat1, lon1, lat2, lon2 = double(lat1), double(lon1), double(lat2), double(lon2)
+
     if deg:
         lat1 = radians(lat1)
         lon1 = radians(lon1)
@@ -352,6 +356,9 @@ def vreckon(
     b = ell.semiminor_axis
     f = ell.flattening
 
+    # the iteration does not converge in single precision
+    lat1, lon1, rng, azim = double(lat1), double(lon1), double(rng), double(azim)
+
     if deg:
         lat1 = radians(lat1)  # intial latitude in radians
         lon1 = radians(lon1)  # intial longitude in radians
-- 
2.43.0


From 3706b71057588c38ef16570be88db8ed319c0521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 42/47] fix: single-precision loxodromes due east or west had
 length zero or ended kilometres off

---
 src/pymap3d/lox.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index f984228..df9fe2c 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -22,7 +22,7 @@ from .latitude import (
     geodetic2rectifying,
     rectifying2geodetic,
 )
-from .mathfun import atan2, cos, degrees, radians, sign, tan
+from .mathfun import atan2, cos, degrees, double, radians, sign, tan
 from .utils import cart2sph, sph2cart
 
 __all__ = [
@@ -144,6 +144,9 @@ def loxodrome_inverse(
     Government Printing Office, p. 66.
     """
 
+    # single precision cannot tell a course from due east or west
+    lat1, lon1, lat2, lon2 = double(lat1), double(lon1), double(lat2), double(lon2)
+
     if deg:
         lat1, lon1, lat2, lon2 = radians(lat1), radians(lon1), radians(lat2), radians(lon2)
 
@@ -220,6 +223,9 @@ def loxodrome_direct(
         final geodetic longitude (degrees)
     """
 
+    # single precision cannot tell a course from due east or west
+    lat1, lon1, rng, a12 = double(lat1), double(lon1), double(rng), double(a12)
+
     if deg:
         lat1, lon1, a12 = radians(lat1), radians(lon1), radians(a12)
 
-- 
2.43.0


From a4fb341729d217008ac33db9489cb3993d48a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 43/47] fix: lookAtSpheroid lost metres in single precision

---
 src/pymap3d/los.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index 5da849d..fbee0b8 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -7,7 +7,7 @@ from math import nan, pi
 from .aer import aer2enu
 from .ecef import ecef2geodetic, enu2uvw, geodetic2ecef
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import sqrt
+from .mathfun import double, sqrt
 
 __all__ = ["lookAtSpheroid"]
 
@@ -66,6 +66,10 @@ def lookAtSpheroid(
         if h0 < 0:
             raise ValueError("Intersection calculation requires altitude  [0, Infinity)")
 
+    # the differences below are smaller than single precision resolves
+    lat0, lon0, h0 = double(lat0), double(lon0), double(h0)
+    az, tilt = double(az), double(tilt)
+
     a = ell.semimajor_axis
     b = ell.semimajor_axis
     c = ell.semiminor_axis
-- 
2.43.0


From 392f6a8e752fa47d1141fde5a696e8a7372196b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 44/47] fix: anglesep_meeus was NaN near the poles in single
 precision

---
 src/pymap3d/haversine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 48a5ca6..79c6c87 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, radians, sqrt
+from .mathfun import asin, cos, degrees, double, radians, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -59,6 +59,9 @@ def anglesep_meeus(
     either the arrays must be the same size, or one of them must be a scalar
     """
 
+    # near the poles, rounding in single precision would give the square root of a negative number
+    lon0, lat0, lon1, lat1 = double(lon0), double(lat0), double(lon1), double(lat1)
+
     if deg:
         lon0 = radians(lon0)
         lat0 = radians(lat0)
-- 
2.43.0


From c5aea0b47ca0eaa1dd09993bdeca7ae8bda8c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 45/47] fix: negated unsigned integer components wrapped around

---
 src/pymap3d/dca.py | 6 +++---
 src/pymap3d/ned.py | 6 +++---
 src/pymap3d/nwu.py | 8 ++++----
 src/pymap3d/sez.py | 8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pymap3d/dca.py b/src/pymap3d/dca.py
index 0dce8ce..26ca036 100644
--- a/src/pymap3d/dca.py
+++ b/src/pymap3d/dca.py
@@ -53,7 +53,7 @@ def enu2dca(e: FloatLike, n: FloatLike, u: FloatLike, heading: FloatLike, deg: b
         heading = radians(heading)
 
     dr = e * sin(heading) + n * cos(heading)
-    cr = -e * cos(heading) + n * sin(heading)
+    cr = n * sin(heading) - e * cos(heading)
 
     return dr, cr, u
 
@@ -77,14 +77,14 @@ def dca2ned(dr: FloatLike, cr: FloatLike, above: FloatLike, heading: FloatLike,
     Converts DCA (Downrange, Crossrange, Above) coordinates to NED (North, East, Down).
     """
     e, n, u = dca2enu(dr, cr, above, heading, deg=deg)
-    return n, e, -u
+    return n, e, -1.0 * u
 
 
 def ned2dca(n: FloatLike, e: FloatLike, d: FloatLike, heading: FloatLike, deg: bool = True):
     """
     Converts NED (North, East, Down) coordinates to DCA (Downrange, Crossrange, Above).
     """
-    dr, cr, above = enu2dca(e, n, -d, heading, deg=deg)
+    dr, cr, above = enu2dca(e, n, -1.0 * d, heading, deg=deg)
     return dr, cr, above
 
 
diff --git a/src/pymap3d/ned.py b/src/pymap3d/ned.py
index a95a16d..5b7ddf3 100644
--- a/src/pymap3d/ned.py
+++ b/src/pymap3d/ned.py
@@ -82,7 +82,7 @@ def ned2aer(n: FloatLike, e: FloatLike, d: FloatLike, deg: bool = True) -> tuple
          slant range [meters]
     """
 
-    return enu2aer(e, n, -d, deg=deg)
+    return enu2aer(e, n, -1.0 * d, deg=deg)
 
 
 def ned2geodetic(
@@ -128,7 +128,7 @@ def ned2geodetic(
     h : array-like float
         target altitude above geodetic ellipsoid (meters)
     """
-    x, y, z = enu2ecef(e, n, -d, lat0, lon0, h0, ell, deg=deg)
+    x, y, z = enu2ecef(e, n, -1.0 * d, lat0, lon0, h0, ell, deg=deg)
 
     return ecef2geodetic(x, y, z, ell, deg=deg)
 
@@ -176,7 +176,7 @@ def ned2ecef(
     z : array-like float
         ECEF z coordinate (meters)
     """
-    return enu2ecef(e, n, -d, lat0, lon0, h0, ell, deg=deg)
+    return enu2ecef(e, n, -1.0 * d, lat0, lon0, h0, ell, deg=deg)
 
 
 def ecef2ned(
diff --git a/src/pymap3d/nwu.py b/src/pymap3d/nwu.py
index 44a58a2..968e8de 100644
--- a/src/pymap3d/nwu.py
+++ b/src/pymap3d/nwu.py
@@ -35,7 +35,7 @@ def nwu2aer(n, w, u, deg: bool = True) -> tuple:
     Convert North, West, Up to azimuth, elevation, range.
     """
 
-    return enu2aer(-w, n, u, deg=deg)
+    return enu2aer(-1.0 * w, n, u, deg=deg)
 
 
 def nwu2geodetic(
@@ -52,7 +52,7 @@ def nwu2geodetic(
     Convert North, West, Up to target geodetic coordinates.
     """
 
-    return enu2geodetic(-w, n, u, lat0, lon0, h0, ell, deg=deg)
+    return enu2geodetic(-1.0 * w, n, u, lat0, lon0, h0, ell, deg=deg)
 
 
 def nwu2ecef(
@@ -69,7 +69,7 @@ def nwu2ecef(
     Convert North, West, Up to target ECEF coordinates.
     """
 
-    return enu2ecef(-w, n, u, lat0, lon0, h0, ell, deg=deg)
+    return enu2ecef(-1.0 * w, n, u, lat0, lon0, h0, ell, deg=deg)
 
 
 def nwu2ecefv(n, w, u, lat0, lon0, deg: bool = True) -> tuple:
@@ -77,7 +77,7 @@ def nwu2ecefv(n, w, u, lat0, lon0, deg: bool = True) -> tuple:
     Convert an NWU vector into ECEF coordinates.
     """
 
-    return enu2ecefv(-w, n, u, lat0, lon0, deg=deg)
+    return enu2ecefv(-1.0 * w, n, u, lat0, lon0, deg=deg)
 
 
 def ecef2nwu(
diff --git a/src/pymap3d/sez.py b/src/pymap3d/sez.py
index acc1f8a..cc0426b 100644
--- a/src/pymap3d/sez.py
+++ b/src/pymap3d/sez.py
@@ -35,7 +35,7 @@ def sez2aer(s, e, z, deg: bool = True) -> tuple:
     Convert South, East, Zenith to azimuth, elevation, range.
     """
 
-    return enu2aer(e, -s, z, deg=deg)
+    return enu2aer(e, -1.0 * s, z, deg=deg)
 
 
 def sez2geodetic(
@@ -52,7 +52,7 @@ def sez2geodetic(
     Convert South, East, Zenith to target geodetic coordinates.
     """
 
-    return enu2geodetic(e, -s, z, lat0, lon0, h0, ell, deg=deg)
+    return enu2geodetic(e, -1.0 * s, z, lat0, lon0, h0, ell, deg=deg)
 
 
 def sez2ecef(
@@ -69,7 +69,7 @@ def sez2ecef(
     Convert South, East, Zenith to target ECEF coordinates.
     """
 
-    return enu2ecef(e, -s, z, lat0, lon0, h0, ell, deg=deg)
+    return enu2ecef(e, -1.0 * s, z, lat0, lon0, h0, ell, deg=deg)
 
 
 def sez2ecefv(s, e, z, lat0, lon0, deg: bool = True) -> tuple:
@@ -77,7 +77,7 @@ def sez2ecefv(s, e, z, lat0, lon0, deg: bool = True) -> tuple:
     Convert a SEZ vector into ECEF coordinates.
     """
 
-    return enu2ecefv(e, -s, z, lat0, lon0, deg=deg)
+    return enu2ecefv(e, -1.0 * s, z, lat0, lon0, deg=deg)
 
 
 def ecef2sez(
-- 
2.43.0


From aa3a95f785f429059dcd6420292617019d3a2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 46/47] fix: the mid-latitude of small integers overflowed in
 euler

---
 src/pymap3d/rsphere.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/rsphere.py b/src/pymap3d/rsphere.py
index 925e668..7e8c004 100644
--- a/src/pymap3d/rsphere.py
+++ b/src/pymap3d/rsphere.py
@@ -122,7 +122,8 @@ def euler(
             degrees(lon2),
         )
 
-    latmid = lat1 + (lat2 - lat1) / 2  # compute the midpoint
+    # compute the midpoint; the sum or difference of small integers would overflow
+    latmid = 0.5 * lat1 + 0.5 * lat2
 
     # compute azimuth
     az = vdist(lat1, lon1, lat2, lon2, ell=ell)[1]
-- 
2.43.0


From 66a5cf1d1381df7d2c678eb477907aea1d4a31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 47/47] fix: angle differences of unsigned integers wrapped
 around in the geodesic routines

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index f4a38e0..2a7d571 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -75,7 +75,7 @@ def _AngRound(x):
 
 
 def _AngDiff(x, y):
-    d, t = _sum_error(-x, y)
+    d, t = _sum_error(-float(x), float(y))
     d = _AngNormalize(d)
     d, t2 = _sum_error(d if abs(d) != 180 else copysign(180.0, -t), t)
     return d, t2
-- 
2.43.0

