From 4e2a2a99996d8a91cb266cc003e96f49750379a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 01/45] fix: geodetic2eci forwards delta_ut1, xp and yp to
 ecef2eci

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From 4a6ca950a24fac911c731db27a1f9ee8a5fe70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/45] fix: lookAtSpheroid uses the given ellipsoid for
 observer and result

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From 9e65b2bc2977f89de245222a91ed4146162e0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 03/45] fix: ECI/ECEF state transforms accept arrays of more
 than one state

---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From a3fe4216d4749d52ded6cee183caac75ad9c3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 04/45] fix: enu2aer leaves its input arrays unchanged and
 accepts mixed arrays and scalars

---
 src/pymap3d/enu.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..b3eed7b 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from math import tau
 
 from ._typing import FloatLike
@@ -51,20 +52,16 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     # 1 millimeter precision for singularity stability
 
-    def _zero_trim_numpy(x, y, z) -> tuple:
-        x[abs(x) < 1e-3] = 0.0
-        y[abs(y) < 1e-3] = 0.0
-        z[abs(z) < 1e-3] = 0.0
-        return x, y, z
+    def _zero_trim(value, threshold: float = 1e-3):
+        """Trim small values (|x| < threshold) to zero, leaving the input as it is."""
+        try:
+            value = deepcopy(value)
+            value[abs(value) < threshold] = 0.0
+        except TypeError:
+            value = 0.0 if abs(value) < threshold else float(value)
+        return value
 
-    def _zero_trim_scalar(*values: float, threshold: float = 1e-3) -> tuple[float, ...]:
-        """Trim small values (|x| < threshold) to zero."""
-        return tuple(0.0 if abs(v) < threshold else float(v) for v in values)
-
-    try:
-        e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
-        e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
+    e, n, u = _zero_trim(e), _zero_trim(n), _zero_trim(u)
 
     r = hypot(e, n)
     slantRange = hypot(r, u)
-- 
2.43.0


From 8411a4ebf6581142db60452857fe3752af2b3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 05/45] fix: geodetic2conformal handles arrays containing the
 pole and is accurate near it

---
 src/pymap3d/latitude.py | 18 ++++--------------
 src/pymap3d/mathfun.py  |  3 +++
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..f6add23 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,8 +4,6 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
-
 from math import pi
 
 from . import rcurve
@@ -21,6 +19,7 @@ from .mathfun import (
     radians,
     sign,
     sin,
+    sinh,
     sqrt,
     tan,
 )
@@ -359,18 +358,9 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
         geodetic_lat = radians(geodetic_lat)
 
     e = ell.eccentricity
-    f1 = 1 - e * sin(geodetic_lat)
-    f2 = 1 + e * sin(geodetic_lat)
-    f3 = 1 - sin(geodetic_lat)
-    f4 = 1 + sin(geodetic_lat)
-
-    #  compute conformal latitudes with correction for points at +90
-    try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
-            conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
-        conformal_lat = pi / 2
+    # closed form without a division by zero at the poles
+    isometric_lat = asinh(tan(geodetic_lat)) - e * atanh(e * sin(geodetic_lat))
+    conformal_lat = atan(sinh(isometric_lat))
 
     return degrees(conformal_lat) if deg else conformal_lat
 
diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index f8df0ed..fdce261 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -29,6 +29,7 @@ try:
         radians,
         sign,
         sin,
+        sinh,
         sqrt,
         tan,
     )
@@ -52,6 +53,7 @@ except ImportError:
         log,
         radians,
         sin,
+        sinh,
         sqrt,
         tan,
     )
@@ -106,6 +108,7 @@ __all__ = [
     "radians",
     "sign",
     "sin",
+    "sinh",
     "sqrt",
     "tan",
 ]
-- 
2.43.0


From ad215eadd3db4b3af433621428c3e920447f7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 06/45] fix: spherical conversions keep full precision near the
 poles

---
 src/pymap3d/spherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index fde9166..3f5b2d6 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import asin, atan2, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -69,7 +69,7 @@ def geodetic2spherical(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     # radius of curvature of the prime vertical section
     N = ell.semimajor_axis**2 / hypot(
@@ -82,7 +82,7 @@ def geodetic2spherical(
     xy_projection = (alt + N) * coslat
     z_cartesian = (alt + (1 - ell.eccentricity**2) * N) * sinlat
     radius = hypot(xy_projection, z_cartesian)
-    slat = asin(z_cartesian / radius)
+    slat = atan2(z_cartesian, xy_projection)
 
     if deg:
         slat = degrees(slat)
@@ -138,7 +138,7 @@ def spherical2geodetic(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     Z = radius * sinlat
     p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
-- 
2.43.0


From 3a578376a81a0d9ee1d67e0f040d7175727e77c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 07/45] fix: ecef2geodetic broadcasts its inputs and keeps
 their shape in every output

---
 src/pymap3d/ecef.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..bfeb9f2 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import warnings
 
 try:
-    from numpy import empty_like, finfo, where
+    from numpy import broadcast_arrays, empty_like, finfo, where
 except ImportError:
     pass
 
@@ -127,6 +127,12 @@ def ecef2geodetic(
 
     ell = resolve_ellipsoid(ell)
 
+    try:
+        # floating point, so that squaring cannot overflow an integer type
+        x, y, z = (v * 1.0 for v in broadcast_arrays(x, y, z))
+    except NameError:
+        pass
+
     r = sqrt(x**2 + y**2 + z**2)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
@@ -203,9 +209,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
-
-        return lat, alt
+        return lat[()], alt
 
     def _beta_scalar(x: float, y: float, z: float) -> tuple:
         """using scalar math"""
-- 
2.43.0


From d47a9a5c2c22a5057bbd1676c7d0a5c98d8badfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 08/45] fix: nvector2geodetic is finite and accurate at and
 near the poles

---
 src/pymap3d/nvector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 800fb05..56a1c87 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from .mathfun import acos, asin, atan2, cos, degrees, hypot, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -66,7 +66,7 @@ def nvector2geodetic(n1: FloatLike, n2: FloatLike, n3: FloatLike, deg: bool = Tr
     """
 
     # Compute latitude and longitude from n-vector
-    lat = asin(n3)
+    lat = atan2(n3, hypot(n1, n2))
     lon = atan2(n2, n1)
 
     if deg:
-- 
2.43.0


From 8eecfce51e12213f3d2a1ab7f234fe39838d26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 09/45] fix: nvector_cross_track_distance is finite and
 accurate for points near the path's pole

---
 src/pymap3d/nvector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 56a1c87..78b20f0 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, asin, atan2, cos, degrees, hypot, radians, sin, sqrt
+from .mathfun import acos, atan2, cos, degrees, hypot, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -285,7 +285,10 @@ def nvector_cross_track_distance(
     cx, cy, cz = _norm3(cx, cy, cz)
 
     # Signed angular distance from the great circle
-    return radius * asin(_dot3(cx, cy, cz, np_1, np_2, np_3))
+    sx, sy, sz = _cross3(cx, cy, cz, np_1, np_2, np_3)
+    return radius * atan2(
+        _dot3(cx, cy, cz, np_1, np_2, np_3), sqrt(sx * sx + sy * sy + sz * sz)
+    )
 
 
 def nvector_intersection(
-- 
2.43.0


From c63557309f4fc07dc64ec3c79e160cfeefe3bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 10/45] fix: nvector_interpolate is accurate for nearly
 antipodal points

---
 src/pymap3d/nvector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 78b20f0..fbd205e 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, atan2, cos, degrees, hypot, radians, sin, sqrt
+from .mathfun import atan2, cos, degrees, hypot, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -205,10 +205,9 @@ def nvector_interpolate(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3, fraction: float) ->
         Components of interpolated n-vector.
     """
     dot = _dot3(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3)
-    # clamp to [-1, 1] for safety
-    dot = max(-1.0, min(1.0, dot))
+    cx, cy, cz = _cross3(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3)
 
-    omega = acos(dot)
+    omega = atan2(sqrt(cx * cx + cy * cy + cz * cz), dot)
 
     # For very small angles, fall back to normalized linear interpolation
     if abs(omega) < 1e-10:
-- 
2.43.0


From 52e752785eed878a2f4af59284f254ef23739099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 11/45] fix: str2dt converts lists and numpy.datetime64 of
 every unit to datetime

---
 src/pymap3d/timeconv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 4f5e710..494f594 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -16,7 +16,7 @@ def str2dt(time: DatetimeLike):
     Parameters
     ----------
 
-    time : str or datetime.datetime or numpy.datetime64
+    time : str or datetime.datetime or numpy.datetime64, or list of these
 
     Results
     -------
@@ -28,5 +28,10 @@ def str2dt(time: DatetimeLike):
         return time
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
+    elif isinstance(time, (tuple, list)):
+        return [str2dt(t) for t in time]
+    elif time.dtype.kind == "M":
+        # microsecond is the unit that converts to datetime, whatever unit was given
+        return time.astype("datetime64[us]").astype(datetime)
     else:
         return time.astype(datetime)
-- 
2.43.0


From df080ec80528ff70a9ee27eea063d2d87c919648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 12/45] fix: azel2radec and radec2azel accept arrays of
 observer latitude

---
 src/pymap3d/vallado.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..27d4cce 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -57,7 +57,11 @@ def azel2radec(
     p.258-259
     """
 
-    if abs(lat_deg) > 90:
+    try:
+        invalid = (abs(lat_deg) > 90).any()
+    except AttributeError:
+        invalid = abs(lat_deg) > 90
+    if invalid:
         raise ValueError("-90 <= lat <= 90")
 
     az = radians(az_deg)
@@ -116,7 +120,11 @@ def radec2azel(
     from D. Vallado "Fundamentals of Astrodynamics and Applications "
        4th Edition Ch. 4.4 pg. 266-268
     """
-    if abs(lat_deg) > 90:
+    try:
+        invalid = (abs(lat_deg) > 90).any()
+    except AttributeError:
+        invalid = abs(lat_deg) > 90
+    if invalid:
         raise ValueError("-90 <= lat <= 90")
 
     ra = radians(ra_deg)
-- 
2.43.0


From 24cb8bae74f0e87558dcf6cbdf58c273b9b9a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 13/45] fix: non-astropy azel2radec and radec2azel honour
 delta_ut1 when astropy is installed

---
 src/pymap3d/vallado.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 27d4cce..c0f7dc9 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -76,7 +76,9 @@ def azel2radec(
         (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
     )
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(
+        time, lon, force_non_astropy=True, delta_ut1=delta_ut1
+    )  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -132,7 +134,7 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-- 
2.43.0


From f239a4eeabc8194a78ab56e67cd90bd9832aa1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 14/45] fix: azel2radec and radec2azel are accurate at the
 poles and the zenith

---
 src/pymap3d/vallado.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index c0f7dc9..83d8209 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import atan2, cos, degrees, hypot, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -69,12 +69,12 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    # as atan2 of direction components, which has no singularity at poles and zenith
+    west = -sin(az) * cos(el)
+    equator = sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az)
+    dec = atan2(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az), hypot(west, equator))
 
-    lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
-    )
+    lha = atan2(west, equator)
 
     lst = datetime2sidereal(
         time, lon, force_non_astropy=True, delta_ut1=delta_ut1
@@ -138,11 +138,11 @@ def radec2azel(
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
+    # as atan2 of direction components, which has no singularity at poles and zenith
+    east = -sin(lha) * cos(dec)
+    north = sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha)
+    el = atan2(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha), hypot(east, north))
     # %% combine Eq. 4-13 and 4-14 p. 268
-    az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
-    )
+    az = atan2(east, north)
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 4294cda059f6011defdcc63a101595dcfaa5e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 15/45] fix: geodesic_inverse and geodesic_direct are accurate
 at the poles

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..fa141d7 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -23,7 +23,7 @@ from .mathfun import copysign, fmod, hypot, isnan, sqrt
 __all__ = ["geodesic_direct", "geodesic_inverse", "geodesic_line", "geodesic_area"]
 
 # --- Constants ---
-_tiny = sqrt(2.220446049250313e-16)
+_tiny = sqrt(2.2250738585072014e-308)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
-- 
2.43.0


From 53e5ea0a08361e1b25eefb5be42b6489b4f115b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 16/45] fix: geodesic_area returns the ellipsoidal area of the
 polygon

---
 src/pymap3d/karney.py | 65 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index fa141d7..6eb3e5c 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -824,6 +824,34 @@ class _Geodesic:
         azi2 = _atan2d(salp2, calp2)
         return lat2, lon2, azi2
 
+    def _AreaCorrection(self, lat1, azi1, lat2, azi2):
+        """
+        Ellipsoidal part of the area between a geodesic and the equator,
+        C. F. F. Karney, Algorithms for geodesics, Eqs. (58)-(63)
+        """
+        salp1, calp1 = _sincosd(azi1)
+        salp2, calp2 = _sincosd(azi2)
+        sbet1, cbet1 = _sincosd(lat1)
+        sbet1, cbet1 = _norm2(self._f1 * sbet1, cbet1)
+        sbet2, cbet2 = _sincosd(lat2)
+        sbet2, cbet2 = _norm2(self._f1 * sbet2, cbet2)
+
+        salp0 = salp1 * cbet1
+        calp0 = hypot(calp1, salp1 * sbet1)
+        if calp0 == 0 or salp0 == 0:
+            return 0.0
+
+        k2 = calp0**2 * self._ep2
+        eps = k2 / (2.0 * (1.0 + sqrt(1.0 + k2)) + k2)
+        C4a = [0.0] * _nC4
+        self._C4f(eps, C4a)
+        C4a.insert(0, 0.0)  # _SinCosSeries() sums from c[1]
+        ssig1, csig1 = _norm2(sbet1, calp1 * cbet1)
+        ssig2, csig2 = _norm2(sbet2, calp2 * cbet2)
+        B41 = _SinCosSeries(False, ssig1, csig1, C4a, _nC4)
+        B42 = _SinCosSeries(False, ssig2, csig2, C4a, _nC4)
+        return self.a**2 * calp0 * salp0 * self._e2 * (B42 - B41)
+
 
 # --- Cache ---
 
@@ -968,7 +996,8 @@ def geodesic_area(
     Compute the area and perimeter of a geodesic polygon.
     Polygon must have at least 3 vertices.
 
-    Counterclockwise vertex ordering gives positive area.
+    Clockwise vertex ordering, seen from above on a map with north up,
+    gives positive area.
 
     Parameters
     ----------
@@ -984,7 +1013,7 @@ def geodesic_area(
     Returns
     -------
     area : float
-        Area in square meters (signed: CCW = positive).
+        Area in square meters (signed: clockwise = positive).
     perimeter : float
         Perimeter in meters.
     """
@@ -995,27 +1024,31 @@ def geodesic_area(
 
     g = _get_geodesic(ell)
     perimeter = 0.0
-    area_sum = 0.0
-    azi2_prev = None
-    azi1_first = None
+    area = 0.0
+    winding = 0.0
 
     for i in range(n):
         j = (i + 1) % n
-        dist_ij, azi1_ij, azi2_ij = geodesic_inverse(
-            lats[i], lons[i], lats[j], lons[j], ell=ell, deg=deg)
+        lat1, lon1, lat2, lon2 = lats[i], lons[i], lats[j], lons[j]
+        if not deg:
+            lat1, lon1 = math.degrees(lat1), math.degrees(lon1)
+            lat2, lon2 = math.degrees(lat2), math.degrees(lon2)
+
+        dist_ij, azi1_ij, azi2_ij = g._Inverse(lat1, lon1, lat2, lon2)
         perimeter += dist_ij
-        if i == 0:
-            azi1_first = azi1_ij
-        else:
-            diff, _ = _AngDiff(azi2_prev, azi1_ij)
-            area_sum += diff
-        azi2_prev = azi2_ij
 
-    diff, _ = _AngDiff(azi2_prev, azi1_first)
-    area_sum += diff
+        lon12, _ = _AngDiff(lon1, lon2)
+        alp12, _ = _AngDiff(azi1_ij, azi2_ij)
+        if abs(alp12) == 180:
+            # over a pole: turn the way the longitude goes
+            alp12 = copysign(alp12, lon12 if abs(azi1_ij) < 90 else -lon12)
+        area += g._c2 * math.radians(alp12) + g._AreaCorrection(lat1, azi1_ij, lat2, azi2_ij)
+        winding += lon12
 
-    area = g._c2 * math.radians(area_sum)
     area0 = 4.0 * math.pi * g._c2
+    if round(winding / 360) % 2:
+        # a pole is enclosed
+        area += area0 / 2 if area < 0 else -area0 / 2
     if abs(area) > area0 / 2:
         area -= copysign(area0, area)
     return area, perimeter
-- 
2.43.0


From da3724f58ff5e65e73a96cb612ce2cf2e626fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 17/45] fix: geodesic_inverse converges for nearly antipodal
 and nearly equatorial points

---
 src/pymap3d/karney.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index 6eb3e5c..bfd3817 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -29,7 +29,7 @@ _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
 _xthresh = 1000 * _tol2
 _maxit1 = 20
-_maxit2 = _maxit1 + 10 + 1
+_maxit2 = _maxit1 + 53 + 10
 
 _nC1 = 6
 _nC1p = 6
@@ -467,7 +467,7 @@ class _Geodesic:
                 eps = k2 / (2.0 * (1.0 + sqrt(1.0 + k2)) + k2)
                 lamscale = self.f * cbet1 * self._A3f(eps) * math.pi
                 betscale = lamscale * cbet1
-                x = (lam12 - math.pi) / lamscale
+                x = math.atan2(-slam12, -clam12) / lamscale
                 y = sbet12a / betscale
             else:
                 cbet12a = cbet2 * cbet1 - sbet2 * sbet1
@@ -482,7 +482,7 @@ class _Geodesic:
                 lamscale = betscale / cbet1
                 y = (lam12 - math.pi) / lamscale
 
-            if y < -_tol1 and x > -1.0 - _xthresh:
+            if y > -_tol1 and x > -1.0 - _xthresh:
                 if self.f >= 0:
                     salp1 = min(1.0, -x)
                     calp1 = -sqrt(1.0 - salp1 ** 2)
@@ -522,7 +522,7 @@ class _Geodesic:
         salp2 = salp0 / cbet2 if cbet2 != cbet1 else salp1
         calp2 = (
             sqrt((calp1 * cbet1) ** 2 +
-                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet2 != cbet1
+                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet1 < -sbet1
                   else (sbet1 - sbet2) * (sbet1 + sbet2))) / cbet2
             if cbet2 != cbet1 or abs(sbet2) != -sbet1
             else abs(calp1))
@@ -602,6 +602,8 @@ class _Geodesic:
         if cbet1 < -sbet1:
             if cbet2 == cbet1:
                 sbet2 = sbet1 if sbet2 < 0 else -sbet1
+        elif abs(sbet2) == -sbet1:
+            cbet2 = cbet1
 
         dn1 = sqrt(1.0 + self._ep2 * sbet1 ** 2)
         dn2 = sqrt(1.0 + self._ep2 * sbet2 ** 2)
@@ -637,7 +639,7 @@ class _Geodesic:
 
             if sig12 < 1 or m12x >= 0:
                 if sig12 < 3 * _tiny:
-                    sig12 = m12x = 0.0
+                    sig12 = m12x = s12x = 0.0
                 m12x *= self._b
                 s12x *= self._b
                 a12 = math.degrees(sig12)
@@ -685,19 +687,19 @@ class _Geodesic:
                     if tripb or not (abs(v) >= (8 if numit < _maxit1 else 1) * _tol0):
                         break
 
-                    if v > 0 and (numit < _maxit1 or calp1 / salp1 > calp1b / salp1b):
+                    if v > 0 and (numit > _maxit1 or calp1 / salp1 > calp1b / salp1b):
                         salp1b = salp1
                         calp1b = calp1
-                    elif v < 0 and (numit < _maxit1 or calp1 / salp1 < calp1a / salp1a):
+                    elif v < 0 and (numit > _maxit1 or calp1 / salp1 < calp1a / salp1a):
                         salp1a = salp1
                         calp1a = calp1
 
-                    if numit < _maxit1 and dlam12 != 0:
+                    if numit < _maxit1 and dlam12 > 0:
                         dalp1 = -v / dlam12
                         sdalp1 = math.sin(dalp1)
                         cdalp1 = math.cos(dalp1)
                         nsalp1 = salp1 * cdalp1 + calp1 * sdalp1
-                        if nsalp1 > 0:
+                        if nsalp1 > 0 and abs(dalp1) < math.pi:
                             calp1 = calp1 * cdalp1 - salp1 * sdalp1
                             salp1 = nsalp1
                             salp1, calp1 = _norm2(salp1, calp1)
-- 
2.43.0


From b8b131d78404d0ba91722da63e48038fc5ca05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 18/45] fix: vdist array elements are unaffected by coincident
 or nearly antipodal elements

---
 src/pymap3d/vincenty.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..5d5e249 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -14,7 +14,7 @@ from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos,
 from math import pi, tau, nan
 
 try:
-    from numpy import asarray
+    from numpy import asarray, broadcast_arrays
 except ImportError:
     pass
 
@@ -127,6 +127,9 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if abs(pi / 2 - abs(lat2)) < 1e-10:
             lat2 = sign(lat2) * (pi / 2 - 1e-10)
 
+    points = (lat1, lon1, lat2, lon2)
+    isarray = any(getattr(p, "ndim", 0) > 0 for p in points)
+
     U1 = atan((1 - f) * tan(lat1))
     U2 = atan((1 - f) * tan(lat2))
     lon1 = lon1 % (2 * pi)
@@ -146,6 +149,9 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     while notdone:  # force at least one execution
         itercount += 1
         if itercount > 50:
+            if isarray:
+                return _vdist_each(*points, ell, deg)
+
             if not warninggiven:
                 logging.warning("Essentially antipodal points--precision may be reduced slightly.")
 
@@ -175,6 +181,9 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             alpha[(sinAlpha > 1) | (abs(sinAlpha - 1) < 1e-16)] = pi / 2
 
         except (ArithmeticError, RuntimeWarning, TypeError, ValueError):
+            if isarray:
+                return _vdist_each(*points, ell, deg)
+
             try:
                 with warnings.catch_warnings(record=True):
                     warnings.simplefilter("error")
@@ -204,6 +213,9 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             i = lamb > pi
 
         if i:
+            if isarray:
+                return _vdist_each(*points, ell, deg)
+
             logging.warning(
                 "Essentially antipodal points encountered. Precision may be reduced slightly."
             )
@@ -257,6 +269,21 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     return dist_m, a12
 
 
+def _vdist_each(lat1, lon1, lat2, lon2, ell: Ellipsoid, deg: bool) -> tuple:
+    """
+    vdist() one element at a time (angles in radians, azimuth per deg),
+    so that coincident or nearly antipodal elements do not affect the others
+    """
+    lat1, lon1, lat2, lon2 = broadcast_arrays(lat1, lon1, lat2, lon2)
+    each = [
+        vdist(*p, ell, deg=False) for p in zip(lat1.flat, lon1.flat, lat2.flat, lon2.flat)
+    ]
+    dist_m = asarray([e[0] for e in each]).reshape(lat1.shape)
+    a12 = asarray([e[1] for e in each]).reshape(lat1.shape)
+
+    return dist_m, degrees(a12) if deg else a12
+
+
 def vreckon(
     lat1,
     lon1,
-- 
2.43.0


From d1b03baf01e7cca9583016a6347241fce992b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 19/45] fix: vdist and vreckon leave their input arrays
 unchanged

---
 src/pymap3d/vincenty.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 5d5e249..36aca71 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -115,6 +115,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
+        lat1 = copy(lat1)
         lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
     except TypeError:
         if abs(pi / 2 - abs(lat1)) < 1e-10:
@@ -122,6 +123,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
 
     try:
         i = abs(pi / 2 - abs(lat2)) < 1e-10
+        lat2 = copy(lat2)
         lat2[i] = sign(lat2[i]) * (pi / 2 - 1e-10)
     except TypeError:
         if abs(pi / 2 - abs(lat2)) < 1e-10:
@@ -379,6 +381,7 @@ def vreckon(
     # correct for errors at exact poles by adjusting 0.6 millimeters:
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
+        lat1 = copy(lat1)
         lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
     except TypeError:
         if abs(pi / 2 - abs(lat1)) < 1e-10:
-- 
2.43.0


From c419c5b505df7b8da381dd35fb8b33fbbc731b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 20/45] fix: vreckon is finite for a full turn around the
 auxiliary sphere

---
 src/pymap3d/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 36aca71..fd31456 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -11,7 +11,7 @@ from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
-from math import pi, tau, nan
+from math import inf, pi, tau, nan
 
 try:
     from numpy import asarray, broadcast_arrays
@@ -402,7 +402,7 @@ def vreckon(
     B = uSq / 1024 * (256 + uSq * (-128 + uSq * (74 - 47 * uSq)))
 
     sigma = rng / (b * A)
-    sigmaP = 2 * pi
+    sigmaP = inf
 
     sinSigma = nan
     cosSigma = nan
-- 
2.43.0


From 9cd361f5d79842d6926968806a432ab40ebf5ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 21/45] fix: track2 rejects every antipodal pair

---
 src/pymap3d/vincenty.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index fd31456..7c288ae 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -525,11 +525,12 @@ def track2(
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    gcarclen = 2.0 * asin(
-        sqrt((sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2)
+    # great circle arc from the antipode of the first point to the second point
+    gcantipode = 2.0 * asin(
+        sqrt((sin((lat1 + lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (cos((lon1 - lon2) / 2)) ** 2)
     )
     # check to see if points are antipodal (if so, route is undefined).
-    if abs(gcarclen - pi) < 1e-12:
+    if gcantipode < 1e-12:
         raise ValueError(
             "cannot compute intermediate points on a great circle whose endpoints are antipodal"
         )
-- 
2.43.0


From a5187a427b5dcfcf7d702176114743c7be71bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 22/45] fix: track2 works without numpy

---
 src/pymap3d/vincenty.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 7c288ae..16174df 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -538,10 +538,15 @@ def track2(
     distance, azimuth = vdist(lat1, lon1, lat2, lon2, ell, deg=False)
     dists = linspace(0, distance, npts)
 
-    lats, lons = vreckon(lat1, lon1, asarray(dists), azimuth, ell, deg=False)
-
-    if deg:
-        lats = degrees(lats)
-        lons = degrees(lons)
+    try:
+        lats, lons = vreckon(lat1, lon1, asarray(dists), azimuth, ell, deg=False)
+
+        if deg:
+            lats = degrees(lats)
+            lons = degrees(lons)
+    except NameError:
+        points = [vreckon(lat1, lon1, d, azimuth, ell, deg=False) for d in dists]
+        lats = [degrees(p[0]) if deg else p[0] for p in points]
+        lons = [degrees(p[1]) if deg else p[1] for p in points]
 
     return lats, lons
-- 
2.43.0


From 657b00894cbc7946c37cd6b4f3b2d933e05a9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 23/45] fix: loxodrome_inverse takes the shorter way across the
 antimeridian

---
 src/pymap3d/lox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..843d19f 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -155,6 +155,8 @@ def loxodrome_inverse(
     # compute changes in isometric latitude and longitude between points
     disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
     dlon = lon2 - lon1
+    # the shorter way around: (-pi, pi]
+    dlon = dlon + tau * ((pi - dlon) // tau)
 
     # compute azimuth
     az12 = atan2(dlon, disolat)
-- 
2.43.0


From c92bc2d91b9296b28bd637e3d5f1fe71487516be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 24/45] fix: loxodrome_inverse azimuth has the same range in
 radians as in degrees

---
 src/pymap3d/lox.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 843d19f..ed36b68 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -173,8 +173,7 @@ def loxodrome_inverse(
         if i:
             dist = departure(lon2, lon1, lat1, ell, deg=False)
 
-    if deg:
-        az12 = degrees(az12) % 360.0
+    az12 = degrees(az12) % 360.0 if deg else az12 % tau
 
     try:
         return dist.squeeze()[()], az12.squeeze()[()]
-- 
2.43.0


From ce52e5eded2f176f90f1a433e9c6cd3e639fd6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 25/45] fix: haversine and anglesep_meeus are accurate for
 small angles and finite for antipodal points

---
 src/pymap3d/haversine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 48a5ca6..76476da 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, radians, sqrt
+from .mathfun import asin, cos, degrees, minimum, radians, sin, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -65,9 +65,9 @@ def anglesep_meeus(
         lon1 = radians(lon1)
         lat1 = radians(lat1)
 
-    sep_rad = 2 * asin(
-        sqrt(haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1))
-    )
+    h = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1)
+    # rounding may exceed 1 for antipodal points
+    sep_rad = 2 * asin(sqrt(minimum(h, 1.0)))
 
     return degrees(sep_rad) if deg else sep_rad
 
@@ -140,4 +140,4 @@ def haversine(theta: FloatLike):
     https://en.wikipedia.org/wiki/Haversine
     Meeus p. 111
     """
-    return (1 - cos(theta)) / 2.0
+    return sin(theta / 2.0) ** 2
-- 
2.43.0


From fee32ea4f96023a9d5e43d2cf798915bae75289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 26/45] fix: mathfun exports cbrt without numpy

---
 src/pymap3d/mathfun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index fdce261..fe7e7c0 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -69,6 +69,9 @@ except ImportError:
         step = (stop - start) / (num - 1)
         return [start + i * step for i in range(num)]
 
+    def cbrt(x) -> float:
+        return copysign(abs(x) ** (1 / 3), x)
+
     def power(x, y):  # type: ignore
         return pow(x, y)
 
-- 
2.43.0


From 762bccd8227f44dcf139cd8d15643d5767c7ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 27/45] fix: command line options left out take the library's
 default value

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..21e6c44 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=default,
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From a5d7ee633c2ecb99d104276a75f54a3ad10d0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 28/45] fix: command line writes array results as JSON

---
 src/pymap3d/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 21e6c44..36446fb 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -183,6 +183,9 @@ def _to_jsonable(value: Any) -> Any:
         case datetime():
             return value.isoformat()
 
+    if hasattr(value, "tolist"):
+        return value.tolist()
+
     return value
 
 
-- 
2.43.0


From 4eb75a616d80963f60589d44697446297b2fe6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 29/45] fix: command line prints matrix rows as plain numbers
 with the requested precision

---
 src/pymap3d/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 36446fb..cde62c2 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -170,6 +170,9 @@ def _format_scalar(value: Any, precision: int | None) -> str:
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
+    if isinstance(value, tuple):
+        return "(" + ", ".join(_format_scalar(x, precision) for x in value) + ")"
+
     return str(value)
 
 
-- 
2.43.0


From 5a0032ed6b9597207ee7ea21e95d2e43653c78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 30/45] fix: geocentric2geodetic uses the radius of curvature
 at the geodetic latitude

---
 src/pymap3d/latitude.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index f6add23..b452a39 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -174,8 +174,11 @@ def geocentric2geodetic(geocentric_lat: FloatLike, alt_m, ell: Ellipsoid | None
     if deg:
         geocentric_lat = radians(geocentric_lat)
 
-    r = rcurve.transverse(geocentric_lat, ell, deg=False)
-    geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))
+    geodetic_lat = geocentric_lat
+    for _ in range(6):
+        # the transverse radius depends on the sought geodetic latitude
+        r = rcurve.transverse(geodetic_lat, ell, deg=False)
+        geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))
 
     return degrees(geodetic_lat) if deg else geodetic_lat
 
-- 
2.43.0


From 266d1b6e7f83a5d24a6b8040578b0ea06bc28298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 31/45] fix: geoc2geod uses the sign of Long's second-order
 term

---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index b452a39..f876c30 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -89,7 +89,7 @@ def geoc2geod(
     geodetic_lat = (
         geocentric_lat
         + (sin(2 * geocentric_lat) / r) * ell.flattening
-        + ((1 / r**2 + 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
+        + ((1 / r**2 - 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
     )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From 72fcdf3cd205ee23ee9e8ddef02fd92e3d9d11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 32/45] fix: lookAtSpheroid from the surface looking down
 returns its own position

---
 src/pymap3d/los.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index 7eeeb54..8d77737 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -105,10 +105,15 @@ def lookAtSpheroid(
 
     d = (value - a * b * c * sqrt(radical)) / magnitude
 
+    # an observer on the surface looking down sees its own position, d = 0 to rounding
+    tiny = 1e-12 * a
     try:
+        d[(d < 0) & (d > -tiny)] = 0.0
         d[d < 0] = nan
     except TypeError:
-        if d < 0:
+        if -tiny < d < 0:
+            d = 0.0
+        elif d < 0:
             d = nan
 
     # %% cartesian to ellipsodal
-- 
2.43.0


From 0908a5b27b9af9a70289b4dd938171b6bf94f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 33/45] fix: authalic radius is accurate for nearly spherical
 ellipsoids

---
 src/pymap3d/rsphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/rsphere.py b/src/pymap3d/rsphere.py
index 925e668..159fbda 100644
--- a/src/pymap3d/rsphere.py
+++ b/src/pymap3d/rsphere.py
@@ -6,7 +6,7 @@ from . import rcurve
 
 from ._typing import FloatLike
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import cos, degrees, log, radians, sin, sqrt
+from .mathfun import atanh, cos, degrees, radians, sin, sqrt
 from .vincenty import vdist
 
 __all__ = [
@@ -62,7 +62,7 @@ def authalic(ell: Ellipsoid | None = None) -> float:
     if e > 0:
         f1 = ell.semimajor_axis**2 / 2
         f2 = (1 - e**2) / (2 * e)
-        f3 = log((1 + e) / (1 - e))
+        f3 = 2 * atanh(e)
         return sqrt(f1 * (1 + f2 * f3))
     else:
         return ell.semimajor_axis
-- 
2.43.0


From 5f4ab452d55818fab96dad87e605263b9538de55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 34/45] fix: geodesic_area returned NaN for an edge along the
 equator with a denormal-sized latitude

---
 src/pymap3d/karney.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index bfd3817..82f2a12 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -840,7 +840,8 @@ class _Geodesic:
 
         salp0 = salp1 * cbet1
         calp0 = hypot(calp1, salp1 * sbet1)
-        if calp0 == 0 or salp0 == 0:
+        along_equator = sbet1 == calp1 == 0 or sbet2 == calp2 == 0
+        if along_equator or calp0 == 0 or salp0 == 0:
             return 0.0
 
         k2 = calp0**2 * self._ep2
-- 
2.43.0


From 75a23eca03b798a7c435a18dc020acc7d62c4a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 35/45] fix: polar motion is applied with the IERS sign

With the xp, yp published by the IERS, the pure-Python path moved away from
the ITRS (0.68 arcsec mean difference from astropy) instead of towards it
(0.05 arcsec).
---
 src/pymap3d/earth_orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..2d48d3d 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -282,7 +282,7 @@ def polar_motion_matrix(xp_arcsec: float = 0.0, yp_arcsec: float = 0.0):
 
     xp = xp_arcsec * ARCSEC2RAD
     yp = yp_arcsec * ARCSEC2RAD
-    return matmul3(rotation_y(xp), rotation_x(yp))
+    return matmul3(rotation_x(-yp), rotation_y(-xp))
 
 
 def eci_to_ecef_matrix(
-- 
2.43.0


From 1874a00862e7f0c8a1de4c07fdac190c1a57ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 36/45] fix: non-astropy ECI transforms broadcast scalars with
 arrays

geodetic2eci(45, lon_array, 0, t) and aer2eci() with an array of observer
longitudes raised AssertionError without astropy.
---
 src/pymap3d/eci.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index a4e089f..9cf2afa 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -397,12 +397,7 @@ def _apply_rotation(rotation, x, y, z):
     if "numpy" not in sys.modules:
         return matvec3(rotation, (x, y, z))
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    assert x.shape == y.shape == z.shape, (
-        f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}"
-    )
+    x, y, z = numpy.broadcast_arrays(*map(numpy.atleast_1d, (x, y, z)))
 
     vin = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
     vout = numpy.empty((x.size, 3))
@@ -435,14 +430,8 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    vx = numpy.atleast_1d(vx)
-    vy = numpy.atleast_1d(vy)
-    vz = numpy.atleast_1d(vz)
-    assert x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape, (
-        "shape mismatch between position and velocity inputs"
+    x, y, z, vx, vy, vz = numpy.broadcast_arrays(
+        *map(numpy.atleast_1d, (x, y, z, vx, vy, vz))
     )
 
     pos_in = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
-- 
2.43.0


From b9fb08b94bf84e20b1e6e535c94a1328b2660d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 37/45] fix: vdist accepts scalars together with arrays

---
 src/pymap3d/vincenty.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 16174df..7e7c007 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -106,6 +106,10 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
+    isarray = any(getattr(p, "ndim", 0) > 0 for p in (lat1, lon1, lat2, lon2))
+    if isarray:
+        lat1, lon1, lat2, lon2 = broadcast_arrays(lat1, lon1, lat2, lon2)
+
     try:
         if (abs(lat1) > pi / 2).any() | (abs(lat2) > pi / 2).any():
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
@@ -130,7 +134,6 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             lat2 = sign(lat2) * (pi / 2 - 1e-10)
 
     points = (lat1, lon1, lat2, lon2)
-    isarray = any(getattr(p, "ndim", 0) > 0 for p in points)
 
     U1 = atan((1 - f) * tan(lat1))
     U2 = atan((1 - f) * tan(lat2))
-- 
2.43.0


From c8be6ac44ed6fb1a37a232b17e01a76f6f88fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 38/45] fix: geodesic_inverse and geodesic_area give NaN for
 NaN coordinates

---
 src/pymap3d/karney.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index 82f2a12..0ec7914 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -566,6 +566,8 @@ class _Geodesic:
                 eps, somg12, comg12, dlam12)
 
     def _Inverse(self, lat1, lon1, lat2, lon2):
+        if isnan(lat1 + lon1 + lat2 + lon2):
+            return math.nan, math.nan, math.nan
         lon12, lon12s = _AngDiff(lon1, lon2)
         lonsign = 1.0 if lon12 >= 0 else -1.0
         lon12 = lonsign * _AngRound(lon12)
@@ -1048,6 +1050,9 @@ def geodesic_area(
         area += g._c2 * math.radians(alp12) + g._AreaCorrection(lat1, azi1_ij, lat2, azi2_ij)
         winding += lon12
 
+    if isnan(area):
+        return area, perimeter
+
     area0 = 4.0 * math.pi * g._c2
     if round(winding / 360) % 2:
         # a pole is enclosed
-- 
2.43.0


From 27bb060d2cb48f55bdeeb4fbeb6d38703da38282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 39/45] fix: vreckon keeps the shape when every distance is NaN

---
 src/pymap3d/vincenty.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 7e7c007..50e8b77 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -407,9 +407,9 @@ def vreckon(
     sigma = rng / (b * A)
     sigmaP = inf
 
-    sinSigma = nan
-    cosSigma = nan
-    cos2SigmaM = nan
+    sinSigma = nan * sigma
+    cosSigma = nan * sigma
+    cos2SigmaM = nan * sigma
 
     try:
         i = (abs(sigma - sigmaP) > 1e-12).any()
-- 
2.43.0


From f925d3d964966bdb847fec3e4efa4197c2e741f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 40/45] fix: command line prints arrays in full and honours
 --precision for them

---
 src/pymap3d/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index cde62c2..f660ffb 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -170,6 +170,8 @@ def _format_scalar(value: Any, precision: int | None) -> str:
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
+    if getattr(value, "ndim", 0):
+        return "[" + " ".join(_format_scalar(x, precision) for x in value) + "]"
     if isinstance(value, tuple):
         return "(" + ", ".join(_format_scalar(x, precision) for x in value) + ")"
 
-- 
2.43.0


From ad9a382668add2589997951d180ec599e59a300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 41/45] fix: spherical2geodetic of 32-bit integer radii (the
 square overflowed)

---
 src/pymap3d/spherical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index 3f5b2d6..6c7f609 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -141,7 +141,7 @@ def spherical2geodetic(
     coslat = cos(lat)
 
     Z = radius * sinlat
-    p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
+    p_0 = (radius * coslat) ** 2 / ell.semimajor_axis**2
     q_0 = (1 - ell.eccentricity**2) / ell.semimajor_axis**2 * Z**2
     r_0 = (p_0 + q_0 - ell.eccentricity**4) / 6
     s_0 = ell.eccentricity**4 * p_0 * q_0 / 4 / r_0**3
-- 
2.43.0


From 415323c67c48e27b603a90e8afa427e83960d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 42/45] fix: command line honours --precision for lists
 returned as they were given

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index f660ffb..d23296b 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -170,7 +170,7 @@ def _format_scalar(value: Any, precision: int | None) -> str:
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
-    if getattr(value, "ndim", 0):
+    if isinstance(value, list) or getattr(value, "ndim", 0):
         return "[" + " ".join(_format_scalar(x, precision) for x in value) + "]"
     if isinstance(value, tuple):
         return "(" + ", ".join(_format_scalar(x, precision) for x in value) + ")"
-- 
2.43.0


From 4bb952e908f38f28216b9ac87dc39466d8207c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 43/45] fix: ECI state velocities at times in a zone whose
 clocks are being set back

---
 src/pymap3d/earth_orientation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index 2d48d3d..6df775a 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -328,6 +328,7 @@ def eci_to_ecef_matrix_rate(
     ``eci_to_ecef_matrix()``.
     """
 
+    time = ensure_utc(time)
     dt = timedelta(seconds=dt_seconds)
     c_plus = eci_to_ecef_matrix(time + dt, delta_ut1=delta_ut1, xp=xp, yp=yp)
     c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp, yp=yp)
-- 
2.43.0


From 87180a84ff0c5e1092dcb94b1a9864d862872422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 44/45] fix: geodesics leave the warning filters of the process
 alone, also from threads

---
 src/pymap3d/ecef.py     |  8 +++-----
 src/pymap3d/mathfun.py  |  6 ++++++
 src/pymap3d/vincenty.py | 27 +++++++++++++++++++--------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index bfeb9f2..c3b4649 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -4,7 +4,6 @@ as well as related ENU (east, north, up) and ECI (earth-centered inertial) frame
 
 from __future__ import annotations
 
-import warnings
 
 try:
     from numpy import broadcast_arrays, empty_like, finfo, where
@@ -17,7 +16,7 @@ from math import pi
 from ._typing import FloatArray, FloatLike, NDArray
 from .eci import ecef2eci, eci2ecef
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan, atan2, cos, degrees, hypot, isclose, radians, sin, sqrt, tan
+from .mathfun import atan, atan2, cos, degrees, errstate, hypot, isclose, radians, sin, sqrt, tan
 
 __all__ = [
     "geodetic2ecef",
@@ -214,15 +213,14 @@ def ecef2geodetic(
     def _beta_scalar(x: float, y: float, z: float) -> tuple:
         """using scalar math"""
         try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
+            with errstate(divide="raise", over="raise", invalid="raise"):
                 Beta = atan(huE / u * z / hxy)
                 # eqn. 13
                 Beta += (
                     (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
                     * sin(Beta)
                 ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
-        except (ArithmeticError, RuntimeWarning):
+        except ArithmeticError:
             if isclose(z, 0):
                 Beta = 0
             elif z > 0:
diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index fe7e7c0..e9284f1 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -16,6 +16,7 @@ try:
         copysign,
         cos,
         degrees,
+        errstate,
         exp,
         fmod,
         hypot,
@@ -34,6 +35,7 @@ try:
         tan,
     )
 except ImportError:
+    from contextlib import nullcontext
     from math import (  # type: ignore
         acos,
         asin,
@@ -58,6 +60,10 @@ except ImportError:
         tan,
     )
 
+    def errstate(**kwargs):  # type: ignore
+        """math raises on floating-point errors without being asked to"""
+        return nullcontext()
+
     def minimum(x, y):  # type: ignore
         return min(x, y)
 
diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 50e8b77..6ad2203 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -4,13 +4,26 @@ Vincenty's methods for computing ground distance and reckoning
 
 from __future__ import annotations
 
-import warnings
 
 import logging
 from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
+from .mathfun import (
+    asin,
+    atan,
+    atan2,
+    cos,
+    degrees,
+    errstate,
+    isnan,
+    linspace,
+    radians,
+    sign,
+    sin,
+    sqrt,
+    tan,
+)
 from math import inf, pi, tau, nan
 
 try:
@@ -177,23 +190,21 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         sigma = atan2(sinsigma, cossigma)
 
         try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
+            with errstate(divide="raise", over="raise", invalid="raise"):
                 sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
 
                 alpha = asin(sinAlpha)
             alpha[isnan(sinAlpha)] = 0
             alpha[(sinAlpha > 1) | (abs(sinAlpha - 1) < 1e-16)] = pi / 2
 
-        except (ArithmeticError, RuntimeWarning, TypeError, ValueError):
+        except (ArithmeticError, TypeError, ValueError):
             if isarray:
                 return _vdist_each(*points, ell, deg)
 
             try:
-                with warnings.catch_warnings(record=True):
-                    warnings.simplefilter("error")
+                with errstate(divide="raise", over="raise", invalid="raise"):
                     sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-            except (ArithmeticError, RuntimeWarning):
+            except ArithmeticError:
                 sinAlpha = 0.0
 
             if isnan(sinAlpha):
-- 
2.43.0


From 4432d87fff75d6eca0f7053bf18da98ea0ed3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:00 +0000
Subject: [PATCH 45/45] fix: vreckon returns for lines of very many turns and
 for very flat ellipsoids

The iteration waited for a change of less than 1e-12 rad, which rounding alone
can exceed in lines of hundreds of turns, and which never comes for
flattenings of 0.45 and more.
---
 src/pymap3d/vincenty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 6ad2203..323295c 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -427,7 +427,12 @@ def vreckon(
     except AttributeError:
         i = abs(sigma - sigmaP) > 1e-12
 
+    itercount = 0
     while i:
+        itercount += 1
+        if itercount > 50:
+            logging.warning("Ground distance did not converge. Precision may be reduced.")
+            break
         cos2SigmaM = cos(2 * sigma1 + sigma)
         sinSigma = sin(sigma)
         cosSigma = cos(sigma)
-- 
2.43.0

