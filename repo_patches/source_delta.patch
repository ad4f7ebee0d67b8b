From e38a38dd310ca7050d877904c5dff78e88a58460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 01/25] fix: use the requested target points in lazy grid and
 spline interpolation

The dask path evaluated every block at the array indices of the block
instead of at the target points it was given.
---
 geotiepoints/interpolator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..be918a9 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -271,11 +271,12 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_block = partial(self.interpolate_numpy, **interpolator_call_kwargs)
+        v_fine_points, h_fine_points = np.asarray(v_fine_points), np.asarray(h_fine_points)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_block,
+                                      (v_fine_points[slice_y], h_fine_points[slice_x]))
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From fadd33ac7bc3b08033e44f68be097a33ab4322c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 02/25] fix: give lazy interpolations of different
 interpolators different dask keys

The keys did not depend on the interpolator class or its options, so that
computing e.g. a linear and a cubic spline of the same data together
returned one of them twice.
---
 geotiepoints/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index be918a9..fc5c87d 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -239,6 +239,7 @@ class AbstractSingleInterpolator(ABC):
         So for example, to allow extrapolation, the kwargs can be `bounds_error=False, fill_value=None`.
         """
         self.interpolator = scipy_interpolator(points, values, **interpolator_init_kwargs)
+        self.interpolator_init_kwargs = interpolator_init_kwargs
         self.points = points
         self.values = values
 
@@ -268,7 +269,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(type(self), self.interpolator_init_kwargs,
+                         chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_block = partial(self.interpolate_numpy, **interpolator_call_kwargs)
@@ -332,6 +334,7 @@ class SingleSplineInterpolator(AbstractSingleInterpolator):
     def __init__(self, points, values, **interpolator_init_kwargs):
         """Set up the spline interpolator."""
         self.interpolator = RectBivariateSpline(*points, values, **interpolator_init_kwargs)
+        self.interpolator_init_kwargs = interpolator_init_kwargs
         self.points = points
         self.values = values
 
-- 
2.43.0


From be179d890b5c31d582597a06ad4617f1b933b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 03/25] fix: keep locations on the antimeridian and at the
 poles when converting from cartesian

arccos(x / r) * sign(y) gave longitude 0 for points exactly on the
antimeridian (y == 0, e.g. half way between 179E and 179W) and NaN for
points exactly above a pole.
---
 geotiepoints/_modis_utils.pyx   | 4 ++--
 geotiepoints/geointerpolator.py | 2 +-
 geotiepoints/viiinterpolator.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..1d1b02a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, sin, cos, sqrt, acos, atan2, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From eeae9c27b8e861d22509ef2917d712bd97b18ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 04/25] fix: no NaN latitude on the equator when latitude is
 derived from x and y

sqrt(x**2 + y**2) / radius can exceed 1 by rounding.
---
 geotiepoints/geointerpolator.py | 2 +-
 geotiepoints/viiinterpolator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index b2eb3e2..f174b1d 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -62,7 +62,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
     lons = np.rad2deg(np.arctan2(y__, x__))
-    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
+    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.minimum(np.sqrt(x__ ** 2 + y__ ** 2) / radius, 1))))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
         # latitudes only from z. If we are at high latitudes (close to the poles)
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 421a29f..a62103f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -173,6 +173,6 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
         90. - np.rad2deg(np.arccos(z_coords / MEAN_EARTH_RADIUS)),
-        np.sign(z_coords) * (90. - np.rad2deg(np.arcsin(r / MEAN_EARTH_RADIUS)))
+        np.sign(z_coords) * (90. - np.rad2deg(np.arcsin(np.minimum(r / MEAN_EARTH_RADIUS, 1.))))
     )
     return lons, lats
-- 
2.43.0


From e303186510e1813e0c5060e620a7de2fae555745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 05/25] fix: accept 64-bit input in the angle-based MODIS
 interpolation

The coordinate arrays were always 32-bit, so that float64 tie points raised
"Buffer dtype mismatch, expected 'float64_t' but got 'float'".
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..5631867 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 8c0cb20c56307d8cc54c498e75b87610088a2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 06/25] fix: no NaN in angle-based MODIS interpolation when two
 neighbouring zenith angles are 0

The expansion and alignment terms were computed as 0 / 0.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 5631867..ddcf6bd 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -60,6 +60,11 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            if denominator == 0:
+                # both tiepoints at the subsatellite point, nothing to correct for
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
 
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
-- 
2.43.0


From 6c396c9696a677faffb31e428bea5d5f366deff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 07/25] fix: rechunk dask input with chunks smaller than a scan
 to whole scans

It failed with a ZeroDivisionError inside dask.
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 1d1b02a..001fb0e 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -183,7 +183,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From 3c8865340d30b5c789f0a085e84828069872f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 08/25] fix: announce the actual width of lazy MODIS results

The simple interpolator accepts any swath width, but its dask results
claimed to be as wide as a full MODIS swath.
---
 geotiepoints/_modis_utils.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 001fb0e..e3608e0 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -138,7 +138,8 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    coarse_scan_width_1km = first_arr.shape[1] if coarse_resolution == 1000 else 1354
+    fine_scan_width = coarse_scan_width_1km * fine_pixels_per_1km
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0


From 30d2113734bd39cbee9c37a9fa60513d16188695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 09/25] fix: accept numpy-backed DataArrays and mixed
 dask/numpy input in MODIS interpolation

DataArrays holding numpy arrays are documented input but failed with an
AttributeError; a numpy array next to a dask array was passed whole to
every block.
---
 geotiepoints/_modis_utils.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index e3608e0..8937ac4 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -102,7 +102,7 @@ def scanline_mapblocks(func):
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         if first_arr.ndim != 2 or first_arr.ndim != 2:
             raise ValueError("Expected 2D input arrays.")
-        if hasattr(first_arr, "compute"):
+        if any(hasattr(arr, "compute") for arr in args):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
@@ -130,7 +130,8 @@ def scanline_mapblocks(func):
 
 
 def _extract_dask_arrays_from_args(args):
-    return [arr_obj.data if hasattr(arr_obj, "dims") else arr_obj for arr_obj in args]
+    arrs = [arr_obj.data if hasattr(arr_obj, "dims") else arr_obj for arr_obj in args]
+    return [da.asarray(arr) if hasattr(arr, "ndim") else arr for arr in arrs]
 
 
 def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **kwargs):
-- 
2.43.0


From d6263227d62ec88f8b9007fdc2bd2d9287c2a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 10/25] fix: reject MODIS input of unsupported shape or
 resolution

Incomplete scans in numpy arrays, arrays of different shapes, swath widths
other than the ones the interpolation is made for and unsupported
resolutions were not noticed (the whole-scan check was for dask input
only) and gave uninitialized values or out-of-bounds memory accesses.
---
 geotiepoints/_modis_interpolator.pyx        |  3 +++
 geotiepoints/_modis_utils.pyx               | 16 +++++++++-------
 geotiepoints/_simple_modis_interpolator.pyx |  4 ++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index ddcf6bd..dbe967e 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -34,6 +34,9 @@ def interpolate(
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
+    expected_widths = (1354,) if coarse_resolution == 1000 else (coarse_scan_width or 271,)
+    if lon1.shape[1] not in expected_widths:
+        raise ValueError(f"Expected arrays with {expected_widths[0]} columns, got {lon1.shape[1]}.")
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
     return interp.interpolate(lon1, lat1, satz1)
 
diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 8937ac4..2a00331 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -99,14 +99,20 @@ def scanline_mapblocks(func):
     def _wrapper(*args, coarse_resolution=None, fine_resolution=None, **kwargs):
         if coarse_resolution is None or fine_resolution is None:
             raise ValueError("'coarse_resolution' and 'fine_resolution' are required keyword arguments.")
-        first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
-        if first_arr.ndim != 2 or first_arr.ndim != 2:
+        input_arrs = [arr for arr in args if hasattr(arr, "ndim")]
+        first_arr = input_arrs[0]
+        if any(arr.ndim != 2 for arr in input_arrs):
             raise ValueError("Expected 2D input arrays.")
+        if any(arr.shape != first_arr.shape for arr in input_arrs):
+            raise ValueError("Expected input arrays of the same shape.")
+        rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
+        if first_arr.shape[0] % rows_per_scan != 0:
+            raise ValueError("Input longitude/latitude data does not consist of "
+                             f"whole scans ({rows_per_scan} rows per scan).")
         if any(hasattr(arr, "compute") for arr in args):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
-            rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
                 func,
@@ -169,15 +175,11 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
     row_chunks = first_arr.chunks[0]
     col_chunks = first_arr.chunks[1]
-    num_rows = first_arr.shape[0]
     num_cols = first_arr.shape[1]
     good_row_chunks = all(x % rows_per_scan == 0 for x in row_chunks)
     good_col_chunks = len(col_chunks) == 1 and col_chunks[0] != num_cols
     all_orig_chunks = [arr.chunks for arr in args if hasattr(arr, "chunks")]
 
-    if num_rows % rows_per_scan != 0:
-        raise ValueError("Input longitude/latitude data does not consist of "
-                         "whole scans (10 rows per scan).")
     all_same_chunks = all(
         all_orig_chunks[0] == some_chunks
         for some_chunks in all_orig_chunks[1:]
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..b682e0a 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -15,6 +15,10 @@ def interpolate_geolocation_cartesian(
         np.ndarray[floating, ndim=2] lat_array,
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
+    if coarse_resolution != 1000 or fine_resolution not in (250, 500):
+        raise ValueError("Only interpolation from 1000m to 500m or 250m is supported.")
+    if lon_array.shape[1] < 2:
+        raise ValueError("At least two columns are needed to interpolate.")
     lon_array = np.ascontiguousarray(lon_array)
     lat_array = np.ascontiguousarray(lat_array)
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
-- 
2.43.0


From 89653e85aea2956f0253cffe2bb610fbc7a47236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 11/25] fix: accept read-only input arrays in the compiled
 interpolators

---
 geotiepoints/_modis_interpolator.pyx        |  6 +++---
 geotiepoints/_simple_modis_interpolator.pyx |  4 ++--
 geotiepoints/multilinear.py                 | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index dbe967e..8bf9382 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -141,9 +141,9 @@ cdef class MODISInterpolator:
             np.ndarray[floating, ndim=2] lat1,
             np.ndarray[floating, ndim=2] satz1):
         """Interpolate MODIS geolocation from 'coarse_resolution' to 'fine_resolution'."""
-        lon1 = np.ascontiguousarray(lon1)
-        lat1 = np.ascontiguousarray(lat1)
-        satz1 = np.ascontiguousarray(satz1)
+        lon1 = np.require(lon1, requirements=("C", "W"))
+        lat1 = np.require(lat1, requirements=("C", "W"))
+        satz1 = np.require(satz1, requirements=("C", "W"))
 
         cdef int num_fine_scan_rows = self._coarse_scan_length * self._fine_pixels_per_coarse_pixel
         cdef int num_fine_scan_cols = self._fine_scan_width
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index b682e0a..7bd4735 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -19,8 +19,8 @@ def interpolate_geolocation_cartesian(
         raise ValueError("Only interpolation from 1000m to 500m or 250m is supported.")
     if lon_array.shape[1] < 2:
         raise ValueError("At least two columns are needed to interpolate.")
-    lon_array = np.ascontiguousarray(lon_array)
-    lat_array = np.ascontiguousarray(lat_array)
+    lon_array = np.require(lon_array, requirements=("C", "W"))
+    lat_array = np.require(lat_array, requirements=("C", "W"))
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
     cdef unsigned int res_factor = coarse_resolution // fine_resolution
     cdef Py_ssize_t num_rows = lon_array.shape[0]
diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..efb5f07 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -59,9 +59,9 @@ class MultilinearInterpolator:
     __grid__ = None
 
     def __init__(self, smin, smax, orders, values=None, dtype=np.float64):
-        self.smin = np.asarray(smin, dtype=dtype)
-        self.smax = np.asarray(smax, dtype=dtype)
-        self.orders = np.asarray(orders, dtype="long")
+        self.smin = np.require(smin, dtype=dtype, requirements="W")
+        self.smax = np.require(smax, dtype=dtype, requirements="W")
+        self.orders = np.require(orders, dtype="long", requirements="W")
         self.d = len(orders)
         self.dtype = dtype
         if values is not None:
@@ -74,10 +74,10 @@ class MultilinearInterpolator:
         return self.__grid__
 
     def set_values(self, values):
-        self.values = np.ascontiguousarray(values, dtype=self.dtype)
+        self.values = np.require(values, dtype=self.dtype, requirements=("C", "W"))
 
     def interpolate(self, s):
-        s = np.ascontiguousarray(s, dtype=self.dtype)
+        s = np.require(s, dtype=self.dtype, requirements=("C", "W"))
         a = multilinear_interpolation(
             self.smin, self.smax, self.orders, self.values, s)
         return a
-- 
2.43.0


From d63da8a2349563080ba084281ec5ef96bbded874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 12/25] fix: align the 5km to 500m and 250m interpolation with
 the tiepoints

---
 geotiepoints/_modis_interpolator.pyx | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 8bf9382..159c978 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -238,22 +238,13 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
-        if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
-        else:
-            # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+        # along-track the tiepoints are at the center of the fine pixels of a coarse pixel: 2, 4.5 or 9.5
+        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - (self._fine_pixels_per_coarse_pixel - 1) / 2.0
+        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - self._factor_5km) % self._fine_pixels_per_coarse_pixel
+        # the edges are extrapolated from the first and last pair of tiepoints
+        right_edge = (self._coarse_scan_width - 1) * self._fine_pixels_per_coarse_pixel + self._factor_5km
+        x[:self._factor_5km] -= self._fine_pixels_per_coarse_pixel
+        x[right_edge:] = np.arange(self._fine_pixels_per_coarse_pixel, self._fine_pixels_per_coarse_pixel + self._fine_scan_width - right_edge)
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From bd71a401bc927476704665cb43003c8982636ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 13/25] fix: give the grid of a one-dimensional
 MultilinearInterpolator

---
 geotiepoints/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index efb5f07..e9f85fa 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -8,7 +8,7 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
+            np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  # workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From e358913a378de8fa545e0d1e2a042f2f5f8ceb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 14/25] fix: reject inconsistent grids in the multilinear
 interpolation

---
 geotiepoints/multilinear_cython.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..10cce7e 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -28,6 +28,15 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
 
     if d > 4:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
+    if d < 1 or not (smin.shape[0] == smax.shape[0] == orders.shape[0] == d):
+        raise ValueError("The grid and the points must have the same number of dimensions.")
+    expected_size = 1
+    for order in orders:
+        if order < 2:
+            raise ValueError("At least two grid points are needed along each dimension.")
+        expected_size *= order
+    if values.shape[1] != expected_size:
+        raise ValueError(f"Expected {expected_size} values on the grid, got {values.shape[1]}.")
 
     with nogil:
         for i in range(n_v):
-- 
2.43.0


From 7fa063b74d0932dedf5c9b88f8616476e64370aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 15/25] fix: extrapolate points far outside the grid from the
 nearest cell

---
 geotiepoints/multilinear_cython.pyx | 39 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index 10cce7e..cc97f03 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -54,6 +54,15 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     return result_arr
 
 
+cdef inline int _cell_index(floating position, int last) noexcept nogil:
+    """Get the index of the cell containing position, the border cells reaching outwards."""
+    if position >= last:
+        return last
+    if position > 0:
+        return <int>position
+    return 0
+
+
 cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
                                        long[:] orders, floating[:] V,
                                        int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
@@ -74,7 +83,7 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             sn_0 = (s_0-smin[0])/(smax[0]-smin[0])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -115,8 +124,8 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             sn_1 = (s_1-smin[1])/(smax[1]-smin[1])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0-2)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -169,9 +178,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             sn_2 = (s_2-smin[2])/(smax[2]-smin[2])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0-2)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1-2)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -244,10 +253,10 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             sn_3 = (s_3-smin[3])/(smax[3]-smin[3])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0-2)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1-2)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2-2)
+            q_3 = _cell_index(sn_3 *(order_3-1), order_3-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -350,11 +359,11 @@ cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
             sn_4 = (s_4-smin[4])/(smax[4]-smin[4])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
-            q_4 = max( min( <int>(sn_4 *(order_4-1)), (order_4-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0-2)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1-2)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2-2)
+            q_3 = _cell_index(sn_3 *(order_3-1), order_3-2)
+            q_4 = _cell_index(sn_4 *(order_4-1), order_4-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
-- 
2.43.0


From 51bf54a7d34cafb440c8ec2a09caadf745c26625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 16/25] fix: fill the borders of chunks whatever the unit and
 extent of the tie point grid

---
 geotiepoints/interpolator.py | 43 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index fc5c87d..614caa1 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -126,9 +126,9 @@ class Interpolator:
         """Add the first and last column to the data by extrapolation."""
         first = True
         last = True
-        if self.col_indices[0] == self.hcol_indices[0]:
+        if self.col_indices[0] <= self.hcol_indices[0]:
             first = False
-        if self.col_indices[-1] == self.hcol_indices[-1]:
+        if self.col_indices[-1] >= self.hcol_indices[-1]:
             last = False
         for num, data in enumerate(self.tie_data):
             self.tie_data[num] = self._extrapolate_cols(data, first, last)
@@ -162,7 +162,6 @@ class Interpolator:
         """Add the first and last rows to the data by extrapolation."""
         lines = len(self.hrow_indices)
         chunk_size = self.chunk_size or lines
-        factor = len(self.hrow_indices) / len(self.row_indices)
 
         tmp_data = []
         for _num in range(len(self.tie_data)):
@@ -170,24 +169,30 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            indices = np.logical_and(self.row_indices >= index / factor,
-                                     self.row_indices < (index + chunk_size) / factor)
-            ties = np.argwhere(indices).squeeze()
-            tiepos = self.row_indices[indices].squeeze()
+            first_index = self.hrow_indices[index]
+            last_index = self.hrow_indices[index + chunk_size - 1]
+            # the tie points between two chunks go to the closest one
+            indices = np.ones(len(self.row_indices), dtype=bool)
+            if index > 0:
+                indices &= self.row_indices >= (self.hrow_indices[index - 1] + first_index) / 2
+            if index + chunk_size < lines:
+                indices &= self.row_indices < (last_index + self.hrow_indices[index + chunk_size]) / 2
+            ties = np.flatnonzero(indices)
+            if len(ties) < 2:
+                raise ValueError("At least two rows of tie points are needed in each chunk to fill the borders.")
+            tiepos = self.row_indices[ties]
+            # no need to extrapolate to a border the tie points already reach
+            wanted = slice(0 if tiepos[0] > first_index else 1,
+                           len(ties) + (2 if tiepos[-1] < last_index else 1))
 
             for num, data in enumerate(self.tie_data):
-                to_extrapolate = data[ties, :]
-                if len(to_extrapolate) > 0:
-                    extrapolated = self._extrapolate_rows(to_extrapolate,
-                                                          tiepos,
-                                                          self.hrow_indices[
-                                                              index],
-                                                          self.hrow_indices[index + chunk_size - 1])
-                    tmp_data[num].append(extrapolated)
-
-            row_indices.append(np.array([self.hrow_indices[index]]))
-            row_indices.append(tiepos)
-            row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
+                extrapolated = self._extrapolate_rows(data[ties, :],
+                                                      tiepos,
+                                                      first_index,
+                                                      last_index)
+                tmp_data[num].append(extrapolated[wanted])
+
+            row_indices.append(np.concatenate(([first_index], tiepos, [last_index]))[wanted])
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From 464f98a43dffd387e8bd07f6178d4d83b5729840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 17/25] fix: do not truncate integer data when interpolating in
 one dimension

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 614caa1..5fa5614 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -220,7 +220,7 @@ class Interpolator:
         for num, data in enumerate(self.tie_data):
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
-                                          data.dtype)
+                                          np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-- 
2.43.0


From 2525b2dd8da90a80f489a215ebc70f0cd4111090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 18/25] fix: use to_numpy instead of the removed
 DataFrame.as_matrix

---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From cd8fedc0bdd7304da7599a91426dc22dbaf3a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 19/25] fix: return a new list of arrays from each
 interpolation

The list returned by Interpolator.interpolate was the interpolator's own
one: the next call replaced the arrays in results handed out earlier.
---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 5fa5614..220796a 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -231,7 +231,7 @@ class Interpolator:
         """Do the interpolation, and return resulting longitudes and latitudes."""
         self._interp()
 
-        return self.new_data
+        return list(self.new_data)
 
 
 class AbstractSingleInterpolator(ABC):
-- 
2.43.0


From 6af88792cba662546a39a14da8ba8daf6c44f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 20/25] fix: reject data that do not fit the tie point grid

Interpolator silently used only the first rows of data with more rows than
the tie point grid, when filling borders or when only columns are
interpolated (e.g. metop20kmto1km with longitudes and latitudes of
different numbers of lines).
---
 geotiepoints/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 220796a..3b6761c 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -78,6 +78,9 @@ class Interpolator:
             self.tie_data = [data]
         else:
             self.tie_data = list(data)
+        tie_shape = (len(self.row_indices), len(self.col_indices))
+        if any(np.shape(tie_data) != tie_shape for tie_data in self.tie_data):
+            raise ValueError("The data and the tie point grid must have the same size.")
 
         self.new_data = [[] for _ in self.tie_data]
         self.kx_, self.ky_ = kx_, ky_
-- 
2.43.0


From a85a6af32d6ef9eb7e3afb54f398c2116d89d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 21/25] fix: let one Interpolator be used in several threads at
 once

---
 geotiepoints/interpolator.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 3b6761c..5d117e5 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -206,7 +206,8 @@ class Interpolator:
         if np.array_equal(self.hrow_indices, self.row_indices):
             return self._interp1d()
 
-        for num, data in enumerate(self.tie_data):
+        new_data = []
+        for data in self.tie_data:
             spl = RectBivariateSpline(self.row_indices,
                                       self.col_indices,
                                       data,
@@ -214,27 +215,33 @@ class Interpolator:
                                       kx=self.kx_,
                                       ky=self.ky_)
 
-            self.new_data[num] = spl(self.hrow_indices, self.hcol_indices, grid=True)
+            new_data.append(spl(self.hrow_indices, self.hcol_indices, grid=True))
+        return new_data
 
     def _interp1d(self):
         """Interpolate in one dimension."""
         lines = len(self.hrow_indices)
 
-        for num, data in enumerate(self.tie_data):
-            self.new_data[num] = np.empty((len(self.hrow_indices),
-                                           len(self.hcol_indices)),
-                                          np.result_type(data.dtype, np.float32))
+        new_data = []
+        for data in self.tie_data:
+            new_array = np.empty((len(self.hrow_indices),
+                                  len(self.hcol_indices)),
+                                 np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-                self.new_data[num][cnt, :] = splev(
+                new_array[cnt, :] = splev(
                     self.hcol_indices, tck, der=0)
+            new_data.append(new_array)
+        return new_data
 
     def interpolate(self):
         """Do the interpolation, and return resulting longitudes and latitudes."""
-        self._interp()
+        # not filled in through self: the same object may be interpolating in another thread
+        new_data = self._interp()
+        self.new_data = new_data
 
-        return list(self.new_data)
+        return list(new_data)
 
 
 class AbstractSingleInterpolator(ABC):
-- 
2.43.0


From 7d4b1edf2295f6d1e604c18ac2b7a92c2ee9e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 22/25] fix: keep missing VII tie points out of the next scan

---
 geotiepoints/viiinterpolator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index a62103f..394e6ac 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -59,7 +59,6 @@ def tie_points_interpolation(data_on_tie_points, scan_alt_tie_points, tie_points
     for j_scan in range(n_scans):
         start_index_scan = j_scan * scan_alt_tie_points * tie_points_factor
         pixel_grid_alt.append(np.arange(start_index_scan, start_index_scan + n_pixel_alt_per_scan))
-    pixel_grid_alt = np.concatenate(pixel_grid_alt)
 
     # Loop on all arrays
     data_on_pixel_points = []
@@ -68,11 +67,15 @@ def tie_points_interpolation(data_on_tie_points, scan_alt_tie_points, tie_points
         if data.shape != (n_tie_alt, n_tie_act) or data.dims != (dim_alt, dim_act):
             raise ValueError("The dimensions of the arrays are not consistent")
 
-        # Interpolate using the xarray interp function twice: first across, then along the scan
+        # Interpolate using the xarray interp function twice: first along the track, then across
         # (much faster than interpolating directly in the two dimensions)
+        # Along the track each scan is on its own, so that missing values do not reach into the next scan
         data = data.assign_coords({dim_alt: tie_grid_alt, dim_act: tie_grid_act})
-        data_pixel = data.interp({dim_alt: pixel_grid_alt}, assume_sorted=True) \
-                         .interp({dim_act: pixel_grid_act}, assume_sorted=True).drop_vars([dim_alt, dim_act])
+        scans = [data.isel({dim_alt: slice(j_scan * scan_alt_tie_points, (j_scan + 1) * scan_alt_tie_points)})
+                     .interp({dim_alt: pixel_grid}, assume_sorted=True)
+                 for j_scan, pixel_grid in enumerate(pixel_grid_alt)]
+        data_pixel = xr.concat(scans, dim_alt) \
+                       .interp({dim_act: pixel_grid_act}, assume_sorted=True).drop_vars([dim_alt, dim_act])
 
         data_on_pixel_points.append(data_pixel)
 
-- 
2.43.0


From eec10a83aea73841675828346d4aeaa6b591729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 23/25] fix: extrapolate unsigned and small integer tie points
 without overflow

---
 geotiepoints/interpolator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 5d117e5..96325b8 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -48,6 +48,10 @@ def _linear_extrapolate(pos, data, xev):
         raise ValueError("len(pos) and the number of lines of data"
                          " must be 2.")
 
+    if np.issubdtype(np.asarray(data[0]).dtype, np.integer):
+        # the difference of unsigned or large integers would overflow
+        data = [np.asarray(line, dtype=np.float64) for line in data]
+
     return data[1] + ((xev - pos[1]) / (1.0 * (pos[0] - pos[1])) * (data[0] - data[1]))
 
 
-- 
2.43.0


From e2f4d1940eb6cbf2336b07639f42870f357a2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 24/25] fix: Cartesian coordinates of small integers and half
 precision numbers

---
 geotiepoints/geointerpolator.py | 8 ++++++++
 geotiepoints/viiinterpolator.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index f174b1d..4467cbd 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -49,8 +49,16 @@ class GeoInterpolator(Interpolator):
         return lon, lat
 
 
+def at_least_single_precision(angles):
+    """Convert arrays that numpy would work on in half precision, which cannot hold coordinates in meters."""
+    if hasattr(angles, "dtype") and np.result_type(angles.dtype, np.float16) == np.float16:
+        return angles.astype(np.float32)
+    return angles
+
+
 def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
     """Convert lons and lats to cartesian coordinates."""
+    lons, lats = at_least_single_precision(lons), at_least_single_precision(lats)
     lons_rad = np.deg2rad(lons)
     lats_rad = np.deg2rad(lats)
     x_coords = radius * np.cos(lats_rad) * np.cos(lons_rad)
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 394e6ac..1b0bf64 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -16,6 +16,8 @@ import xarray as xr
 import dask.array as da
 import numpy as np
 
+from geotiepoints.geointerpolator import at_least_single_precision
+
 # MEAN EARTH RADIUS AS DEFINED BY IUGG
 MEAN_EARTH_RADIUS = 6371008.7714  # [m]
 
@@ -148,6 +150,7 @@ def _lonlat2xyz(lons, lats):
         tuple of arrays containing the x, y, and z values in meters.
 
     """
+    lons, lats = at_least_single_precision(lons), at_least_single_precision(lats)
     lons_rad = np.deg2rad(lons)
     lats_rad = np.deg2rad(lats)
     x_coords = MEAN_EARTH_RADIUS * np.cos(lats_rad) * np.cos(lons_rad)
-- 
2.43.0


From c1ca6d63be9682faf767a61f7a6287cbef0fd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 25/25] fix: fill borders at unsigned and small integer
 positions without overflow

---
 geotiepoints/interpolator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 96325b8..2fe8989 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -51,10 +51,17 @@ def _linear_extrapolate(pos, data, xev):
     if np.issubdtype(np.asarray(data[0]).dtype, np.integer):
         # the difference of unsigned or large integers would overflow
         data = [np.asarray(line, dtype=np.float64) for line in data]
+    pos = [_as_wide(position) for position in pos]
+    xev = _as_wide(xev)
 
     return data[1] + ((xev - pos[1]) / (1.0 * (pos[0] - pos[1])) * (data[0] - data[1]))
 
 
+def _as_wide(position):
+    """Make the sums and differences of integer positions safe from overflow."""
+    return np.float64(position) if np.issubdtype(np.asarray(position).dtype, np.integer) else position
+
+
 class Interpolator:
     """Handles interpolation of data from a grid of tie points.
 
@@ -181,9 +188,9 @@ class Interpolator:
             # the tie points between two chunks go to the closest one
             indices = np.ones(len(self.row_indices), dtype=bool)
             if index > 0:
-                indices &= self.row_indices >= (self.hrow_indices[index - 1] + first_index) / 2
+                indices &= self.row_indices >= (_as_wide(self.hrow_indices[index - 1]) + _as_wide(first_index)) / 2
             if index + chunk_size < lines:
-                indices &= self.row_indices < (last_index + self.hrow_indices[index + chunk_size]) / 2
+                indices &= self.row_indices < (_as_wide(last_index) + _as_wide(self.hrow_indices[index + chunk_size])) / 2
             ties = np.flatnonzero(indices)
             if len(ties) < 2:
                 raise ValueError("At least two rows of tie points are needed in each chunk to fill the borders.")
-- 
2.43.0

