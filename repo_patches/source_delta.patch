From 47efef278f3763a46623a1bc787057be3c50903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 001/133] fix: keep masked points out of fuzzy thresholding in
 vicinity

---
 improver/threshold.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/threshold.py b/improver/threshold.py
index 5aba3af..53c6020 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -406,6 +406,10 @@ class Threshold(PostProcessingPlugin):
                     clip=True,
                 ),
             )
+            # np.where discards any mask, without which the values of masked
+            # points would contribute to vicinity processing
+            if np.ma.is_masked(cube.data):
+                truth_value = np.ma.masked_array(truth_value, mask=cube.data.mask)
             # if requirement is for probabilities less_than or
             # less_than_or_equal_to the threshold (rather than
             # greater_than or greater_than_or_equal_to), invert
-- 
2.43.0


From bef40d1f285298116e1d796fcf2654e31f597158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 002/133] fix: compare NaN, array and dimension differences of
 netCDF files correctly

---
 improver/utilities/compare.py | 45 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 91a2368..abfb06f 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -19,7 +19,7 @@ or raise an appropriate exception.
 """
 
 from os import PathLike
-from typing import Callable, List, Optional
+from typing import Any, Callable, List, Optional
 
 import netCDF4
 import numpy as np
@@ -314,14 +314,7 @@ def compare_attributes(
                 f"{type(actual_attr)} {type(desired_attr)}"
             )
             reporter(msg)
-        if isinstance(desired_attr, np.ndarray):
-            if not np.array_equal(actual_attr, desired_attr):
-                msg = (
-                    f"different attribute value {name}/{key} - "
-                    f"{actual_attr} {desired_attr}"
-                )
-                reporter(msg)
-        elif actual_attr != desired_attr:
+        if not attributes_equal(actual_attr, desired_attr):
             msg = (
                 f"different attribute value {name}/{key} - "
                 f"{actual_attr} {desired_attr}"
@@ -329,6 +322,29 @@ def compare_attributes(
             reporter(msg)
 
 
+def attributes_equal(actual_attr: Any, desired_attr: Any) -> bool:
+    """
+    Compare the values of an attribute, which may be strings, numbers or arrays.
+    NaN values, as used for some fill values, are considered equal.
+
+    Args:
+        actual_attr:
+            attribute value produced by test run
+        desired_attr:
+            attribute value considered good
+
+    Returns:
+        True if the values have the same shape and all elements are equal
+    """
+    actual = np.asarray(actual_attr)
+    desired = np.asarray(desired_attr)
+    if actual.dtype.kind == "f" and desired.dtype.kind == "f":
+        return actual.shape == desired.shape and bool(
+            np.all((actual == desired) | (np.isnan(actual) & np.isnan(desired)))
+        )
+    return np.array_equal(actual, desired)
+
+
 def compare_data(
     name: str,
     actual_var: Variable,
@@ -357,8 +373,9 @@ def compare_data(
     if actual_var.dtype != desired_var.dtype:
         msg = f"different type {name} - {actual_var.dtype} {desired_var.dtype}"
         reporter(msg)
-    actual_data = actual_var[:]
-    desired_data = desired_var[:]
+    # string scalars are read as str rather than as a numpy type
+    actual_data = np.asanyarray(actual_var[:])
+    desired_data = np.asanyarray(desired_var[:])
     difference_found = False
     numpy_err_message = ""
     try:
@@ -377,3 +394,9 @@ def compare_data(
     # exceptions if the reporter function is raising an exception
     if difference_found:
         reporter(f"different data {name} - {numpy_err_message}")
+    elif actual_var.dimensions != desired_var.dimensions:
+        # such as a scalar, which numpy considers close to a constant array
+        reporter(
+            f"different dimensions {name} - "
+            f"{actual_var.dimensions} {desired_var.dimensions}"
+        )
-- 
2.43.0


From 02f52d2709d73a063410c973a28c1a793461d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 003/133] fix: choose netCDF chunk sizes that fit every cube
 saved

---
 improver/utilities/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/save.py b/improver/utilities/save.py
index 98f3c4c..3c8b41d 100644
--- a/improver/utilities/save.py
+++ b/improver/utilities/save.py
@@ -99,7 +99,7 @@ def save_netcdf(
     # If all xy slices are the same shape, use this to determine
     # the chunksize for the netCDF (eg. 1, 1, 970, 1042)
     chunksizes = None
-    if len({cube.shape[:2] for cube in cubelist}) == 1:
+    if len({(cube.ndim, cube.shape[-2:]) for cube in cubelist}) == 1:
         cube = cubelist[0]
         if cube.ndim >= 2:
             xy_chunksizes = [cube.shape[-2], cube.shape[-1]]
-- 
2.43.0


From 22f4baf8eb4dcfd359b5b74c472adaca860a5501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 004/133] fix: give only points outside the domain padding
 values in square neighbourhoods

---
 improver/nbhood/nbhood.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index d69a799..c700807 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -389,16 +389,21 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
                 untrimmed = np.full(data_shape, fill_value, dtype=data.dtype)
         if size:
             # The subset of data is non-zero in size, so calculate the neighbourhood sums in the
-            # subset.
-            data = data[ystart:ystop, xstart:xstop]
+            # subset. Include the surrounding points, up to the edge of the domain, that are
+            # within the neighbourhoods of points in the subset, so that only points outside the
+            # domain are given padding values.
+            ypad = max(0, ystart - half_nb_size)
+            xpad = max(0, xstart - half_nb_size)
+            data = data[
+                ypad : ystop + half_nb_size, xpad : xstop + half_nb_size,
+            ]
 
             # Calculate neighbourhood totals for input data.
             if self.neighbourhood_method == "square":
-                data = boxsum(
-                    data, self.nb_size, mode="constant", constant_values=extreme
-                )
+                data = boxsum(data, self.nb_size, mode="constant", constant_values=0)
             elif self.neighbourhood_method == "circular":
                 data = correlate(data, self.kernel, mode="nearest")
+            data = data[ystart - ypad : ystop - ypad, xstart - xpad : xstop - xpad]
         else:
             data = untrimmed
 
-- 
2.43.0


From 838053f41f43979f8379f4d7776018e9041032e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 005/133] fix: reuse neighbourhood results only where mask,
 radius and time bounds agree

---
 improver/nbhood/use_nbhood.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/improver/nbhood/use_nbhood.py b/improver/nbhood/use_nbhood.py
index f1c4c33..7f4b635 100644
--- a/improver/nbhood/use_nbhood.py
+++ b/improver/nbhood/use_nbhood.py
@@ -192,6 +192,30 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         result.remove_coord(self.coord_for_masking)
         return result
 
+    def _same_result(self, first: Cube, second: Cube) -> bool:
+        """
+        Check whether two slices have the same neighbourhood processed data: they
+        must have the same data and mask and, if the radius depends upon the lead
+        time, the same time coordinates.
+
+        Args:
+            first:
+                A 2D slice of the input cube.
+            second:
+                Another 2D slice of the input cube.
+
+        Returns:
+            True if the results for the two slices are the same.
+        """
+        if self.lead_times is not None and any(
+            first.coords(name) != second.coords(name)
+            for name in ["time", "forecast_period", "forecast_reference_time"]
+        ):
+            return False
+        return np.array_equal(first.data, second.data) and np.array_equal(
+            ma.getmaskarray(first.data), ma.getmaskarray(second.data)
+        )
+
     def process(self, cube: Cube, mask_cube: Cube) -> Cube:
         """
         Apply neighbourhood processing with a mask to the input cube,
@@ -228,13 +252,16 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         # Take 2D slices of the input cube for memory issues.
         prev_x_y_slice = None
         for x_y_slice in cube.slices([yname, xname]):
-            if prev_x_y_slice is not None and np.array_equal(
-                prev_x_y_slice.data, x_y_slice.data
+            if prev_x_y_slice is not None and self._same_result(
+                prev_x_y_slice, x_y_slice
             ):
                 # Use same result as last time!
                 prev_result = result_slices[-1].copy()
                 for coord in x_y_slice.coords(dim_coords=False):
-                    prev_result.coord(coord).points = coord.points.copy()
+                    prev_coord = prev_result.coord(coord)
+                    prev_coord.points = coord.points.copy()
+                    if coord.has_bounds():
+                        prev_coord.bounds = coord.bounds.copy()
                 result_slices.append(prev_result)
                 continue
             prev_x_y_slice = x_y_slice
-- 
2.43.0


From a65295a353b40b9276c02d5f21e608ffa677f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 006/133] fix: recursive filter leaves the smoothing
 coefficients it is given unchanged

---
 improver/nbhood/recursive_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index a9c391f..2ba1360 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -371,7 +371,7 @@ class RecursiveFilter(PostProcessingPlugin):
 
             mask_cube = cube_format.copy(data=cube_format.data.mask)
             coeffs_x, coeffs_y = self._update_coefficients_from_mask(
-                coeffs_x, coeffs_y, mask_cube,
+                coeffs_x.copy(), coeffs_y.copy(), mask_cube,
             )
 
         padded_coefficients_x, padded_coefficients_y = self._pad_coefficients(
-- 
2.43.0


From c06dc7c139388274c14546b287f120a9076f39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 007/133] fix: keep the mask of a cube whose data are reshaped
 to 2D

---
 improver/calibration/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 8463c80..b463a03 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -43,11 +43,11 @@ def convert_cube_data_to_2d(
         Reshaped 2d array.
     """
     forecast_data = []
-    if np.ma.is_masked(forecast.data):
-        forecast.data = np.ma.filled(forecast.data, np.nan)
-
     for coord_slice in forecast.slices_over(coord):
-        forecast_data.append(coord_slice.data.flatten())
+        slice_data = coord_slice.data
+        if np.ma.is_masked(slice_data):
+            slice_data = np.ma.filled(slice_data, np.nan)
+        forecast_data.append(slice_data.flatten())
     if transpose:
         forecast_data = np.asarray(forecast_data).T
     return np.array(forecast_data)
-- 
2.43.0


From 9a303a79acfa42a1cf2800372f0749c9bc861714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 008/133] fix: take the mask along the leading percentile or
 threshold dimension

---
 .../ensemble_copula_coupling.py                    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..76b5faa 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -336,13 +336,14 @@ class ResamplePercentiles(BasePlugin):
             percentile_coord_name
         ).points
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_at_percentiles.data):
             original_mask = forecast_at_percentiles.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
         forecast_at_reshaped_percentiles = convert_cube_data_to_2d(
             forecast_at_percentiles, coord=percentile_coord_name
         )
@@ -618,13 +619,14 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
         threshold_points = threshold_coord.points
         threshold_name = threshold_coord.name()
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_probabilities.data):
             original_mask = forecast_probabilities.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
         prob_slices = convert_cube_data_to_2d(
             forecast_probabilities, coord=threshold_name
         )
-- 
2.43.0


From 5ec2df6a096b90936c2c1670954c96f2a6cefb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 009/133] fix: mask a single percentile

---
 .../ensemble_copula_coupling.py                      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 76b5faa..cecbf62 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -694,7 +694,6 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
         )
 
         if self.mask_percentiles:
-            forecast_at_percentiles = np.ma.asarray(forecast_at_percentiles)
             coord_constraint = {threshold_name: threshold_coord.points[-1]}
             mask_probability = forecast_probabilities.extract(
                 iris.Constraint(coord_values=coord_constraint)
@@ -703,10 +702,13 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
             if relation == "above":
                 mask_probability = 1 - mask_probability
 
-            for index, perc in enumerate(percentiles_as_fractions):
-                forecast_at_percentiles[index] = np.ma.masked_where(
-                    mask_probability <= perc, forecast_at_percentiles[index]
-                )
+            mask = np.array(
+                [
+                    np.ma.getdata(mask_probability) <= perc
+                    for perc in percentiles_as_fractions
+                ]
+            ).reshape(forecast_at_percentiles.shape)
+            forecast_at_percentiles = np.ma.masked_where(mask, forecast_at_percentiles)
 
         template_cube = next(forecast_probabilities.slices_over(threshold_name))
         template_cube.rename(
-- 
2.43.0


From 89b4e37e935c86762551650d434d26e293e2867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 010/133] fix: label percentiles in the order of their values

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index cecbf62..2ba5ef2 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -440,6 +440,8 @@ class ResamplePercentiles(BasePlugin):
                     f"Percentiles supplied: {percentiles}"
                 )
                 raise ValueError(msg)
+            # The percentile coordinate of the output is in ascending order.
+            percentiles = sorted(percentiles)
         else:
             if no_of_percentiles is None:
                 no_of_percentiles = len(
@@ -794,7 +796,8 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
             )
         elif not isinstance(percentiles, (tuple, list)):
             percentiles = [percentiles]
-        percentiles = np.array(percentiles, dtype=np.float32)
+        # The percentile coordinate of the output is in ascending order.
+        percentiles = np.sort(np.array(percentiles, dtype=np.float32))
 
         # If a cube still has multiple realizations, slice over these to reduce
         # the memory requirements into manageable chunks.
-- 
2.43.0


From b649092b74461793e2dc6dd1d1b04d43fe7347cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 011/133] fix: widen the bounds of a partly masked percentile
 forecast

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 2ba5ef2..5ee1082 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -291,10 +291,10 @@ class ResamplePercentiles(BasePlugin):
                     "as new bounds."
                 )
                 warnings.warn(warn_msg)
-                if upper_bound < forecast.max():
-                    upper_bound = forecast.max()
-                if lower_bound > forecast.min():
-                    lower_bound = forecast.min()
+                if upper_bound < np.nanmax(forecast):
+                    upper_bound = np.nanmax(forecast)
+                if lower_bound > np.nanmin(forecast):
+                    lower_bound = np.nanmin(forecast)
                 forecast = concatenate_2d_array_with_2d_array_endpoints(
                     forecast_at_percentiles, lower_bound, upper_bound
                 )
-- 
2.43.0


From cc8c8df279c5c05d313a8a4efa9546a1d3bd093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 012/133] fix: use one random state for all times when
 reordering an ensemble

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 5ee1082..e584486 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1407,14 +1407,14 @@ class EnsembleReordering(BasePlugin):
             the ranking from the raw ensemble.
         """
         results = iris.cube.CubeList([])
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_state = np.random.RandomState(random_seed)
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
-            random_data = random_seed.rand(*rawfc.data.shape)
+            random_data = random_state.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
                 # As these indices are from a random dataset, only an argsort
-- 
2.43.0


From b2e39b6d55cc6d5e098f2927167dff12f10a1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 013/133] fix: leave the points of a single realization in
 place

---
 .../ensemble_copula_coupling.py                  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index e584486..b94c622 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1549,12 +1549,16 @@ class EnsembleReordering(BasePlugin):
         raw_forecast = self._recycle_raw_ensemble_realizations(
             post_processed_forecast, raw_forecast, percentile_coord_name
         )
-        post_processed_forecast_realizations = self.rank_ecc(
-            post_processed_forecast,
-            raw_forecast,
-            random_ordering=random_ordering,
-            random_seed=random_seed,
-        )
+        if len(post_processed_forecast.coord(percentile_coord_name).points) > 1:
+            post_processed_forecast_realizations = self.rank_ecc(
+                post_processed_forecast,
+                raw_forecast,
+                random_ordering=random_ordering,
+                random_seed=random_seed,
+            )
+        else:
+            # A single realization has no ordering to impose.
+            post_processed_forecast_realizations = post_processed_forecast
         plugin = RebadgePercentilesAsRealizations()
         post_processed_forecast_realizations = plugin(
             post_processed_forecast_realizations,
-- 
2.43.0


From 4b30f7ba1fa0f282596e0e50939d43e5787bcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 014/133] fix: refuse blending masks that vary along another
 dimension

---
 improver/blending/spatial_weights.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/blending/spatial_weights.py b/improver/blending/spatial_weights.py
index 4aaafff..022e189 100644
--- a/improver/blending/spatial_weights.py
+++ b/improver/blending/spatial_weights.py
@@ -100,10 +100,10 @@ class SpatiallyVaryingWeightsFromMask(BasePlugin):
         # Check mask does not vary over additional dimensions
         slices = cube_to_collapse.slices(coords_to_slice_over)
         first_slice = next(slices)
-        if np.ma.is_masked(first_slice.data):
-            first_mask = first_slice.data.mask
+        if np.ma.is_masked(cube_to_collapse.data):
+            first_mask = np.ma.getmaskarray(first_slice.data)
             for cube_slice in slices:
-                if not np.all(cube_slice.data.mask == first_mask):
+                if not np.all(np.ma.getmaskarray(cube_slice.data) == first_mask):
                     message = (
                         "The mask on the input cube can only vary along the "
                         "blend_coord, differences in the mask were found "
-- 
2.43.0


From c577d700ec6ba0eec4ed1745a318694305d3d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 015/133] fix: remove zero-weighted slices along time
 coordinates

---
 improver/blending/calculate_weights_and_blend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 5272323..906f95c 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -192,7 +192,7 @@ class WeightAndBlend(PostProcessingPlugin):
         slice_out_vals = []
         for wslice in weights.slices_over(self.blend_coord):
             if np.sum(wslice.data) == 0:
-                slice_out_vals.append(wslice.coord(self.blend_coord).points[0])
+                slice_out_vals.append(wslice.coord(self.blend_coord).cell(0).point)
 
         if not slice_out_vals:
             return cube, weights
-- 
2.43.0


From 70fa59de3fb7d0326774ea7fbf4e3d88236c8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 016/133] fix: name each combination after its own first cube

---
 improver/cube_combiner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..a3bbc57 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
-- 
2.43.0


From b66c4a8bad0601bf22370b7e587adb0742e5d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 017/133] fix: look for the threshold coordinate at each
 broadcast

---
 improver/cube_combiner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index a3bbc57..02861be 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -355,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From b7d6cfbd39b95e753290b8f0b928aa2fc631d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 018/133] fix: broadcast cubes over the stated coordinate only

---
 improver/cube_combiner.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 02861be..237acaf 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -429,8 +429,17 @@ class CubeCombiner(BasePlugin):
 
         if self.broadcast is not None:
             cube_list = self._setup_coords_for_broadcast(cube_list=cube_list)
+            broadcast = self.broadcast
+            if broadcast == "threshold":
+                broadcast = find_threshold_coordinate(cube_list[0]).name()
+            # Only the coordinate to which cubes are broadcast may differ.
             self._check_dimensions_match(
-                cube_list, comparators=[eq, self._coords_are_broadcastable]
+                cube_list,
+                comparators=[
+                    eq,
+                    lambda coord, ref: ref.name() == broadcast
+                    and self._coords_are_broadcastable(coord, ref),
+                ],
             )
         else:
             self._check_dimensions_match(cube_list, comparators=[eq])
-- 
2.43.0


From e52838759a6ecf57ac7bf0c3ca37c8bea6e39674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 019/133] fix: keep the mask when adding a coordinate to a cube

---
 improver/utilities/cube_manipulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 6a94ce1..bd0c984 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -689,9 +689,8 @@ def add_coordinate_to_cube(
     new_aux_coords_and_dims = list(zip(aux_coords, aux_coord_dims))
 
     new_coord_size = len(new_coord.points)
-    new_data = np.broadcast_to(
-        cube.data[..., np.newaxis], shape=cube.shape + (new_coord_size,)
-    ).astype(cube.data.dtype)
+    # The repeat method retains the mask of masked data.
+    new_data = cube.data[..., np.newaxis].repeat(new_coord_size, axis=-1)
     output_cube = Cube(
         new_data,
         dim_coords_and_dims=new_dim_coords_and_dims,
-- 
2.43.0


From 550c69bdd5482d69eddf554a6f0a45c357ac0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 020/133] fix: leave the plugin's list of times as given

---
 improver/utilities/temporal_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..8465723 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -213,7 +213,7 @@ class TemporalInterpolation(BasePlugin):
                     "List of times falls outside the range given by "
                     "initial_time and final_time. "
                 )
-            time_list = self.times
+            time_list = self.times.copy()
         elif self.interval_in_minutes is not None:
             if (final_time - initial_time).seconds % (
                 60 * self.interval_in_minutes
-- 
2.43.0


From 723b41a47ba8034ab4d689d2514ec379eb0a8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 021/133] fix: leave the cubes to be interpolated in time as
 they were

---
 improver/utilities/temporal_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 8465723..f002671 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -627,6 +627,9 @@ class TemporalInterpolation(BasePlugin):
         # directions. Convert the directions to complex numbers so
         # interpolations (esp. the 0/360 wraparound) are handled in a sane
         # fashion.
+        # Work on copies to leave the inputs as they are.
+        cube_t0 = cube_t0.copy()
+        cube_t1 = cube_t1.copy()
         if cube_t0.units == "degrees" and cube_t1.units == "degrees":
             cube_t0.data = deg_to_complex(cube_t0.data)
             cube_t1.data = deg_to_complex(cube_t1.data)
-- 
2.43.0


From 3f712ad348e1c4c43601c50f4d8bfa5c8b246bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 022/133] fix: interpolate accumulations of nothing to nothing

---
 improver/utilities/temporal_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index f002671..e013369 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -510,6 +510,8 @@ class TemporalInterpolation(BasePlugin):
         # total expressed in the longer original period.
         (time_coord,) = interpolated_cube.coord_dims("time")
         interpolated_total = np.sum(interpolated_cube.data, axis=time_coord)
+        # Points at which nothing accumulates need no renormalisation.
+        interpolated_total = np.where(interpolated_total == 0, 1, interpolated_total)
         renormalisation = period_reference.data / interpolated_total
         interpolated_cube.data *= renormalisation
         interpolated_cube.data = interpolated_cube.data.astype(FLOAT_DTYPE)
-- 
2.43.0


From 2beff30a44d561d2f3a059a1b87cde9538cf9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 023/133] fix: measure periods of a day or more in full when
 interpolating in time

---
 improver/utilities/temporal_interpolation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index e013369..c315d12 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -215,15 +215,14 @@ class TemporalInterpolation(BasePlugin):
                 )
             time_list = self.times.copy()
         elif self.interval_in_minutes is not None:
-            if (final_time - initial_time).seconds % (
-                60 * self.interval_in_minutes
-            ) != 0:
+            total_seconds = (final_time - initial_time).total_seconds()
+            if total_seconds % (60 * self.interval_in_minutes) != 0:
                 msg = (
                     "interval_in_minutes of {} does not"
                     " divide into the interval of"
                     " {} mins equally.".format(
                         self.interval_in_minutes,
-                        int((final_time - initial_time).seconds / 60),
+                        int(total_seconds / 60),
                     )
                 )
                 raise ValueError(msg)
@@ -356,7 +355,7 @@ class TemporalInterpolation(BasePlugin):
         dtval_next = dtvals[1]
         sin_phi_next = self.calc_sin_phi(dtval_next, lats, lons)
         # Length of time between beginning and end in seconds
-        diff_step = (dtval_next - dtval_prev).seconds
+        diff_step = (dtval_next - dtval_prev).total_seconds()
 
         for single_time in interpolated_cube.slices_over("time"):
             # Calculate sine of solar elevation for cube at this
@@ -364,7 +363,7 @@ class TemporalInterpolation(BasePlugin):
             dtval_interp = iris_time_to_datetime(single_time.coord("time"))[0]
             sin_phi_interp = self.calc_sin_phi(dtval_interp, lats, lons)
             # Length of time between beginning and interpolated time in seconds
-            diff_interp = (dtval_interp - dtval_prev).seconds
+            diff_interp = (dtval_interp - dtval_prev).total_seconds()
             # Set all values to 0.0, to be replaced
             # with values calculated through this solar method.
             single_time.data[:] = 0.0
-- 
2.43.0


From 6f4737f25dc640e7141241c2f01ef02b9b0eaa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 024/133] fix: give each cycle its own forecast period bounds

---
 improver/metadata/forecast_times.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index f05c9ec..a2be4a6 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -125,7 +125,9 @@ def _calculate_forecast_period(
 
     if time_coord.bounds is not None:
         time_bounds = np.array([c.bound for c in time_coord.cells()])
-        required_lead_time_bounds = time_bounds - forecast_reference_time_points
+        required_lead_time_bounds = (
+            time_bounds - forecast_reference_time_points[:, np.newaxis]
+        )
         required_lead_time_bounds = np.array(
             [[b.total_seconds() for b in x] for x in required_lead_time_bounds]
         )
-- 
2.43.0


From 7974418cd7ceee6949ab8cebe9713ca4e72a6775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 025/133] fix: refuse to replace a dimension of forecast
 reference times

---
 improver/metadata/forecast_times.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index a2be4a6..f63675a 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -265,6 +265,11 @@ def unify_cycletime(
     """
     result_cubes = iris.cube.CubeList([])
     for cube in cubes:
+        if cube.coords("forecast_reference_time", dim_coords=True):
+            raise ValueError(
+                "Expecting scalar forecast_reference_time for each input "
+                "cube - cannot replace a dimension coordinate"
+            )
         cube = cube.copy()
         new_frt_coord = _create_frt_type_coord(cube, cycletime)
         cube.remove_coord(new_frt_coord.name())
-- 
2.43.0


From beccfd9514b50fe458ba31fc8601a3ea2c2a3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 026/133] fix: include the ends of a range of negative values

---
 improver/utilities/cube_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_constraints.py b/improver/utilities/cube_constraints.py
index 51aeab6..6c11cba 100644
--- a/improver/utilities/cube_constraints.py
+++ b/improver/utilities/cube_constraints.py
@@ -41,8 +41,8 @@ def create_sorted_lambda_constraint(
     """
     values = [float(i) for i in values]
     values = sorted(values)
-    values[0] = (1.0 - tolerance) * values[0]
-    values[1] = (1.0 + tolerance) * values[1]
+    values[0] = values[0] - tolerance * abs(values[0])
+    values[1] = values[1] + tolerance * abs(values[1])
     constr = iris.Constraint(
         coord_values={coord_name: lambda cell: values[0] <= cell.point <= values[1]}
     )
-- 
2.43.0


From 690edcd66c396a22964c0d150beaf412db10261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 027/133] fix: take a constraint value that is no literal as a
 string

---
 improver/utilities/cube_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index ebf84d2..2478962 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -133,7 +133,7 @@ def parse_constraint_list(
         else:
             try:
                 typed_value = literal_eval(value)
-            except ValueError:
+            except (ValueError, SyntaxError):
                 simple_constraints_dict[key] = value
             else:
                 simple_constraints_dict[key] = create_constraint(typed_value)
-- 
2.43.0


From c7e8cfe6a24474ea7213506498ab6f176a0280a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 028/133] fix: convert units for extraction on a copy of the
 cube

---
 improver/utilities/cube_extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 2478962..4242f40 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -191,6 +191,8 @@ def apply_extraction(
     if units is None:
         output_cube = cube.extract(constraint)
     else:
+        # Units are converted on a copy to leave the input as it is.
+        cube = cube.copy()
         original_units = {}
         for coord in units.keys():
             original_units[coord] = cube.coord(coord).units
@@ -198,7 +200,6 @@ def apply_extraction(
         output_cube = cube.extract(constraint)
         if use_original_units:
             for coord in original_units:
-                cube.coord(coord).convert_units(original_units[coord])
                 try:
                     output_cube.coord(coord).convert_units(original_units[coord])
                 except AttributeError:
-- 
2.43.0


From 32b809b2bc411f51bb643c0705090ada99300c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 029/133] fix: find no match where a range of longitudes or a
 step is given too

---
 improver/utilities/cube_extraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 4242f40..394ffe0 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -206,7 +206,7 @@ def apply_extraction(
                     # an empty output cube (None) is handled by the CLI
                     pass
 
-    if longitude_constraint:
+    if longitude_constraint and output_cube is not None:
         output_cube = output_cube.intersection(
             longitude=longitude_constraint, ignore_bounds=True
         )
@@ -260,7 +260,7 @@ def extract_subcube(
         cube, constraints, units, use_original_units, longitude_constraint
     )
 
-    if thinning_dict:
+    if thinning_dict and output_cube is not None:
         output_cube = thin_cube(output_cube, thinning_dict)
 
     return output_cube
-- 
2.43.0


From 8980cb0494aff795180841a2811ba2981702efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 030/133] fix: thin a range that holds a single point

---
 improver/utilities/cube_extraction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 394ffe0..6d527f2 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -16,7 +16,6 @@ from improver import BasePlugin
 from improver.metadata.constants import FLOAT_DTYPE
 from improver.utilities.common_input_handle import as_cube
 from improver.utilities.cube_constraints import create_sorted_lambda_constraint
-from improver.utilities.cube_manipulation import get_dim_coord_names
 
 
 def parse_range_string_to_dict(value: str) -> Dict[str, str]:
@@ -340,10 +339,10 @@ def thin_cube(cube: Cube, thinning_dict: Dict[str, int]) -> Cube:
     Returns:
         A cube with thinned coordinates.
     """
-    coord_names = get_dim_coord_names(cube)
-    slices = [slice(None, None, None)] * len(coord_names)
+    slices = [slice(None, None, None)] * cube.ndim
     for key, val in thinning_dict.items():
-        slices[coord_names.index(key)] = slice(None, None, val)
+        for dim in cube.coord_dims(key):
+            slices[dim] = slice(None, None, val)
     return cube[tuple(slices)]
 
 
-- 
2.43.0


From 2d306e1d4dc42bebc1df58c7fd2bdaf6e19c2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 031/133] fix: fix: keep a realization dimension of length one
 when flags are applied

---
 improver/standardise.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/improver/standardise.py b/improver/standardise.py
index 5e70fd5..9caa6bf 100644
--- a/improver/standardise.py
+++ b/improver/standardise.py
@@ -8,8 +8,9 @@ from typing import Any, Dict, List, Optional
 
 import numpy as np
 from iris.coords import CellMethod
-from iris.cube import Cube, CubeList
+from iris.cube import Cube
 from iris.exceptions import CoordinateNotFoundError
+from iris.util import broadcast_to_shape
 from numpy import dtype, ndarray
 
 from improver import BasePlugin
@@ -89,24 +90,18 @@ class StandardiseMetadata(BasePlugin):
                 raise ValueError(
                     f"'{coord_name}' coordinate is not of the expected form."
                 )
-            ncube = CubeList()
-
-            try:
-                cube_iterator = cube.slices_over("realization")
-            except CoordinateNotFoundError:
-                cube_iterator = [cube]
-
-            for cc in cube_iterator:
-                coord = cc.coord(coord_name)
-                if np.ma.is_masked(coord.points):
-                    raise ValueError(
-                        f"'{coord_name}' coordinate has unexpected mask values."
-                    )
-                mask = np.asarray(coord.points)
-                cc.data[mask.astype(bool)] = np.nan
-                cc.remove_coord(coord_name)
-                ncube.append(cc)
-            cube = ncube.merge_cube()
+            if np.ma.is_masked(coord.points):
+                raise ValueError(
+                    f"'{coord_name}' coordinate has unexpected mask values."
+                )
+            mask = broadcast_to_shape(
+                np.asarray(coord.points).astype(bool),
+                cube.shape,
+                cube.coord_dims(coord),
+            )
+            cube = cube.copy()
+            cube.data[mask] = np.nan
+            cube.remove_coord(coord_name)
         return cube
 
     @staticmethod
-- 
2.43.0


From 735df5461dfed7475196df70a8bf827e69a3d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 032/133] fix: fill in every current time of an attribute
 template

---
 improver/metadata/amend.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index f4c0b8f..d5a070e 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -35,17 +35,14 @@ def amend_attributes(cube: Cube, attributes_dict: Dict[str, Any]) -> None:
             date format, then this string is replaced with the current
             wall-clock time, formatted as specified.
     """
+    current_time = datetime.now()
     for attribute_name, value in attributes_dict.items():
-        re_now = r"({now:.*})"
-        # We use the DOTALL flag below to tell regex that . should match new-line
-        # characters as well as everything else. Therefore, the match below is for
-        # any string that contains the word now inside curly braces, with a colon
-        # and any format specifier. This now section is returned as a group in
-        # position 1 of has_now, which we will use to format the current time.
-        has_now = re.match(rf".*{re_now}.*", value, re.DOTALL)
-        if has_now:
-            now = has_now[1].format(now=datetime.now())
-            value = re.sub(re_now, now, value)
+        # Each section that contains the word now inside curly braces, with a
+        # colon and any format specifier, is replaced by the current time. The
+        # specifier may contain new-line characters.
+        value = re.sub(
+            r"{now:[^}]*}", lambda match: match[0].format(now=current_time), value
+        )
         if value == "remove":
             cube.attributes.pop(attribute_name, None)
         elif "{}" in value:
-- 
2.43.0


From 967b9f8abf28ddde89c40a5cc35e8725ea9a45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 033/133] fix: accept attribute values that are not strings

---
 improver/metadata/amend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index d5a070e..06d3131 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -37,6 +37,9 @@ def amend_attributes(cube: Cube, attributes_dict: Dict[str, Any]) -> None:
     """
     current_time = datetime.now()
     for attribute_name, value in attributes_dict.items():
+        if not isinstance(value, str):
+            cube.attributes[attribute_name] = value
+            continue
         # Each section that contains the word now inside curly braces, with a
         # colon and any format specifier, is replaced by the current time. The
         # specifier may contain new-line characters.
-- 
2.43.0


From 1b1b16b106b3c88823251707856c6e71732b0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 034/133] fix: copy attributes verbatim

---
 improver/utilities/copy_attributes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/improver/utilities/copy_attributes.py b/improver/utilities/copy_attributes.py
index b624884..b4fdfa8 100644
--- a/improver/utilities/copy_attributes.py
+++ b/improver/utilities/copy_attributes.py
@@ -7,7 +7,6 @@ from typing import List, Tuple, Union
 from iris.cube import Cube, CubeList
 
 from improver import BasePlugin
-from improver.metadata.amend import amend_attributes
 from improver.utilities.common_input_handle import as_cube, as_cubelist
 
 
@@ -48,5 +47,5 @@ class CopyAttributes(BasePlugin):
 
         for cube in cubes_proc:
             new_attributes = {k: template_cube.attributes[k] for k in self.attributes}
-            amend_attributes(cube, new_attributes)
+            cube.attributes.update(new_attributes)
         return cubes if len(cubes) > 1 else cubes[0]
-- 
2.43.0


From 7056da2afb23e6542e0978b0a8b2078f3ecc531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 035/133] fix: regrid the last row and column of the source
 grid whatever the rounding

---
 improver/regrid/bilinear.py | 102 +++---------------------------------
 1 file changed, 6 insertions(+), 96 deletions(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 6b13018..4c9c8c2 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -83,11 +83,14 @@ def basic_indexes(
         Updated array of source grid point number for all target grid points.
         Array shape is (total number of target points, 4).
     """
-    # Calculate input/output offset, expressed in terms of the spacing
+    # Calculate input/output offset, expressed in terms of the spacing. Points on
+    # the last row or column of the source grid belong to the cell before it,
+    # whichever way the offset is rounded.
+    in_lats_size = in_latlons.shape[0] // in_lons_size
     n_lat = (out_latlons[:, 0] - in_latlons[0, 0]) // lat_spacing
     m_lon = (out_latlons[:, 1] - in_latlons[0, 1]) // lon_spacing
-    n_lat = n_lat.astype(int)
-    m_lon = m_lon.astype(int)
+    n_lat = np.clip(n_lat.astype(int), 0, in_lats_size - 2)
+    m_lon = np.clip(m_lon.astype(int), 0, in_lons_size - 2)
 
     # Four surrounding input points for each output point, in a rectangle shape
     index1 = n_lat * in_lons_size + m_lon
@@ -99,99 +102,6 @@ def basic_indexes(
     # note: lat (X) but ordering  (lat0, lon0)(lat0,lon1)....(lat0,lon_last),(lat1,lon0),
     indexes = np.transpose([index1, index2, index3, index4])
 
-    # if identical max latitude and/or longitude between source/target grids,index algorithm
-    # needs change at relevant boundary
-    lat_max_in, lon_max_in = in_latlons.max(axis=0)
-    lat_max_out, lon_max_out = out_latlons.max(axis=0)
-
-    lat_max_equal = np.isclose(lat_max_in, lat_max_out)
-    lon_max_equal = np.isclose(lon_max_in, lon_max_out)
-
-    if lat_max_equal or lon_max_equal:
-        indexes = adjust_boundary_indexes(
-            in_lons_size,
-            lat_max_equal,
-            lon_max_equal,
-            lat_max_in,
-            lon_max_in,
-            out_latlons,
-            indexes,
-        )
-
-    return indexes
-
-
-def adjust_boundary_indexes(
-    in_lons_size: int,
-    lat_max_equal: bool,
-    lon_max_equal: bool,
-    lat_max_in: float,
-    lon_max_in: float,
-    out_latlons: ndarray,
-    indexes: ndarray,
-) -> ndarray:
-    """
-    Adjust surrounding source point indexes for boundary target points.
-    it is required when maximum latitude and logitude are identical between
-    source and target grids.
-
-    Args:
-        in_lons_size:
-            Source grid's longitude dimension.
-        lat_max_equal:
-            Whether maximum latitude is identical between source/targin grids.
-        lon_max_equal:
-            Whether maximum longitude is identical between source/targin grids.
-        lat_max_in:
-            Input grid's maximum latitude.
-        lon_max_in:
-            Input grid's maximum longtitude.
-        out_latlons:
-            Target points's latitude-longitudes.
-        indexes:
-            Updated array of source grid point number for all target grid points.
-
-    Returns:
-        Updated array of source grid point number for all target grid points.
-        Array shape is (total number of target points, 4).
-    """
-    # find a list of target points with its latitude
-    if lat_max_equal:
-        point_lat_max = np.where(np.isclose(out_latlons[:, 0], lat_max_in))[0]
-    if lon_max_equal:
-        point_lon_max = np.where(np.isclose(out_latlons[:, 1], lon_max_in))[0]
-
-    if lon_max_equal and lat_max_equal:
-        point_lat_lon_max_index = np.where(
-            np.isclose(out_latlons[point_lat_max, 1], lon_max_in)
-        )[0]
-
-        # if point_lat_lon_max_index exists, handle it.
-        if point_lat_lon_max_index:
-            point_lat_lon_max = point_lat_max[point_lat_lon_max_index[0]]
-            point_lat_max = np.delete(
-                point_lat_max, np.where(point_lat_max == point_lat_lon_max)[0]
-            )
-            point_lon_max = np.delete(
-                point_lon_max, np.where(point_lon_max == point_lat_lon_max)[0]
-            )
-            indexes[point_lat_lon_max, 2] = indexes[point_lat_lon_max, 0]
-            indexes[point_lat_lon_max, 1] = indexes[point_lat_lon_max, 2] - 1
-            indexes[point_lat_lon_max, 0] = indexes[point_lat_lon_max, 1] - in_lons_size
-            indexes[point_lat_lon_max, 3] = indexes[point_lat_lon_max, 0] + 1
-
-    if lat_max_equal:
-        indexes[point_lat_max, 1] = indexes[point_lat_max, 0]
-        indexes[point_lat_max, 2] = indexes[point_lat_max, 1] + 1
-        indexes[point_lat_max, 0] = indexes[point_lat_max, 1] - in_lons_size
-        indexes[point_lat_max, 3] = indexes[point_lat_max, 0] + 1
-
-    if lon_max_equal:
-        indexes[point_lon_max, 0] = indexes[point_lon_max, 0] - 1
-        indexes[point_lon_max, 1] = indexes[point_lon_max, 1] - 1
-        indexes[point_lon_max, 2] = indexes[point_lon_max, 1] + 1
-        indexes[point_lon_max, 3] = indexes[point_lon_max, 0] + 1
-
     return indexes
 
 
-- 
2.43.0


From 0502425d2fa1202cefbb7d89b599ad04c81a3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 036/133] fix: regrid cubes with dimensions that have no
 standard name

---
 improver/regrid/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 0157aca..6336060 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -79,7 +79,7 @@ def get_cube_coord_names(cube: Cube) -> List[str]:
     Returns:
         List of coordinate names.
     """
-    return [coord.standard_name for coord in cube.dim_coords]
+    return [coord.name() for coord in cube.dim_coords]
 
 
 def latlon_names(cube: Cube) -> Tuple[str, str]:
-- 
2.43.0


From cff8f5dfc7059ce5094e83aa426a9eb572d02c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 037/133] fix: keep cell methods on regridding

---
 improver/regrid/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 6336060..6a99916 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -352,7 +352,12 @@ def create_regrid_cube(cube_array: ndarray, cube_in: Cube, cube_out: Cube) -> Cu
         Regridded result cube
     """
     # generate a cube based on new data and cube_in
-    cube_v = Cube(cube_array, units=cube_in.units, attributes=cube_in.attributes)
+    cube_v = Cube(
+        cube_array,
+        units=cube_in.units,
+        attributes=cube_in.attributes,
+        cell_methods=cube_in.cell_methods,
+    )
     cube_v.rename(cube_in.standard_name or cube_in.long_name)
     cube_v.var_name = cube_in.var_name
 
-- 
2.43.0


From 426a93add7a5e22f3423499ec15af66cdd27ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 038/133] fix: regrid cubes whatever the order of their
 dimensions

---
 improver/regrid/grid.py     | 24 +++++++++++++++++++++++-
 improver/regrid/landsea2.py |  8 ++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 6a99916..ffe9d5a 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -14,10 +14,32 @@ from numpy import ndarray
 from numpy.ma.core import MaskedArray
 from scipy.interpolate import RegularGridInterpolator
 
-from improver.utilities.cube_manipulation import sort_coord_in_cube
+from improver.utilities.cube_manipulation import (
+    enforce_coordinate_ordering,
+    sort_coord_in_cube,
+)
 from improver.utilities.spatial import calculate_grid_spacing, lat_lon_determine
 
 
+def ensure_trailing_spatial_dims(cube: Cube) -> Cube:
+    """
+    Check if the y and x dimensions come last, in this order. If not, reorder
+    the dimensions of a copy of the cube.
+
+    Args:
+        cube:
+            Input source cube.
+
+    Returns:
+        Cube with trailing y and x dimensions
+    """
+    spatial_names = [cube.coord(axis=ax, dim_coords=True).name() for ax in ("y", "x")]
+    if get_cube_coord_names(cube)[-2:] != spatial_names:
+        cube = cube.copy()
+        enforce_coordinate_ordering(cube, spatial_names, anchor_start=False)
+    return cube
+
+
 def ensure_ascending_coord(cube: Cube) -> Cube:
     """
     Check if cube coordinates ascending. if not, make it ascending
diff --git a/improver/regrid/landsea2.py b/improver/regrid/landsea2.py
index e2685f4..9feeb81 100644
--- a/improver/regrid/landsea2.py
+++ b/improver/regrid/landsea2.py
@@ -23,6 +23,7 @@ from improver.regrid.grid import (
     classify_output_surface_type,
     create_regrid_cube,
     ensure_ascending_coord,
+    ensure_trailing_spatial_dims,
     flatten_spatial_dimensions,
     group_target_points_with_source_domain,
     latlon_from_cube,
@@ -94,9 +95,12 @@ class RegridWithLandSeaMask(PostProcessingPlugin):
         """
         # if cube_in's coordinate descending, make it assending.
         # if mask considered, reverse mask cube's coordinate if descending
-        cube_in = ensure_ascending_coord(cube_in)
+        cube_in = ensure_ascending_coord(ensure_trailing_spatial_dims(cube_in))
         if WITH_MASK in self.regrid_mode:
-            cube_in_mask = ensure_ascending_coord(cube_in_mask)
+            cube_in_mask = ensure_ascending_coord(
+                ensure_trailing_spatial_dims(cube_in_mask)
+            )
+            cube_out_mask = ensure_trailing_spatial_dims(cube_out_mask)
 
         # check if input source grid is on even-spacing, ascending lat/lon system
         # return grid spacing for latitude and logitude
-- 
2.43.0


From 365150fca91296b31fd566a6d31cb7fb8ac5963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 039/133] fix: ignore missing values at source points that are
 excluded

---
 improver/regrid/bilinear.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 4c9c8c2..79f57ee 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -47,8 +47,14 @@ def apply_weights(
         in_values = np.ma.filled(in_values, np.nan)
     in_values_expanded = in_values[indexes]
 
+    # source points without weight do not contribute, even if they are missing
+    weights_transposed = np.transpose(weights)
     weighted = np.transpose(
-        np.multiply(np.transpose(weights), np.transpose(in_values_expanded))
+        np.where(
+            weights_transposed == 0,
+            np.float32(0),
+            np.multiply(weights_transposed, np.transpose(in_values_expanded)),
+        )
     )
     out_values = np.sum(weighted, axis=1)
     if input_array_masked:
-- 
2.43.0


From ed9a2abe6b384e400bad104623799ae434cec30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 040/133] fix: make the weights of bilinear regridding sum to
 one

The distance to the far side of a cell was taken from the rounded sum of its
near side and the grid spacing, so that a constant field lost up to a part in
ten thousand of its value far from the coordinate origin.
---
 improver/regrid/bilinear.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 79f57ee..f3cb9eb 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -148,12 +148,12 @@ def basic_weights(
     # Input point 1 - left bottom input point
     lat_1 = in_latlons[indexes[index_range, 0], 0]
     lon_1 = in_latlons[indexes[index_range, 0], 1]
-    # Input point 2 - left-top input point
-    lat2_lat = lat_1 + lat_spacing - out_lats
-    # Input point 3 - right top input point
-    lon3_lon = lon_1 + lon_spacing - out_lons
     lon_lon1 = out_lons - lon_1
     lat_lat1 = out_lats - lat_1
+    # Input point 2 - left-top input point
+    lat2_lat = lat_spacing - lat_lat1
+    # Input point 3 - right top input point
+    lon3_lon = lon_spacing - lon_lon1
     # Input point 4 (right-bottom) is implied by the others
 
     weight1 = lat2_lat * lon3_lon / latlon_area
@@ -345,15 +345,15 @@ def one_mismatched_input_point(
 
         # Calculate updated weights
         if i == 0:
-            lat2_lat = lat_1 + lat_spacing - out_lats
-            lon3_lon = lon_1 + lon_spacing - out_lons
+            lat2_lat = lat_spacing - (out_lats - lat_1)
+            lon3_lon = lon_spacing - (out_lons - lon_1)
             weight2 = lat_spacing * lon3_lon / lat_lon_area
             weight4 = lat2_lat * lon_spacing / lat_lon_area
             weight1 = np.zeros(weight2.shape[0], dtype=np.float32)
             weight3 = np.ones(weight2.shape[0], dtype=np.float32)
             weight3 -= weight2 + weight4
         elif i == 1:
-            lon3_lon = lon_1 + lon_spacing - out_lons
+            lon3_lon = lon_spacing - (out_lons - lon_1)
             lat_lat1 = out_lats - lat_1
             weight1 = lat_spacing * lon3_lon / lat_lon_area
             weight3 = lat_lat1 * lon_spacing / lat_lon_area
@@ -369,7 +369,7 @@ def one_mismatched_input_point(
             weight1 = np.ones(weight2.shape[0], dtype=np.float32)
             weight1 -= weight2 + weight4
         else:  # i == 3
-            lat2_lat = lat_1 + lat_spacing - out_lats
+            lat2_lat = lat_spacing - (out_lats - lat_1)
             lon_lon1 = out_lons - lon_1
             weight3 = lat_spacing * lon_lon1 / lat_lon_area
             weight1 = lat2_lat * lon_spacing / lat_lon_area
-- 
2.43.0


From c128d47c12fd3906d6303300da2557417a60cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 041/133] fix: keep the coordinates of a cube whose grid
 distances are taken

---
 improver/utilities/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 5655e8e..93fea4e 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -458,8 +458,8 @@ class DistanceBetweenGridSquares(BasePlugin):
             Boolean representing whether the cube has x and y axes defined in a distance unit.
         """
         try:
-            cube.coord(axis="x").convert_units("m")
-            cube.coord(axis="y").convert_units("m")
+            cube.coord(axis="x").copy().convert_units("m")
+            cube.coord(axis="y").copy().convert_units("m")
             return True
         except (
             TypeError,
-- 
2.43.0


From a3dcbd3c17cb2bbdf606a2e9435ec8d58aa6f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 042/133] fix: take differences around a circular axis whatever
 the number of dimensions

---
 improver/utilities/spatial.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 93fea4e..13e0aa5 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -597,16 +597,15 @@ class DifferenceBetweenAdjacentGridSquares(BasePlugin):
         diff_along_axis = np.diff(cube.data, axis=diff_axis_number)
         if self._axis_wraps_around_meridian(diff_axis, cube):
             # Get wrap-around difference:
-            first_column = np.take(cube.data, indices=0, axis=diff_axis_number)
-            last_column = np.take(cube.data, indices=-1, axis=diff_axis_number)
+            first_column = np.take(cube.data, indices=[0], axis=diff_axis_number)
+            last_column = np.take(cube.data, indices=[-1], axis=diff_axis_number)
             wrap_around_diff = first_column - last_column
-            # Apply wrap-around difference vector to diff array:
-            if diff_axis_number == 0:
-                diff_along_axis = np.vstack([diff_along_axis, wrap_around_diff])
-            elif diff_axis_number == 1:
-                diff_along_axis = np.hstack(
-                    [diff_along_axis, wrap_around_diff.reshape([-1, 1])]
-                )
+            # Apply wrap-around difference to diff array:
+            diff_along_axis = np.ma.concatenate(
+                [diff_along_axis, wrap_around_diff], axis=diff_axis_number
+            )
+            if not np.ma.isMaskedArray(cube.data):
+                diff_along_axis = diff_along_axis.data
         return diff_along_axis
 
     def process(self, cube: Cube) -> Tuple[Cube, Cube]:
-- 
2.43.0


From 7b53151bebfe857396037b228052e38839bb6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 043/133] fix: calculate distances on projected grids of cubes
 with leading dimensions

---
 improver/utilities/spatial.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 13e0aa5..7727656 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -366,7 +366,11 @@ class ProjectionCubeDistanceCalculator(BaseDistanceCalculator):
         """
         x_distances = calculate_grid_spacing(self.cube, axis="x", units="m")
         data = np.full(
-            (self.cube.shape[0], len(self.x_separations_axis.points)), x_distances
+            (
+                len(self.cube.coord("projection_y_coordinate").points),
+                len(self.x_separations_axis.points),
+            ),
+            x_distances,
         )
         dims = [
             (self.cube.coord("projection_y_coordinate"), 0),
@@ -386,7 +390,10 @@ class ProjectionCubeDistanceCalculator(BaseDistanceCalculator):
         """
         y_grid_spacing = calculate_grid_spacing(self.cube, axis="y", units="m")
         data = np.full(
-            (len(self.y_separation_axis.points), self.cube.data.shape[1]),
+            (
+                len(self.y_separation_axis.points),
+                len(self.cube.coord("projection_x_coordinate").points),
+            ),
             y_grid_spacing,
         )
         dims = [
-- 
2.43.0


From 396ddc78b23f11edfeb0a6b2c10b2dee0d561cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 044/133] fix: give gradients along descending projected axes
 the right sign

---
 improver/utilities/spatial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 7727656..697172b 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -708,7 +708,11 @@ class GradientBetweenAdjacentGridSquares(PostProcessingPlugin):
         gradients = []
         diffs = DifferenceBetweenAdjacentGridSquares()(cube)
         distances = DistanceBetweenGridSquares()(cube)
-        for diff, distance in zip(diffs, distances):
+        for axis, diff, distance in zip(["x", "y"], diffs, distances):
+            # Differences are taken in the order of the points, so that the distances
+            # are negative where the points descend.
+            if cube.coord(axis=axis).points[0] > cube.coord(axis=axis).points[-1]:
+                distance.data = -np.abs(distance.data)
             gradient = diff / distance
             grad_cube = self._create_output_cube(gradient, "gradient_of_" + cube.name())
             if self.regrid:
-- 
2.43.0


From 733f8f5192500cb98b5d73b62c52d21b7fb9bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 045/133] fix: compare all increments of a coordinate that is
 padded

---
 improver/utilities/pad_spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/pad_spatial.py b/improver/utilities/pad_spatial.py
index 7a381b6..365890e 100644
--- a/improver/utilities/pad_spatial.py
+++ b/improver/utilities/pad_spatial.py
@@ -48,7 +48,7 @@ def pad_coord(coord: Coord, width: int, method: str) -> Coord:
     """
     orig_points = coord.points
     increment = orig_points[1:] - orig_points[:-1]
-    if np.isclose(np.sum(np.diff(increment)), 0):
+    if np.allclose(increment, increment[0], rtol=1e-3, atol=0):
         increment = increment[0]
     else:
         msg = "Non-uniform increments between grid points: {}.".format(increment)
-- 
2.43.0


From b312aa2b0627cee673e00dc03d7596cc69f30675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 046/133] fix: pad halos of one cell and with all methods of
 numpy.pad

---
 improver/utilities/pad_spatial.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/improver/utilities/pad_spatial.py b/improver/utilities/pad_spatial.py
index 365890e..d1892f4 100644
--- a/improver/utilities/pad_spatial.py
+++ b/improver/utilities/pad_spatial.py
@@ -196,13 +196,12 @@ def pad_cube_with_halo(
 
     # Pad a halo around the original data with the extent of the halo
     # given by width_y and width_x.
-    kwargs = {
-        "stat_length": ((width_y // 2, width_y // 2), (width_x // 2, width_x // 2))
-    }
-    if pad_method == "constant":
+    kwargs = {}
+    if pad_method in ["maximum", "mean", "median", "minimum"]:
+        stat_y, stat_x = max(width_y // 2, 1), max(width_x // 2, 1)
+        kwargs = {"stat_length": ((stat_y, stat_y), (stat_x, stat_x))}
+    elif pad_method == "constant":
         kwargs = {"constant_values": (0.0, 0.0)}
-    if pad_method == "symmetric":
-        kwargs = {}
 
     padded_data = np.pad(
         cube.data, ((width_y, width_y), (width_x, width_x)), mode=pad_method, **kwargs
-- 
2.43.0


From 4618323cee62d335d1490e8c520a71ddf6323a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 047/133] fix: wrap tiny negative angles to 0 rather than 360
 in complex_to_deg

---
 improver/utilities/complex_conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/complex_conversion.py b/improver/utilities/complex_conversion.py
index b44ee60..fd4781a 100644
--- a/improver/utilities/complex_conversion.py
+++ b/improver/utilities/complex_conversion.py
@@ -61,6 +61,8 @@ def complex_to_deg(complex_in: ndarray) -> ndarray:
 
     # Convert angles so they are in the range [0, 360)
     angle = np.mod(np.float32(angle), 360)
+    # The remainder of a tiny negative angle rounds up to 360, so wrap again.
+    angle = np.mod(angle, 360)
 
     # We don't need 64 bit precision.
     angle = angle.astype(np.float32)
-- 
2.43.0


From 38b6c338f50abfd50b9b12829bcbf759ca7efbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 048/133] fix: treat an integration start or end point of zero
 as a limit

---
 improver/utilities/mathematical_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/mathematical_operations.py b/improver/utilities/mathematical_operations.py
index df6e16f..c1b6b63 100644
--- a/improver/utilities/mathematical_operations.py
+++ b/improver/utilities/mathematical_operations.py
@@ -242,12 +242,12 @@ class Integration(BasePlugin):
             """Conditions under which a slice should not be included in
             the integrated total.  All inputs (except the string "direction")
             are floats."""
-            if start_point:
+            if start_point is not None:
                 if direction and lower_bound < start_point:
                     return True
                 if not direction and upper_bound > start_point:
                     return True
-            if end_point:
+            if end_point is not None:
                 if direction and upper_bound > end_point:
                     return True
                 if not direction and lower_bound < end_point:
-- 
2.43.0


From f27b41e8f96b75088856d3134eee371e5320323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 049/133] fix: leave the mask cube unchanged in apply_mask

---
 improver/utilities/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/mask.py b/improver/utilities/mask.py
index db3b4af..3cc1348 100644
--- a/improver/utilities/mask.py
+++ b/improver/utilities/mask.py
@@ -53,6 +53,8 @@ def apply_mask(
     mask = cubes.extract_cube(mask_name)
     cubes.remove(mask)
     cube = cubes[0]
+    # The mask may be used again, so work on a copy.
+    mask = mask.copy()
 
     # Ensure mask is in a boolean form and invert if requested
     mask.data = mask.data.astype(np.bool)
-- 
2.43.0


From 25516ab3ad69f898965e90da3f4a8adfe5f86843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 050/133] fix: collapse a single realization in FieldTexture

---
 improver/utilities/textural.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/improver/utilities/textural.py b/improver/utilities/textural.py
index 3a2fa04..9846fac 100644
--- a/improver/utilities/textural.py
+++ b/improver/utilities/textural.py
@@ -236,6 +236,13 @@ class FieldTexture(BasePlugin):
             ratios
         )
 
+        # A single realization is merged to a scalar coordinate, which cannot
+        # be collapsed.
+        if thresholded.coords("realization") and not thresholded.coord_dims(
+            "realization"
+        ):
+            thresholded = iris.util.new_axis(thresholded, "realization")
+
         # Squeeze scalar threshold coordinate.
         try:
             field_texture = iris.util.squeeze(collapse_realizations(thresholded))
-- 
2.43.0


From 8d3129cd7d748c3aa98d7ad4a4e2ea8bccbc3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 051/133] fix: fall back to the nearest neighbours where there
 is no land

---
 improver/spotdata/neighbour_finding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index 1f345a9..ff3c000 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -509,8 +509,11 @@ class NeighbourSelection(BasePlugin):
         )
 
         # If further constraints are being applied, build a KD Tree which
-        # includes points filtered by constraint.
-        if self.land_constraint or self.minimum_dz:
+        # includes points filtered by constraint. If there is no land on which
+        # to find a neighbour the nearest neighbours are used.
+        if (self.land_constraint and np.any(land_mask.data)) or (
+            self.minimum_dz and not self.land_constraint
+        ):
             # Build the KDTree, an internal test for the land_constraint checks
             # whether to exclude sea points from the tree.
             tree, index_nodes = self.build_KDTree(land_mask)
-- 
2.43.0


From e1f83acb7406f95e37535157b39b1e2ede683372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:19 +0000
Subject: [PATCH 052/133] fix: allow a single neighbour to be considered in
 NeighbourSelection

---
 improver/spotdata/neighbour_finding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index ff3c000..7b9d53e 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -543,7 +543,7 @@ class NeighbourSelection(BasePlugin):
                 distances, node_indices = tree.query(
                     [site_coords],
                     distance_upper_bound=self.search_radius,
-                    k=self.node_limit,
+                    k=np.arange(1, self.node_limit + 1),
                 )
                 # Loop over the sites and for each choose the returned
                 # neighbour with the minimum vertical displacement.
-- 
2.43.0


From a8eaf49d3529f76f0d538f28b586169d2ef6ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 053/133] fix: copy coordinates of length-one dimensions once
 in SpotExtraction

---
 improver/spotdata/spot_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index 6cf91b7..933844f 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -143,7 +143,7 @@ class SpotExtraction(BasePlugin):
                 nonscalar_coords.append(
                     coord.copy(points=coord_points, bounds=coord_bounds)
                 )
-            elif coord.points.size == 1:
+            elif not diagnostic_cube.coord_dims(coord):
                 scalar_coords.append(coord)
         return scalar_coords, nonscalar_coords
 
-- 
2.43.0


From 47f9e194b4891aff9762bbbdd3bfad02167c5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 054/133] fix: accept a single percentile in SpotManipulation

---
 improver/spotdata/spot_manipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_manipulation.py b/improver/spotdata/spot_manipulation.py
index 859e555..1adb6be 100644
--- a/improver/spotdata/spot_manipulation.py
+++ b/improver/spotdata/spot_manipulation.py
@@ -204,7 +204,9 @@ class SpotManipulation(BasePlugin):
         # to minimise processing time; usually there are far fewer spot sites than
         # grid points.
         if self.extract_percentiles:
-            extract_percentiles = [np.float32(x) for x in self.extract_percentiles]
+            extract_percentiles = [
+                np.float32(x) for x in np.atleast_1d(self.extract_percentiles)
+            ]
             try:
                 perc_coordinate = find_percentile_coordinate(result)
             except CoordinateNotFoundError:
-- 
2.43.0


From d8679d1e85367f52eea3f3f37913d6554260eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 055/133] fix: keep the end values beyond the thresholds in
 SpotHeightAdjustment

---
 improver/spotdata/height_adjustment.py | 56 ++++++--------------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/improver/spotdata/height_adjustment.py b/improver/spotdata/height_adjustment.py
index 9335f00..093814a 100644
--- a/improver/spotdata/height_adjustment.py
+++ b/improver/spotdata/height_adjustment.py
@@ -5,14 +5,11 @@
 
 """Applies height adjustment for height above ground level spot forecasts."""
 
-from itertools import product
-
 import iris
 import numpy as np
 from iris.coords import DimCoord
 from iris.cube import Cube
 from iris.exceptions import CoordinateNotFoundError
-from scipy.interpolate import LinearNDInterpolator
 
 from improver import BasePlugin
 from improver.metadata.probabilistic import find_threshold_coordinate, is_probability
@@ -75,48 +72,19 @@ class SpotHeightAdjustment(BasePlugin):
         enforce_coordinate_ordering(
             spot_cube, ["spot_index", self.threshold_coord.name()]
         )
-        n_sites = len(spot_cube.coord("spot_index").points)
-        n_thresholds = len(self.threshold_coord.points)
-
         thresholds = self.threshold_coord.points
-        spot_index = spot_cube.coord("spot_index").points
-        shape = spot_cube.shape
-
-        # Maximum probability over all thresholds for each site.
-        broadcast_max = np.transpose(
-            np.broadcast_to(np.amax(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-        # Minimum probability over all thresholds for each site.
-        broadcast_min = np.transpose(
-            np.broadcast_to(np.amin(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-
-        broadcast_thresholds = np.broadcast_to(thresholds, (n_sites, n_thresholds))
-        broadcast_vertical_displacement = np.transpose(
-            np.broadcast_to(vertical_displacement.data, (n_thresholds, n_sites),)
-        )
-        desired_thresholds = broadcast_thresholds + broadcast_vertical_displacement.data
-
-        # creates a list of pairs of values of spot index with the thresholds that need to
-        # be calculated for the spot index
-        coord = list(product(spot_index, thresholds))
-        needed_pair = []
-        for index, threshold in zip(spot_index, desired_thresholds):
-            needed_pair.extend(list(product([index], threshold)))
-
-        # interpolate across the cube and request needed thresholds
-        interp = LinearNDInterpolator(coord, spot_cube.data.flatten())
-        spot_data = np.reshape(interp(needed_pair), shape)
-
-        # Points outside the range of the original data return NAN. These points are replaced
-        # with the highest or lowest along the axis depending on the whether the vertical
-        # displacement was positive or negative
-        indices = np.where(np.isnan(spot_data))
-        spot_data[indices] = np.where(
-            broadcast_vertical_displacement[indices] > 0,
-            broadcast_max[indices],
-            broadcast_min[indices],
-        )
+        ascending = np.argsort(thresholds)
+        spot_data = np.empty(spot_cube.shape)
+
+        # Interpolate between the thresholds at each site. Desired thresholds
+        # outside the range of the original thresholds use the probability of the
+        # highest or lowest original threshold.
+        for index, displacement in enumerate(vertical_displacement.data):
+            spot_data[index] = np.interp(
+                thresholds + displacement,
+                thresholds[ascending],
+                spot_cube.data[index][ascending],
+            )
         spot_cube.data = spot_data
         return spot_cube
 
-- 
2.43.0


From 429960812090525280a20ef120b4d7ceb8f1ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 056/133] fix: match the order of temperature and orography
 dimensions in LapseRate

---
 improver/lapse_rate.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 7c562a6..88c1bf8 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -436,11 +436,15 @@ class LapseRate(BasePlugin):
         # Fill sea points with NaN values.
         orography_data = np.where(land_sea_mask_data, orography_data, np.nan)
 
+        # Match the order of the spatial dimensions of the orography data.
+        original_dimension_order = get_dim_coord_names(temperature_cube)
+        enforce_coordinate_ordering(
+            temperature_cube, [y_coord, x_coord], anchor_start=False
+        )
+
         # Create list of arrays over "realization" coordinate
         has_realization_dimension = False
-        original_dimension_order = None
         if temperature_cube.coords("realization", dim_coords=True):
-            original_dimension_order = get_dim_coord_names(temperature_cube)
             enforce_coordinate_ordering(temperature_cube, "realization")
             temp_data_slices = temperature_cube.data
             has_realization_dimension = True
@@ -469,7 +473,6 @@ class LapseRate(BasePlugin):
             data=lapse_rate_data,
         )
 
-        if original_dimension_order:
-            enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
+        enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
 
         return lapse_rate_cube
-- 
2.43.0


From 95704fb6a2b166a2733078d9f7cfcca9dc0abf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 057/133] fix: refuse lapse rates with dimensions the
 temperature lacks

---
 improver/lapse_rate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 88c1bf8..a2b7f08 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -119,6 +119,13 @@ class ApplyGriddedLapseRate(PostProcessingPlugin):
                 raise ValueError(
                     "Lapse rate cube has no coordinate " '"{}"'.format(crd.name())
                 )
+        for crd in lapse_rate.coords(dim_coords=True):
+            if not temperature.coords(crd.name(), dim_coords=True):
+                raise ValueError(
+                    'Temperature cube has no dimension coordinate "{}"'.format(
+                        crd.name()
+                    )
+                )
 
     def _calc_orog_diff(self, source_orog: Cube, dest_orog: Cube) -> Cube:
         """Get difference in orography heights, in metres
-- 
2.43.0


From 8fcf8b7eded227945f45a031fa0eb007871baad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 058/133] fix: pair lapse rates and temperatures in the same
 order of dimensions

---
 improver/lapse_rate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index a2b7f08..b35576a 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -171,6 +171,10 @@ class ApplyGriddedLapseRate(PostProcessingPlugin):
 
         self._check_dim_coords(temperature, lapse_rate)
 
+        # Ensure the slices of the two cubes are taken in the same order.
+        lapse_rate = lapse_rate.copy()
+        enforce_coordinate_ordering(lapse_rate, get_dim_coord_names(temperature))
+
         if not spatial_coords_match([temperature, source_orog]):
             raise ValueError(
                 "Source orography spatial coordinates do not match temperature grid"
-- 
2.43.0


From c3e2b52f972d565f92e0bd72f941f8a9794ce6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 059/133] fix: recognise neighbourhoods without variation in
 LapseRate

---
 improver/lapse_rate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index b35576a..4b96e24 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -371,10 +371,14 @@ class LapseRate(BasePlugin):
                 orog, temp, axis=axis, gradient_only=True, with_nan=True
             )
 
-            # Checks that the standard deviations are not 0
+            # Checks that the ranges are not 0
             # i.e. there is some variance to fit a gradient to.
-            tempcheck = np.isclose(np.nanstd(temp, axis=axis), 0)
-            orogcheck = np.isclose(np.nanstd(orog, axis=axis), 0)
+            tempcheck = np.isclose(
+                np.nanmax(temp, axis=axis) - np.nanmin(temp, axis=axis), 0
+            )
+            orogcheck = np.isclose(
+                np.nanmax(orog, axis=axis) - np.nanmin(orog, axis=axis), 0
+            )
             # checks that our central point in the neighbourhood
             # is not nan
             temp_nan_check = np.isnan(temp[..., cnpt, cnpt])
-- 
2.43.0


From dadcb5461486b0d1b3d4b51c085ae97b5bedbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 060/133] fix: pair forecasts and references in the same order
 of dimensions

---
 improver/utilities/forecast_reference_enforcement.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 594dfa0..274b5b3 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -13,6 +13,7 @@ from iris.cube import Cube, CubeList
 
 from improver import PostProcessingPlugin
 from improver.metadata.probabilistic import is_probability
+from improver.utilities.cube_manipulation import enforce_coordinate_ordering
 
 
 class EnforceConsistentForecasts(PostProcessingPlugin):
@@ -132,6 +133,15 @@ class EnforceConsistentForecasts(PostProcessingPlugin):
                 )
                 raise ValueError(msg)
 
+        # ensure that values are paired by location, whatever the dimension order
+        dim_names = [coord.name() for coord in forecast.coords(dim_coords=True)]
+        ref_dim_names = [
+            coord.name() for coord in reference_forecast.coords(dim_coords=True)
+        ]
+        if dim_names != ref_dim_names and set(dim_names) == set(ref_dim_names):
+            reference_forecast = reference_forecast.copy()
+            enforce_coordinate_ordering(reference_forecast, dim_names)
+
         # linear transformation cannot be applied to probability forecasts
         if self.additive_amount != 0.0 or self.multiplicative_amount != 1.0:
             if is_probability(forecast):
-- 
2.43.0


From 01fd16d2edfebf24a1196d361ce1f051c66fa913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 061/133] fix: refuse references in another order of dimensions
 in normalise_to_reference

---
 improver/utilities/forecast_reference_enforcement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 274b5b3..99d67be 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -288,7 +288,9 @@ def normalise_to_reference(
                     coord_mismatch = True
                     mismatching_coords[cube.name()].append(dim_coord.name())
                     continue
-                if not dim_coord == reference_coord:
+                if not dim_coord == reference_coord or (
+                    cube.coord_dims(dim_coord) != reference.coord_dims(reference_coord)
+                ):
                     coord_mismatch = True
                     mismatching_coords[cube.name()].append(dim_coord.name())
 
-- 
2.43.0


From 03067c965a9b38cafce82a3b8f518034495b50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 062/133] fix: keep missing values in the total of
 normalise_to_reference

---
 improver/utilities/forecast_reference_enforcement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 99d67be..5330229 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -314,7 +314,7 @@ def normalise_to_reference(
     total = cubes[0].data.copy()
     if len(cubes) > 1:
         for cube in cubes[1:]:
-            total += cube.data
+            total = total + cube.data
 
     # check for zeroes in total when reference is non-zero
     total_zeroes = total == 0.0
-- 
2.43.0


From e3684048204ff54468a418cae34bf7762d6465a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 063/133] fix: leave the given decision tree unchanged in
 ApplyDecisionTree

---
 improver/categorical/decision_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..0292e1b 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -128,7 +128,8 @@ class ApplyDecisionTree(BasePlugin):
         self.title = title
         self.meta = decision_tree["meta"]
         self.queries = update_tree_thresholds(
-            {k: v for k, v in decision_tree.items() if k != "meta"}, target_period
+            {k: copy.deepcopy(v) for k, v in decision_tree.items() if k != "meta"},
+            target_period,
         )
         self.float_tolerance = 0.01
         self.float_abs_tolerance = 1e-12
-- 
2.43.0


From 04fe522e56437fc5857e01085c639bdd991a1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 064/133] fix: keep dimensions of length one in ModalCategory

---
 improver/categorical/modal_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 0c09b3a..6475d98 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -166,7 +166,7 @@ class ModalCategory(BasePlugin):
         mode_result[counts < minimum_significant_count] = (
             self.code_max - self.unset_code_indicator
         )
-        return self.code_max - np.squeeze(mode_result)
+        return self.code_max - np.squeeze(mode_result, axis=0)
 
     @staticmethod
     def _set_blended_times(cube: Cube) -> None:
-- 
2.43.0


From 2b77e6ebc33688fe2d7bf6a3f4b1cc12d32adaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 065/133] fix: evaluate sums and differences from left to right
 in decision trees

---
 improver/categorical/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 0292e1b..06620a6 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -702,10 +702,10 @@ class ApplyDecisionTree(BasePlugin):
                         + curr_expression[idx + 1 :]
                     )
             # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            for op_strs in [["/"], ["*"], ["+", "-"]]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and (item in op_strs):
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -716,7 +716,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From 54398c5cc07032e95b11b58726039fe21da69e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 066/133] fix: start each use of ApplyDecisionTree from the
 configured tree

---
 improver/categorical/decision_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 06620a6..3f6fd38 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -131,6 +131,8 @@ class ApplyDecisionTree(BasePlugin):
             {k: copy.deepcopy(v) for k, v in decision_tree.items() if k != "meta"},
             target_period,
         )
+        # the tree as configured, from which each use of the plugin starts
+        self._configured_tree = (self.queries, self.start_node)
         self.float_tolerance = 0.01
         self.float_abs_tolerance = 1e-12
         # flag to indicate whether to expect "threshold" as a coordinate name
@@ -807,6 +809,10 @@ class ApplyDecisionTree(BasePlugin):
         Returns:
             A cube of categorical data.
         """
+        # Start from the configured tree, as an earlier use of the plugin may have
+        # rerouted it around diagnostics that were missing then.
+        self.queries, self.start_node = copy.deepcopy(self._configured_tree)
+
         # Check input cubes contain required data and return only those that
         # are needed to speed up later cube extractions.
         cubes, optional_node_data_missing = self.prepare_input_cubes(*cubes)
-- 
2.43.0


From 6f31adbb0012b6547fdfb94fb0765765ad6d05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 067/133] fix: follow decision tree nodes whose outcomes lead
 the same way

---
 improver/categorical/decision_tree.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 3f6fd38..7d569c4 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -848,14 +848,23 @@ class ApplyDecisionTree(BasePlugin):
                     current = copy.copy(self.queries[current_node])
                     next_node = route[i_node + 1]
 
+                    # Skip leaf nodes, and nodes for which both outcomes lead to the
+                    # next node, e.g. having been rerouted around missing nodes.
+                    if current.get("if_true") == current.get("if_false"):
+                        continue
+
                     if current.get("if_false") == next_node:
 
                         (
                             current["threshold_condition"],
                             current["condition_combination"],
                         ) = self.invert_condition(current)
-                    if "leaf" not in current.keys():
-                        conditions.append(self.create_condition_chain(current))
+                    conditions.append(self.create_condition_chain(current))
+
+                # No conditions means that every point follows this route
+                if not conditions:
+                    categories.data[...] = category_code
+                    continue
                 test_chain = [conditions, "AND"]
 
                 # Set grid locations to suitable category
-- 
2.43.0


From aaf2e86e15b2763e2402cde38e9fad2411f17579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 068/133] fix: compare freezing rain thresholds allowing for
 unit conversion

---
 improver/precipitation_type/freezing_rain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 94675a3..819b5de 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -94,7 +94,9 @@ class FreezingRain(PostProcessingPlugin):
         except ValueError:
             raise ValueError("Rain and sleet cubes have incompatible units")
 
-        if not all(rain_threshold.points == sleet_threshold.points):
+        if rain_threshold.shape != sleet_threshold.shape or not np.allclose(
+            rain_threshold.points, sleet_threshold.points, rtol=1.0e-5, atol=0
+        ):
             raise ValueError("Rain and sleet cubes have different threshold values")
 
         # Ensure probabilities relate to temperatures below a threshold
-- 
2.43.0


From 5eb2a6c29630c7e10aa906071b490ae98dcd7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 069/133] fix: average freezing rain over the members the
 inputs share

---
 improver/precipitation_type/freezing_rain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 819b5de..f4e4bc9 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -20,6 +20,7 @@ from improver.metadata.utilities import (
 from improver.utilities.common_input_handle import as_cubelist
 from improver.utilities.cube_checker import spatial_coords_match
 from improver.utilities.cube_extraction import extract_subcube
+from improver.utilities.cube_manipulation import sort_coord_in_cube
 from improver.utilities.probability_manipulation import to_threshold_inequality
 
 
@@ -161,6 +162,8 @@ class FreezingRain(PostProcessingPlugin):
         def _match_realizations(target):
             constraint = iris.Constraint(realization=common_realizations)
             matched = target.extract(constraint)
+            if matched.coord_dims("realization"):
+                matched = sort_coord_in_cube(matched, "realization")
             return matched
 
         cubes = [self.rain, self.sleet, self.temperature]
@@ -288,14 +291,13 @@ class FreezingRain(PostProcessingPlugin):
         input_cubes = as_cubelist(*input_cubes)
         self._get_input_cubes(input_cubes)
 
+        self._extract_common_realizations()
+
         try:
             n_realizations = len(list(self.rain.slices_over("realization")))
         except CoordinateNotFoundError:
             n_realizations = None
 
-        if n_realizations is not None:
-            self._extract_common_realizations()
-
         freezing_rain_cube = self._calculate_freezing_rain_probability(n_realizations)
 
         return freezing_rain_cube
-- 
2.43.0


From 9b755f82d9efe501b22fd223d42ce3c04dc4a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 070/133] fix: allow a single member in shower conditions

---
 improver/precipitation_type/shower_condition_probability.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/precipitation_type/shower_condition_probability.py b/improver/precipitation_type/shower_condition_probability.py
index ddf192a..b0cf2d0 100644
--- a/improver/precipitation_type/shower_condition_probability.py
+++ b/improver/precipitation_type/shower_condition_probability.py
@@ -9,7 +9,7 @@ from typing import Optional, Tuple
 import iris
 import numpy as np
 from iris.cube import Cube, CubeList
-from iris.exceptions import CoordinateNotFoundError
+from iris.exceptions import CoordinateCollapseError, CoordinateNotFoundError
 from numpy import ndarray
 
 from improver import PostProcessingPlugin
@@ -169,5 +169,9 @@ class ShowerConditionProbability(PostProcessingPlugin):
             shower_conditions = collapse_realizations(result)
         except CoordinateNotFoundError:
             shower_conditions = result
+        except CoordinateCollapseError:
+            # A single realization needs no collapsing.
+            shower_conditions = result
+            shower_conditions.remove_coord("realization")
 
         return iris.util.squeeze(shower_conditions)
-- 
2.43.0


From 56ddcea6bc9d1f48c1a958476c81a1d0fbc55543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 071/133] fix: no phase where there is no falling level

---
 .../psychrometric_calculations/precip_phase_probability.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/psychrometric_calculations/precip_phase_probability.py b/improver/psychrometric_calculations/precip_phase_probability.py
index 96cff0d..970b3ef 100644
--- a/improver/psychrometric_calculations/precip_phase_probability.py
+++ b/improver/psychrometric_calculations/precip_phase_probability.py
@@ -170,6 +170,11 @@ class PrecipPhaseProbability(BasePlugin):
         result_data = np.where(
             self.comparator(self.altitudes, self.falling_level_cube.data), 1, 0,
         ).astype(np.int8)
+        if np.ma.is_masked(self.falling_level_cube.data):
+            # No phase can be diagnosed where there is no falling level.
+            result_data = np.ma.masked_array(
+                result_data, mask=self.falling_level_cube.data.mask
+            )
         mandatory_attributes = generate_mandatory_attributes([self.falling_level_cube])
 
         cube = create_new_diagnostic_cube(
-- 
2.43.0


From d24e3f7961a2c015993bcaa380b42c3f2a290329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 072/133] fix: do not advect from beyond the last row or column

---
 improver/nowcasting/forecasting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/nowcasting/forecasting.py b/improver/nowcasting/forecasting.py
index 0dda7f2..4dfe905 100644
--- a/improver/nowcasting/forecasting.py
+++ b/improver/nowcasting/forecasting.py
@@ -187,7 +187,7 @@ class AdvectField(BasePlugin):
         # the bounds of the field, set the output field to 0
         def point_in_bounds(x, y, nx, ny):
             """Check point (y, x) lies within defined bounds"""
-            return (x >= 0.0) & (x < nx) & (y >= 0.0) & (y < ny)
+            return (x >= 0.0) & (x <= nx - 1) & (y >= 0.0) & (y <= ny - 1)
 
         cond_pt = point_in_bounds(xsrc_point_frac, ysrc_point_frac, xdim, ydim)
         adv_field[cond_pt] = 0
-- 
2.43.0


From b82c5fb4609163d07d2291f0c971811e6121b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 073/133] fix: give the analysis forecast period its units

---
 improver/nowcasting/pysteps_advection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/pysteps_advection.py b/improver/nowcasting/pysteps_advection.py
index 6680a8a..4bde92a 100644
--- a/improver/nowcasting/pysteps_advection.py
+++ b/improver/nowcasting/pysteps_advection.py
@@ -117,7 +117,9 @@ class PystepsExtrapolate(BasePlugin):
             self.analysis_cube.add_aux_coord(frt_coord)
         if "forecast_period" not in coords:
             self.analysis_cube.add_aux_coord(
-                AuxCoord(np.array([0], dtype=np.int32), "forecast_period", "seconds")
+                AuxCoord(
+                    np.array([0], dtype=np.int32), "forecast_period", units="seconds"
+                )
             )
 
         self.analysis_cube.attributes = generate_mandatory_attributes(
-- 
2.43.0


From 3e588def8218aec81662b708f293c3790f1981a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 074/133] fix: keep masked radar data masked where coverage is
 valid

---
 improver/nowcasting/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/improver/nowcasting/utilities.py b/improver/nowcasting/utilities.py
index 0a3234e..e717942 100644
--- a/improver/nowcasting/utilities.py
+++ b/improver/nowcasting/utilities.py
@@ -68,11 +68,13 @@ class ExtendRadarMask(BasePlugin):
 
         cube_list = iris.cube.CubeList()
         for rad, cov in zip(radar_data_slices, coverage_slices):
-            # create a new mask that is False wherever coverage is valid
-            new_mask = ~np.isin(cov.data, self.coverage_valid)
+            # extend the mask to cover everywhere that coverage is not valid
+            new_mask = np.ma.getmaskarray(rad.data) | ~np.isin(
+                cov.data, self.coverage_valid
+            )
 
             # remask rainrate data
-            remasked_data = np.ma.MaskedArray(rad.data.data, mask=new_mask)
+            remasked_data = np.ma.MaskedArray(np.ma.getdata(rad.data), mask=new_mask)
             cube_list.append(rad.copy(remasked_data))
 
         return cube_list.merge_cube()
-- 
2.43.0


From 66b45494e641dd20ddb575c9a9756378a77b058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 075/133] fix: fill radar holes in unmasked data

---
 improver/nowcasting/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/utilities.py b/improver/nowcasting/utilities.py
index e717942..01a3773 100644
--- a/improver/nowcasting/utilities.py
+++ b/improver/nowcasting/utilities.py
@@ -133,7 +133,10 @@ class FillRadarHoles(BasePlugin):
                 Cube containing rainrates (mm/h).  Data modified in place.
         """
         mask_windows = neighbourhood_tools.pad_and_roll(
-            cube.data.mask, self.window_shape, mode="constant", constant_values=1
+            np.ma.getmaskarray(cube.data),
+            self.window_shape,
+            mode="constant",
+            constant_values=1,
         )
         data_windows = neighbourhood_tools.pad_and_roll(
             cube.data, self.window_shape, mode="constant", constant_values=np.nan
-- 
2.43.0


From c08856d00fd93d5a1c4bf9dad10b6c88de80b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 076/133] fix: do not apply accumulation settings of earlier
 cubes to later ones

---
 improver/nowcasting/accumulation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/improver/nowcasting/accumulation.py b/improver/nowcasting/accumulation.py
index 4e59842..0cdfd01 100644
--- a/improver/nowcasting/accumulation.py
+++ b/improver/nowcasting/accumulation.py
@@ -309,6 +309,15 @@ class Accumulation(BasePlugin):
             the accumulation periods are determined by plugin argument
             accumulation_period.
         """
+        # Settings derived from these cubes must not be applied to later ones.
+        settings = self.accumulation_period, self.forecast_periods
+        try:
+            return self._accumulate(cubes)
+        finally:
+            self.accumulation_period, self.forecast_periods = settings
+
+    def _accumulate(self, cubes: CubeList) -> CubeList:
+        """Calculate the accumulations; see process for the arguments."""
         cubes, time_interval = self._check_inputs(cubes)
 
         accumulation_cubes = iris.cube.CubeList()
-- 
2.43.0


From 2c0569a7c219b6d6bcedf24cff26ce01d454527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 077/133] fix: calculate complete accumulation periods only

---
 improver/nowcasting/accumulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/accumulation.py b/improver/nowcasting/accumulation.py
index 0cdfd01..0c80327 100644
--- a/improver/nowcasting/accumulation.py
+++ b/improver/nowcasting/accumulation.py
@@ -138,7 +138,7 @@ class Accumulation(BasePlugin):
         if self.accumulation_period is None:
             # If no accumulation period is specified, assume that the input
             # cubes will be used to construct a single accumulation period.
-            (self.accumulation_period,) = cubes[-1].coord("forecast_period").points
+            self.accumulation_period = times[-1] - times[0]
 
         # Ensure that the accumulation period is int32.
         self.accumulation_period = np.int32(self.accumulation_period)
@@ -324,6 +324,9 @@ class Accumulation(BasePlugin):
 
         for forecast_period in self.forecast_periods:
             cube_subset = self._get_cube_subsets(cubes, forecast_period)
+            # Only complete accumulation periods are calculated.
+            if len(cube_subset) != self.accumulation_period // time_interval + 1:
+                continue
             accumulation = self._calculate_accumulation(cube_subset, time_interval)
             accumulation_cube = self._set_metadata(cube_subset)
 
-- 
2.43.0


From 4a9435c10aa65be009e5f2ac1219a818f3aa048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 078/133] fix: keep reliability tables unmasked where any truth
 was valid

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..5de8410 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -407,7 +407,7 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
             dimensions of the forecast and truth cubes (which are
             equivalent).
         """
-        if np.ma.is_masked(truth.data):
+        if np.ma.is_masked(truth.data) or np.ma.is_masked(threshold_reliability):
             table = self._populate_masked_reliability_bins(forecast.data, truth.data)
             # Bitwise addition of masks. This ensures that only points that are
             # masked in both the existing and new reliability tables are kept
-- 
2.43.0


From c2ea8f40bcdefc64cd2b6d0addc92f67eb1a818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 079/133] fix: apply reliability calibration to single
 threshold forecasts

---
 improver/calibration/reliability_calibration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 5de8410..dc14ba9 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1154,7 +1154,6 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             UserWarning: If the probabilities must be sorted to reinstate
                          expected monotonicity following calibration.
         """
-        (threshold_dim,) = cube.coord_dims(self.threshold_coord)
         thresholding = probability_is_above_or_below(cube)
         if thresholding is None:
             msg = (
@@ -1163,6 +1162,12 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             )
             raise ValueError(msg)
 
+        threshold_dims = cube.coord_dims(self.threshold_coord)
+        if not threshold_dims:
+            # A single threshold is monotonic by definition.
+            return
+        (threshold_dim,) = threshold_dims
+
         if (
             thresholding == "above"
             and not (np.diff(cube.data, axis=threshold_dim) <= 0).all()
-- 
2.43.0


From dbf6ebfa96d38f618f40707341b019c8cc87676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 080/133] fix: accept reliability tables for aggregation in any
 order

---
 improver/calibration/reliability_calibration.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index dc14ba9..a72084d 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -553,11 +553,10 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Raises:
             ValueError: If the bounds overlap.
         """
-        lower_bounds = []
-        upper_bounds = []
-        for cube in cubes:
-            lower_bounds.append(cube.coord("forecast_reference_time").bounds[0][0])
-            upper_bounds.append(cube.coord("forecast_reference_time").bounds[0][1])
+        bounds = sorted(
+            tuple(cube.coord("forecast_reference_time").bounds[0]) for cube in cubes
+        )
+        lower_bounds, upper_bounds = zip(*bounds)
         if not all(x < y for x, y in zip(upper_bounds, lower_bounds[1:])):
             raise ValueError(
                 "Reliability calibration tables have overlapping "
-- 
2.43.0


From 4c809375a2baff43fa091c0a325610631590b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 081/133] fix: do not alter the list of coordinates given to
 aggregation

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index a72084d..561f091 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -587,7 +587,7 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Returns:
             Aggregated cube
         """
-        coordinates = [] if coordinates is None else coordinates
+        coordinates = [] if coordinates is None else list(coordinates)
 
         try:
             (cube,) = cubes
-- 
2.43.0


From 378e469b67f722d9d7c1546ff57879d375bd60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 082/133] fix: use the radius of each lead time in cubes with
 several

---
 improver/nbhood/nbhood.py | 72 +++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index c700807..9ff8124 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -4,7 +4,7 @@
 # See LICENSE in the root of the repository for full licensing details.
 """Module containing neighbourhood processing utilities."""
 
-from typing import List, Optional, Union
+from typing import Iterator, List, Optional, Tuple, Union
 
 import iris
 import numpy as np
@@ -174,6 +174,24 @@ class BaseNeighbourhoodProcessing(PostProcessingPlugin):
             self.radius = self._find_radii(cube_lead_times=fp_coord.points)
         return cube
 
+    def _slices_by_radius(self, cube: Cube) -> Iterator[Tuple[Cube, float]]:
+        """
+        Pair the cube, or each of its lead times if there are several, with the
+        radius to be used for it.
+
+        Args:
+            cube:
+                Cube for which the radius or radii have been set.
+
+        Yields:
+            A cube, and the neighbourhood radius that applies to it.
+        """
+        if np.size(self.radius) == 1:
+            yield cube, self.radius
+        else:
+            lead_time = "forecast_period" if cube.coords("forecast_period") else "time"
+            yield from zip(cube.slices_over(lead_time), self.radius)
+
 
 class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
     """Class for applying neighbourhood processing to produce a smoothed field
@@ -443,28 +461,31 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         super().process(cube)
         check_if_grid_is_equal_area(cube)
 
-        # If the data is masked, the mask will be processed as well as the
-        # original_data * mask array.
-        check_radius_against_distance(cube, self.radius)
-
-        grid_cells = distance_to_number_of_grid_cells(cube, self.radius)
-        if self.neighbourhood_method == "circular":
-            self.kernel = circular_kernel(grid_cells, self.weighted_mode)
-            self.nb_size = max(self.kernel.shape)
-        else:
-            self.nb_size = 2 * grid_cells + 1
-
         try:
             mask_cube_data = mask_cube.data
         except AttributeError:
             mask_cube_data = None
 
         result_slices = CubeList()
-        for cube_slice in cube.slices([cube.coord(axis="y"), cube.coord(axis="x")]):
-            cube_slice.data = self._calculate_neighbourhood(
-                cube_slice.data, mask_cube_data
-            )
-            result_slices.append(cube_slice)
+        for lead_time_cube, radius in self._slices_by_radius(cube):
+            # If the data is masked, the mask will be processed as well as the
+            # original_data * mask array.
+            check_radius_against_distance(cube, radius)
+
+            grid_cells = distance_to_number_of_grid_cells(cube, radius)
+            if self.neighbourhood_method == "circular":
+                self.kernel = circular_kernel(grid_cells, self.weighted_mode)
+                self.nb_size = max(self.kernel.shape)
+            else:
+                self.nb_size = 2 * grid_cells + 1
+
+            for cube_slice in lead_time_cube.slices(
+                [cube.coord(axis="y"), cube.coord(axis="x")]
+            ):
+                cube_slice.data = self._calculate_neighbourhood(
+                    cube_slice.data, mask_cube_data
+                )
+                result_slices.append(cube_slice)
         neighbourhood_averaged_cube = result_slices.merge_cube()
 
         return neighbourhood_averaged_cube
@@ -663,17 +684,18 @@ class GeneratePercentilesFromANeighbourhood(BaseNeighbourhoodProcessing):
 
         # Check that the cube has an equal area grid.
         check_if_grid_is_equal_area(cube)
-        # Take data array and identify X and Y axes indices
-        grid_cell = distance_to_number_of_grid_cells(cube, self.radius)
-        check_radius_against_distance(cube, self.radius)
-        kernel = circular_kernel(grid_cell, weighted_mode=False)
         # Loop over each 2D slice to reduce memory demand and derive
         # percentiles on the kernel. Will return an extra dimension.
         pctcubelist = iris.cube.CubeList()
-        for slice_2d in cube.slices(
-            ["projection_y_coordinate", "projection_x_coordinate"]
-        ):
-            pctcubelist.append(self.pad_and_unpad_cube(slice_2d, kernel))
+        for lead_time_cube, radius in self._slices_by_radius(cube):
+            # Take data array and identify X and Y axes indices
+            grid_cell = distance_to_number_of_grid_cells(cube, radius)
+            check_radius_against_distance(cube, radius)
+            kernel = circular_kernel(grid_cell, weighted_mode=False)
+            for slice_2d in lead_time_cube.slices(
+                ["projection_y_coordinate", "projection_x_coordinate"]
+            ):
+                pctcubelist.append(self.pad_and_unpad_cube(slice_2d, kernel))
 
         result = pctcubelist.merge_cube()
         exception_coordinates = find_dimension_coordinate_mismatch(
-- 
2.43.0


From 2361eed6f7c1d7af252c2dfdd6a6136e623a1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 083/133] fix: do not merge wind directions of earlier calls
 into later ones

---
 improver/wind_calculations/wind_direction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..f9230b7 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -237,6 +237,7 @@ class WindDirection(PostProcessingPlugin):
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From f28d93d4891b064eada857d116291032e40725f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 084/133] fix: do not rename and relabel the gust cube of the
 caller

---
 improver/wind_calculations/wind_gust_diagnostic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 4fa46df..1e194bd 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -73,7 +73,7 @@ class WindGustDiagnostic(PostProcessingPlugin):
             Cube containing the wind-gust diagnostic data with
             corrected Metadata.
         """
-        result = cube
+        result = cube.copy()
         result.rename("wind_speed_of_gust")
         if self.percentile_gust == 50.0 and self.percentile_windspeed == 95.0:
             diagnostic_txt = "Typical gusts"
-- 
2.43.0


From 25222e74c9a6aeaa440d3fbdfe9bd3349679afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 085/133] fix: refuse wind speeds with fewer times than the
 gusts

---
 improver/wind_calculations/wind_gust_diagnostic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 1e194bd..c6d6532 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -162,6 +162,8 @@ class WindGustDiagnostic(PostProcessingPlugin):
         ws_time = req_cube_ws.coords("time")
         if len(wg_time) == 0 or len(ws_time) == 0:
             raise ValueError(msg)
+        if len(wg_time[0].points) != len(ws_time[0].points):
+            raise ValueError(msg)
 
         if not all(
             wg_point == ws_point
-- 
2.43.0


From 68be95ac826bebcf72299266fe4c9163aaf6e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 086/133] fix: do not alter the wind directions when resolving
 components

---
 improver/wind_calculations/wind_components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/wind_calculations/wind_components.py b/improver/wind_calculations/wind_components.py
index 9c6d8bb..67b0fca 100644
--- a/improver/wind_calculations/wind_components.py
+++ b/improver/wind_calculations/wind_components.py
@@ -138,8 +138,9 @@ class ResolveWindComponents(BasePlugin):
             - Cube containing wind vector component in the positive
               y-direction v_speed
         """
+        angle = angle.copy()
         angle.convert_units("radians")
-        angle.data += adj
+        angle.data = angle.data + adj
 
         # output vectors should be pointing "to" not "from"
         if "wind_from_direction" in angle.name():
-- 
2.43.0


From 5ef7cb48e56d05f8efac2f9e65407f2cd44e5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 087/133] fix: check every CAPE time in VerticalUpdraught

---
 improver/wind_calculations/vertical_updraught.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/wind_calculations/vertical_updraught.py b/improver/wind_calculations/vertical_updraught.py
index b55f3e0..1e96318 100644
--- a/improver/wind_calculations/vertical_updraught.py
+++ b/improver/wind_calculations/vertical_updraught.py
@@ -104,7 +104,9 @@ class VerticalUpdraught(BasePlugin):
             return "Forecast reference times do not match"
         if not self.precip.coord("time").has_bounds():
             return "Precip cube must have time bounds"
-        if cape_time.cell(0).point != self.precip.coord("time").cell(0).bound[0]:
+        cape_points = [cell.point for cell in cape_time.cells()]
+        lower_bounds = [cell.bound[0] for cell in self.precip.coord("time").cells()]
+        if cape_points != lower_bounds:
             return "CAPE time must match precip cube's lower time bound"
         return ""
 
-- 
2.43.0


From 85c2a2ce2fbcd913a063ad7556c6da37b015738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 088/133] fix: do not alter the roughness lengths between calls
 of wind downscaling

---
 improver/wind_calculations/wind_downscaling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 5a69a5f..7f140a9 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -152,6 +152,7 @@ class RoughnessCorrectionUtilities:
         self.h_over_2 = self.sigma2hover2(sigma)  # half peak to trough height
         self.hcmask, self.rcmask = self._setmask()  # HC mask, RC mask
         if self.z_0 is not None:
+            self.z_0 = z_0.copy()
             self.z_0[z_0 <= 0] = Z0M_SEA
         self.dx_min = ppres / 2.0  # scales smaller than this not resolved in pp
         # the original code had hardcoded 500
-- 
2.43.0


From 05d8ccbbaf1dffb4edc7f2e2f19041cf108e663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 089/133] fix: keep a time dimension of length one in wind
 downscaling

---
 improver/wind_calculations/wind_downscaling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 7f140a9..15aac9a 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -942,6 +942,8 @@ class RoughnessCorrection(PostProcessingPlugin):
             rc_hc.data = roughness_correction.do_rc_hc_all(hld, time_slice.data)
             rchc_list.append(rc_hc)
         output_cube = rchc_list.merge_cube()
+        if not np.isnan(twp) and not output_cube.coord_dims("time"):
+            output_cube = iris.util.new_axis(output_cube, "time")
         # reorder input_cube and output_cube as original
         if np.isnan(twp):
             input_cube.transpose(np.argsort([ywp, xwp, zwp]))
-- 
2.43.0


From 8270f513bd871a42f7dde1b0538be4b8999e3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 090/133] fix: refuse winds on another grid than the
 ancillaries

---
 improver/wind_calculations/wind_downscaling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 15aac9a..d545579 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -933,6 +933,9 @@ class RoughnessCorrection(PostProcessingPlugin):
             self.modres,
         )
         self.check_wind_ancil(xwp, ywp)
+        for axis in ["x", "y"]:
+            if input_cube.coord(axis=axis) != self.pp_oro.coord(axis=axis):
+                raise ValueError("ancillary grid different from wind grid")
         hld = self.find_heightgrid(input_cube)
         for time_slice in input_cube.slices_over("time"):
             if np.isnan(time_slice.data).any() or (time_slice.data < 0.0).any():
-- 
2.43.0


From a516f27b1bad46802beda8e3821028daf2ac9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 091/133] fix: climb pressure levels downwards in pressure for
 cloud tops

---
 .../psychrometric_calculations/cloud_top_temperature.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/cloud_top_temperature.py b/improver/psychrometric_calculations/cloud_top_temperature.py
index 8219cc6..dbc7727 100644
--- a/improver/psychrometric_calculations/cloud_top_temperature.py
+++ b/improver/psychrometric_calculations/cloud_top_temperature.py
@@ -63,7 +63,12 @@ class CloudTopTemperature(PostProcessingPlugin):
         q_at_ccl = saturated_humidity(self.t_at_ccl.data, self.p_at_ccl.data)
         ccl_with_mask = np.ma.masked_array(self.t_at_ccl.data, False)
         mask = ~ccl_with_mask.mask
-        for t in self.temperature.slices_over("pressure"):
+        levels = sorted(
+            self.temperature.slices_over("pressure"),
+            key=lambda level: level.coord("pressure").points[0],
+            reverse=True,
+        )
+        for t in levels:
             t_environment = np.full_like(t.data, np.nan)
             t_environment[mask] = t.data[mask]
 
-- 
2.43.0


From a74842a8b0b2c8df84692c3cae98a6ae91a35ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 092/133] fix: use Pascals for the levels of cloud tops

---
 improver/psychrometric_calculations/cloud_top_temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/cloud_top_temperature.py b/improver/psychrometric_calculations/cloud_top_temperature.py
index dbc7727..82d5fb7 100644
--- a/improver/psychrometric_calculations/cloud_top_temperature.py
+++ b/improver/psychrometric_calculations/cloud_top_temperature.py
@@ -72,7 +72,9 @@ class CloudTopTemperature(PostProcessingPlugin):
             t_environment = np.full_like(t.data, np.nan)
             t_environment[mask] = t.data[mask]
 
-            (pressure,) = t.coord("pressure").points
+            pressure_coord = t.coord("pressure").copy()
+            pressure_coord.convert_units("Pa")
+            (pressure,) = pressure_coord.points
             t_dry_parcel = dry_adiabatic_temperature(
                 self.t_at_ccl.data[mask], self.p_at_ccl.data[mask], pressure,
             )
-- 
2.43.0


From 5c582539a8281e3074f56227fef98962c0cc1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:59 +0000
Subject: [PATCH 093/133] fix: refuse differing vertical levels in
 WetBulbTemperature

---
 .../psychrometric_calculations/wet_bulb_temperature.py   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/improver/psychrometric_calculations/wet_bulb_temperature.py b/improver/psychrometric_calculations/wet_bulb_temperature.py
index 9286b46..765f4dd 100644
--- a/improver/psychrometric_calculations/wet_bulb_temperature.py
+++ b/improver/psychrometric_calculations/wet_bulb_temperature.py
@@ -81,6 +81,15 @@ class WetBulbTemperature(BasePlugin):
                     "WetBulbTemperature: Cubes have differing vertical coordinates."
                 )
             (level_coord,) = set(vertical_coords)
+            levels = temperature.coord(level_coord)
+            for cube in [relative_humidity, pressure]:
+                coord = cube.coord(level_coord)
+                if coord.units != levels.units or not np.array_equal(
+                    coord.points, levels.points
+                ):
+                    raise ValueError(
+                        "WetBulbTemperature: Cubes have differing vertical levels."
+                    )
             temperature_over_levels = temperature.slices_over(level_coord)
             relative_humidity_over_levels = relative_humidity.slices_over(level_coord)
             pressure_over_levels = pressure.slices_over(level_coord)
-- 
2.43.0


From d8f3a4e8a8866b5d4cd5210fff2a253d6da7f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:59 +0000
Subject: [PATCH 094/133] fix: keep the mask in the feels like temperature

---
 improver/feels_like_temperature.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/feels_like_temperature.py b/improver/feels_like_temperature.py
index e0460d1..665ac4c 100644
--- a/improver/feels_like_temperature.py
+++ b/improver/feels_like_temperature.py
@@ -157,6 +157,10 @@ def _feels_like_temperature(
         Feels like temperature.
     """
     feels_like_temperature = np.zeros(temperature.shape, dtype=np.float32)
+    if np.ma.is_masked(temperature):
+        feels_like_temperature = np.ma.masked_array(
+            feels_like_temperature, mask=np.ma.getmaskarray(temperature).copy()
+        )
     feels_like_temperature[temperature < 10] = wind_chill[temperature < 10]
 
     alpha = (temperature - 10.0) / 10.0
-- 
2.43.0


From 2e10d0741442cc8efc79f72ce99971695496f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 095/133] fix: search levels from the surface whichever way
 round they are

---
 improver/utilities/cube_extraction.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 6d527f2..45b1032 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -528,16 +528,28 @@ class ExtractLevel(BasePlugin):
             has_r_coord = False
         grid = self.coordinate_grid(one_slice).astype(np.float32)
         (coordinate_axis,) = one_slice.coord_dims(self.coordinate)
+        # Search from the level nearest the surface, whichever way round the levels are.
+        increasing_order = np.all(
+            np.diff(variable_on_levels.coord(self.coordinate).points) > 0
+        )
+        rising = self.positive_correlation == increasing_order
+        surface_last = increasing_order == (self.coordinate == "pressure")
+        if surface_last:
+            rising = not rising
+            grid = np.flip(grid, axis=coordinate_axis)
         result_data = np.empty_like(
             variable_on_levels.slices_over(([self.coordinate])).next().data
         )
         for i, zyx_slice in enumerate(slicer):
+            levels_data = np.asarray(zyx_slice.data.data)
+            if surface_last:
+                levels_data = np.flip(levels_data, axis=coordinate_axis)
             interp_data = interpolate(
                 np.array([self.value_of_level], dtype=np.float32),
-                zyx_slice.data.data,
+                levels_data,
                 grid,
                 axis=coordinate_axis,
-                rising=False,
+                rising=rising,
                 extrapolation=EXTRAPOLATE_NEAREST,
             ).squeeze(axis=coordinate_axis)
             if has_r_coord:
-- 
2.43.0


From a4aa7962574d33ac324d546bcd771a1b58db65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 096/133] fix: keep hail sizes for melting levels below 3350 m

---
 improver/psychrometric_calculations/hail_size.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index 16dcf2f..ba7bf50 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -297,7 +297,7 @@ class HailSize(BasePlugin):
             2) vertical or horizontal values are negative,
             3) the wet bulb freezing altitude is greater that 4400m.
 
-        If the wet bulb freezing altitude is greater that 3300m then the hail_size is reduced.
+        If the wet bulb freezing altitude is at least 3350m then the hail_size is reduced.
 
         Args:
             vertical:
@@ -335,7 +335,7 @@ class HailSize(BasePlugin):
             vertical_clipped.astype(int), horizontal_clipped.astype(int)
         ]
         hail_size = np.where(
-            wet_bulb_zero >= 3300,
+            wet_bulb_zero >= self._wbzh_keys[0],
             self.updated_hail_size(hail_size, wet_bulb_zero),
             hail_size,
         )
-- 
2.43.0


From c96e522ed3647d08cb98fdc6cfdd60eb15eaf931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 097/133] fix: sort the levels of wet-bulb temperature with
 their heights

---
 .../psychrometric_calculations/psychrometric_calculations.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index 3c15416..4af3349 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -918,6 +918,9 @@ class PhaseChangeLevel(BasePlugin):
             wet_bulb_integral, "height", descending=True
         )
 
+        # The fit below sea level needs the lowest wet bulb temperatures first
+        wet_bulb_temperature = sort_coord_in_cube(wet_bulb_temperature, "height")
+
         # Find highest height from height bounds.
         wbt_height_points = wet_bulb_temperature.coord("height").points
         if wet_bulb_integral.coord("height").bounds is None:
-- 
2.43.0


From d8d95d9fe4607089ae5db4f9aa17c4ebaf2781dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 098/133] fix: accept a single realization dimension in
 PhaseChangeLevel

---
 .../psychrometric_calculations.py                           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index 4af3349..3493480 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -851,7 +851,11 @@ class PhaseChangeLevel(BasePlugin):
         template = next(wbt.slices_over(["height"])).copy()
         template.remove_coord("height")
         return create_new_diagnostic_cube(
-            name, "m", template, attributes, data=phase_change_level
+            name,
+            "m",
+            template,
+            attributes,
+            data=phase_change_level.reshape(template.shape),
         )
 
     def process(self, *cubes: Union[CubeList, List[Cube]]) -> Cube:
-- 
2.43.0


From c7886b1bda5d6e2833bc8b7a8baa817f57bebf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 099/133] fix: return phase change levels in y, x order

---
 .../psychrometric_calculations.py                        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index 3493480..ed0c8a0 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -22,7 +22,10 @@ from improver.metadata.utilities import (
     generate_mandatory_attributes,
 )
 from improver.utilities.common_input_handle import as_cubelist
-from improver.utilities.cube_manipulation import sort_coord_in_cube
+from improver.utilities.cube_manipulation import (
+    enforce_coordinate_ordering,
+    sort_coord_in_cube,
+)
 from improver.utilities.interpolation import interpolate_missing_data
 from improver.utilities.mathematical_operations import fast_linear_fit
 from improver.utilities.spatial import OccurrenceWithinVicinity
@@ -850,6 +853,10 @@ class PhaseChangeLevel(BasePlugin):
         )
         template = next(wbt.slices_over(["height"])).copy()
         template.remove_coord("height")
+        # The levels are calculated on slices ordered y-x
+        enforce_coordinate_ordering(
+            template, [wbt.coord(axis=axis).name() for axis in "yx"], anchor_start=False
+        )
         return create_new_diagnostic_cube(
             name,
             "m",
-- 
2.43.0


From 7ca5e7e5b7d37e3a38771e779beb08ff49ab0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 100/133] fix: refuse other grids in PhaseChangeLevel

---
 .../psychrometric_calculations.py                         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index ed0c8a0..767aacf 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -923,6 +923,14 @@ class PhaseChangeLevel(BasePlugin):
                     f"{wet_bulb_integral.attributes[self.model_id_attr]}"
                 )
 
+        for cube in [wet_bulb_integral, orog, land_sea_mask]:
+            for axis in "xy":
+                if cube.coord(axis=axis) != wet_bulb_temperature.coord(axis=axis):
+                    raise ValueError(
+                        f"The {axis} coordinates of {cube.name()} and "
+                        f"{wet_bulb_temperature.name()} do not match"
+                    )
+
         # Ensure the wet bulb integral cube's height coordinate is in
         # descending order
         wet_bulb_integral = sort_coord_in_cube(
-- 
2.43.0


From 21a1f3cab73a8b256f36a98c7955e8c3ad758bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 101/133] fix: convert the scale parameter as a difference

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index b94c622..4082d32 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1178,7 +1178,13 @@ class ConvertLocationAndScaleParametersToProbabilities(
 
         try:
             location_parameter.convert_units(threshold_units)
+            # The scale parameter is a difference, so offsets between units
+            # (e.g. Kelvin and Celsius) do not apply.
+            offset = scale_parameter.units.convert(0.0, threshold_units)
             scale_parameter.convert_units(threshold_units)
+            scale_parameter.data = (scale_parameter.data - offset).astype(
+                scale_parameter.dtype
+            )
         except ValueError as err:
             msg = (
                 "Error: {} This is likely because the location parameter, "
-- 
2.43.0


From 5ca11361f910244786eb40a97c251e36ab705179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 102/133] fix: give probabilities where the scale parameter is
 zero

---
 .../ensemble_copula_coupling.py                  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 4082d32..9772fe6 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1249,10 +1249,20 @@ class ConvertLocationAndScaleParametersToProbabilities(
         if relative_to_threshold == "above":
             probability_method = distribution.sf
 
+        # If the scale parameter (standard deviation) is zero, the distribution
+        # is a single value, for which the probability method returns NaN.
+        no_spread = scale_parameter.data.flatten() == 0
+        location_data = location_parameter.data.flatten()
+
         for index, threshold in enumerate(thresholds):
-            probabilities[index, ...] = np.reshape(
-                probability_method(threshold), probabilities.shape[1:]
-            )
+            values = probability_method(threshold)
+            if np.any(no_spread):
+                if relative_to_threshold == "above":
+                    single_value = location_data > threshold
+                else:
+                    single_value = location_data <= threshold
+                values = np.where(no_spread, single_value, values)
+            probabilities[index, ...] = np.reshape(values, probabilities.shape[1:])
 
         probability_cube = probability_cube_template.copy(data=probabilities)
         # Make the mask defined above fit the data size and then apply to the
-- 
2.43.0


From cfe027fc2df9cd4dff34fbb6a24131f94745f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 103/133] fix: keep shape parameters when distribution plugins
 are reused

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 9772fe6..5b93cca 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -990,11 +990,14 @@ class ConvertLocationAndScaleParametersToPercentiles(
             (len(percentiles_as_fractions), location_data.shape[0]), dtype=np.float32
         )
 
+        shape_parameters = self.shape_parameters
         self._rescale_shape_parameters(location_data, scale_data)
 
         percentile_method = self.distribution(
             *self.shape_parameters, loc=location_data, scale=scale_data
         )
+        # Restore the shape parameters, so that the plugin can be used again.
+        self.shape_parameters = shape_parameters
 
         # Loop over percentiles, and use the distribution as the
         # "percentile_method" with the location and scale parameter to
@@ -1230,6 +1233,7 @@ class ConvertLocationAndScaleParametersToProbabilities(
         thresholds = find_threshold_coordinate(probability_cube_template).points
         relative_to_threshold = probability_is_above_or_below(probability_cube_template)
 
+        shape_parameters = self.shape_parameters
         self._rescale_shape_parameters(
             location_parameter.data.flatten(), scale_parameter.data.flatten()
         )
@@ -1244,6 +1248,8 @@ class ConvertLocationAndScaleParametersToProbabilities(
             loc=location_parameter.data.flatten(),
             scale=scale_parameter.data.flatten(),
         )
+        # Restore the shape parameters, so that the plugin can be used again.
+        self.shape_parameters = shape_parameters
 
         probability_method = distribution.cdf
         if relative_to_threshold == "above":
-- 
2.43.0


From a8b210e0a5516878bc96caed4d4cabd0bdd8fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 104/133] fix: mask only the sea when estimating EMOS
 coefficients

---
 improver/calibration/ensemble_calibration.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 200137e..7b7abf6 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1109,13 +1109,18 @@ class EstimateCoefficientsForEnsembleCalibration(BasePlugin):
         Raises:
             IndexError: if the cube and landsea_mask shapes are not compatible.
         """
+        sea_points = ~landsea_mask.data.astype(bool)
         try:
-            cube.data[..., ~landsea_mask.data.astype(bool)] = np.nan
+            cube.data[..., sea_points] = np.nan
         except IndexError as err:
             msg = "Cube and landsea_mask shapes are not compatible. {}".format(err)
             raise IndexError(msg)
         else:
-            cube.data = np.ma.masked_invalid(cube.data)
+            # Only the sea is masked, so that missing land points stay in step
+            # between the forecasts and truths.
+            cube.data = np.ma.masked_where(
+                np.broadcast_to(sea_points, cube.shape), cube.data
+            )
 
     def guess_and_minimise(
         self,
-- 
2.43.0


From efcf5ec7f4f801de61f26be01e766d39a5f26f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 105/133] fix: refuse EMOS coefficients in other units than the
 forecast

---
 improver/calibration/ensemble_calibration.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 7b7abf6..7d8f4c4 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1420,6 +1420,23 @@ class CalibratedForecastDistributionParameters(BasePlugin):
                 )
                 raise ValueError(msg)
 
+    def _units_match(self) -> None:
+        """Check that the units of the forecast are the units in which the
+        coefficients were estimated.
+
+        Raises:
+            ValueError: If the units of the alpha or gamma coefficients, which have
+                the units of the historic forecasts, differ from the forecast.
+        """
+        for cube in self.coefficients_cubelist:
+            if cube.name() in ["emos_coefficient_alpha", "emos_coefficient_gamma"]:
+                if cube.units != self.current_forecast.units:
+                    msg = (
+                        f"The forecast units ({self.current_forecast.units}) do not "
+                        f"match the units of {cube.name()} ({cube.units})"
+                    )
+                    raise ValueError(msg)
+
     def _spatial_domain_match(self) -> None:
         """
         Check that the domain of the current forecast and coefficients cube
@@ -1666,6 +1683,7 @@ class CalibratedForecastDistributionParameters(BasePlugin):
 
         # Check coefficients_cube and forecast cube are compatible.
         self._diagnostic_match()
+        self._units_match()
         if not tolerate_time_mismatch:
             # Check validity time and forecast period matches.
             for cube in coefficients_cubelist:
-- 
2.43.0


From 652c96a5412228b0eff5f2771e46393c3516b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 106/133] fix: refuse several forecasts that are not
 probabilities

---
 improver/calibration/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/__init__.py b/improver/calibration/__init__.py
index d85ee1c..8f27fb8 100644
--- a/improver/calibration/__init__.py
+++ b/improver/calibration/__init__.py
@@ -161,7 +161,17 @@ def split_forecasts_and_coeffs(
     if len(grouped_cubes) == 0:
         msg = "No forecast is present. A forecast cube is required."
         raise ValueError(msg)
-    elif len(grouped_cubes) == 1:
+
+    non_probability_names = [k for k in grouped_cubes if "probability" not in k]
+    if len(non_probability_names) > 1:
+        msg = (
+            "Multiple forecasts that are not probabilities have been provided. "
+            "Only one forecast and an optional probability template are expected. "
+            f"Cubes provided: {non_probability_names}."
+        )
+        raise ValueError(msg)
+
+    if len(grouped_cubes) == 1:
         (current_forecast,) = list(grouped_cubes.values())[0]
     elif len(grouped_cubes) == 2:
         for key in grouped_cubes.keys():
-- 
2.43.0


From 4e53dd03d4391b40efc86db3068a26c6c86b1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 107/133] fix: accept an initial guess within the tolerance

---
 improver/calibration/ensemble_calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 7d8f4c4..17fd821 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -307,6 +307,10 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
             Warning: If a satisfactory minimisation has not been achieved.
 
         """
+        if len(allvecs) < 2:
+            # The initial guess satisfied the tolerance, so nothing has changed.
+            return
+
         last_iteration_percentage_change = (
             np.absolute((allvecs[-1] - allvecs[-2]) / allvecs[-2]) * 100
         )
-- 
2.43.0


From f9656d62e09dd0307114513b9f28d956c9059d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 108/133] fix: calibrate forecasts to a single percentile

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 5b93cca..abb0fb5 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1023,7 +1023,9 @@ class ConvertLocationAndScaleParametersToPercentiles(
 
         # Reshape forecast_at_percentiles, so the percentiles dimension is
         # first, and any other dimension coordinates follow.
-        result = result.reshape((len(percentiles),) + location_parameter.data.shape)
+        result = restore_non_percentile_dimensions(
+            result, location_parameter, len(percentiles)
+        )
 
         for prob_coord_name in ["realization", "percentile"]:
             if template_cube.coords(prob_coord_name, dim_coords=True):
@@ -1043,7 +1045,7 @@ class ConvertLocationAndScaleParametersToPercentiles(
         )
         # Make the mask defined above fit the data size and then apply to the
         # percentile cube.
-        mask_array = np.stack([mask] * len(percentiles))
+        mask_array = np.broadcast_to(mask, percentile_cube.shape)
         percentile_cube.data = np.ma.masked_where(mask_array, percentile_cube.data)
         # Remove cell methods associated with finding the ensemble mean
         percentile_cube.cell_methods = {}
-- 
2.43.0


From 4ab4b720b68f03f1cf223d1afd9d0587f4ce31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 109/133] fix: check data sufficiency with leading time
 dimensions

---
 improver/calibration/utilities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index b463a03..4bc9540 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -441,7 +441,13 @@ def check_data_sufficiency(
     if not historic_forecasts.coords("wmo_id"):
         return
 
-    truths_data = np.broadcast_to(truths.data, historic_forecasts.shape)
+    # Align the truths with the forecasts, wherever the realizations are.
+    realization_dims = ()
+    if historic_forecasts.coords("realization"):
+        realization_dims = historic_forecasts.coord_dims("realization")
+    truths_data = np.broadcast_to(
+        np.expand_dims(truths.data, realization_dims), historic_forecasts.shape
+    )
     index = np.isnan(historic_forecasts.data) & np.isnan(truths_data)
 
     if point_by_point:
-- 
2.43.0


From 4f90ec4d2b3a6b7d7e4d8726c7912799daa13172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 110/133] fix: calculate forecast bias from forecasts with a
 length one ensemble dimension

---
 improver/calibration/simple_bias_correction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a350ec3..a7053b7 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -133,7 +133,9 @@ class CalculateForecastBias(BasePlugin):
                     "Multiple realization values detected. Expect historical forecasts"
                     "to be single valued forecasts."
                 )
-        forecasts = iris.util.squeeze(forecasts)
+        for coord_name in ("percentile", "realization"):
+            if coord_name in forecast_dim_coords:
+                forecasts = next(forecasts.slices_over(coord_name))
         return forecasts
 
     def _define_metadata(self, forecasts: Cube) -> Dict[str, str]:
@@ -228,7 +230,7 @@ class CalculateForecastBias(BasePlugin):
             A cube containing the forecast bias values evaluated over the set of historic
             forecasts and truth values.
         """
-        self._ensure_single_valued_forecast(historic_forecasts)
+        historic_forecasts = self._ensure_single_valued_forecast(historic_forecasts)
 
         # Ensure that valid times match over forecasts/truth
         historic_forecasts, truths = filter_non_matching_cubes(
-- 
2.43.0


From 755dc327977029bc142b945d33b45769d9c5a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 111/133] fix: do not fill the bias in place

---
 improver/calibration/simple_bias_correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a7053b7..e07209a 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -84,7 +84,7 @@ def apply_additive_correction(
         An array containing the corrected forecast values.
     """
     if fill_masked_bias_values and isinstance(bias.data, ma.masked_array):
-        bias.data = ma.MaskedArray.filled(bias.data, 0.0)
+        bias = bias.copy(data=ma.MaskedArray.filled(bias.data, 0.0))
     corrected_forecast = forecast - bias
     return corrected_forecast.data
 
-- 
2.43.0


From 9528b4fd980954fa2e9e0278ab563e1d4e7afd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 112/133] fix: clip data of site forecasts

---
 improver/utilities/cube_manipulation.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index bd0c984..b47370f 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -17,7 +17,6 @@ from improver import BasePlugin
 from improver.metadata.constants import FLOAT_DTYPE, FLOAT_TYPES
 from improver.metadata.probabilistic import find_threshold_coordinate
 from improver.utilities.common_input_handle import as_cube
-from improver.utilities.cube_checker import check_cube_coordinates
 
 
 def collapsed(cube: Cube, *args: Any, **kwargs: Any) -> Cube:
@@ -547,18 +546,7 @@ def clip_cube_data(cube: Cube, minimum_value: float, maximum_value: float) -> Cu
         The processed cube with the data clipped to the limits of the
         original preprocessed cube.
     """
-    original_attributes = cube.attributes
-    original_methods = cube.cell_methods
-
-    result = iris.cube.CubeList()
-    for cube_slice in cube.slices([cube.coord(axis="y"), cube.coord(axis="x")]):
-        cube_slice.data = np.clip(cube_slice.data, minimum_value, maximum_value)
-        result.append(cube_slice)
-
-    result = result.merge_cube()
-    result.cell_methods = original_methods
-    result.attributes = original_attributes
-    result = check_cube_coordinates(cube, result)
+    result = cube.copy(data=np.clip(cube.data, minimum_value, maximum_value))
     return result
 
 
-- 
2.43.0


From 87905f1c97aa2b973807aae8b31735a9ff2b1e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 113/133] fix: match sites when estimating the altitude
 rescaling

---
 improver/calibration/dz_rescaling.py | 30 ++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/improver/calibration/dz_rescaling.py b/improver/calibration/dz_rescaling.py
index d006dfa..f659701 100644
--- a/improver/calibration/dz_rescaling.py
+++ b/improver/calibration/dz_rescaling.py
@@ -79,6 +79,25 @@ class EstimateDzRescaling(PostProcessingPlugin):
         )
         self.site_id_coord = site_id_coord
 
+    def _match_site_order(self, cube: Cube, target: Cube) -> np.ndarray:
+        """Arrange the data within a cube, so that the sites are in the same order
+        as the sites within the target cube.
+
+        Args:
+            cube: Cube with the data to be arranged.
+            target: Cube with the required order of the sites.
+
+        Returns:
+            The data from the cube with the sites ordered as in the target cube.
+        """
+        sites = list(cube.coord(self.site_id_coord).points)
+        target_sites = list(target.coord(self.site_id_coord).points)
+        if sites == target_sites:
+            return cube.data
+        (site_dim,) = cube.coord_dims(self.site_id_coord)
+        indices = [sites.index(site) for site in target_sites]
+        return np.take(cube.data, indices, axis=site_dim)
+
     def _fit_polynomial(self, forecasts: Cube, truths: Cube, dz: Cube) -> float:
         """Create a polynomial fit between the log of the ratio of forecasts and truths,
         and the difference in altitude between the grid point and the site.
@@ -92,18 +111,21 @@ class EstimateDzRescaling(PostProcessingPlugin):
             A scale factor deduced from a polynomial fit. This is a single value
             deduced from the fit between the forecasts and the truths.
         """
-        truths_data = np.reshape(truths.data, forecasts.shape)
+        truths_data = np.reshape(
+            self._match_site_order(truths, forecasts), forecasts.shape
+        )
+        dz_data = self._match_site_order(dz, forecasts)
 
         data_filter = (
             (forecasts.data != 0)
             & (truths_data != 0)
-            & (dz.data >= self.dz_lower_bound)
-            & (dz.data <= self.dz_upper_bound)
+            & (dz_data >= self.dz_lower_bound)
+            & (dz_data <= self.dz_upper_bound)
         )
 
         forecasts_data = forecasts.data.flatten()
         truths_data = truths_data.flatten()
-        dz_data = np.broadcast_to(dz.data, forecasts.shape).flatten()
+        dz_data = np.broadcast_to(dz_data, forecasts.shape).flatten()
         data_filter = data_filter.flatten()
 
         log_error_ratio = np.log(forecasts_data[data_filter] / truths_data[data_filter])
-- 
2.43.0


From fe59dff51c02ee8b0dfbc49094195dd8bceb379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 114/133] fix: ignore missing values when estimating the
 altitude rescaling

---
 improver/calibration/dz_rescaling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/calibration/dz_rescaling.py b/improver/calibration/dz_rescaling.py
index f659701..9ed9947 100644
--- a/improver/calibration/dz_rescaling.py
+++ b/improver/calibration/dz_rescaling.py
@@ -121,6 +121,8 @@ class EstimateDzRescaling(PostProcessingPlugin):
             & (truths_data != 0)
             & (dz_data >= self.dz_lower_bound)
             & (dz_data <= self.dz_upper_bound)
+            & np.isfinite(forecasts.data)
+            & np.isfinite(truths_data)
         )
 
         forecasts_data = forecasts.data.flatten()
-- 
2.43.0


From 7d7bc7011067c86da817e90314650a2f54276fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 115/133] fix: give unit scaled dz where forecasts match truths

---
 improver/calibration/dz_rescaling.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/improver/calibration/dz_rescaling.py b/improver/calibration/dz_rescaling.py
index 9ed9947..4719330 100644
--- a/improver/calibration/dz_rescaling.py
+++ b/improver/calibration/dz_rescaling.py
@@ -152,19 +152,13 @@ class EstimateDzRescaling(PostProcessingPlugin):
         Returns:
             Scaled difference in altitude at each site.
         """
+        # Restrict the difference in altitude to the bounds provided, so that sites
+        # outside the bounds use the scaled dz found at the nearest bound.
+        dz = np.clip(dz, self.dz_lower_bound, self.dz_upper_bound)
+
         # Multiplication by -1 using negative exponent rule, so that this term can
         # be multiplied by the forecast during the application step.
-        scaled_dz = np.exp(-1.0 * scale_factor * dz)
-
-        # Compute lower and upper bounds for the scaled dz.
-        # dz_lower_bound may not result in the lower bound for the scaled dz depending
-        # upon the sign of the scale_factor term.
-        scaled_dz_a = np.exp(-1.0 * scale_factor * self.dz_lower_bound)
-        scaled_dz_b = np.exp(-1.0 * scale_factor * self.dz_upper_bound)
-        scaled_dz_lower = np.amin([scaled_dz_a, scaled_dz_b])
-        scaled_dz_upper = np.amax([scaled_dz_a, scaled_dz_b])
-
-        return np.clip(scaled_dz.data, scaled_dz_lower, scaled_dz_upper)
+        return np.exp(-1.0 * scale_factor * dz)
 
     def _compute_scaled_dz_cube(
         self, forecast: Cube, dz: Cube, scale_factor: float,
-- 
2.43.0


From 510ffaa79e77d25824e371753619ee0c3eb5734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 116/133] fix: give smoothing coefficients for flat terrain

---
 .../generate_orographic_smoothing_coefficients.py           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
index 904f74a..517bb38 100644
--- a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
+++ b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
@@ -134,7 +134,11 @@ class OrographicSmoothingCoefficients(BasePlugin):
 
         scaled_cubes = iris.cube.CubeList()
         for cube in cubes:
-            scaled_data = (abs(cube.data) - cube_min) / (cube_max - cube_min)
+            if cube_max > cube_min:
+                scaled_data = (abs(cube.data) - cube_min) / (cube_max - cube_min)
+            else:
+                # All gradients are equal, so take these all as the minimum gradient.
+                scaled_data = np.zeros_like(cube.data)
             scaled_data = (
                 scaled_data
                 * (
-- 
2.43.0


From 5ffece231c1c206d51e64e5d14da8cab61cb484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 117/133] fix: leave the orography and mask as they were

---
 .../generate_orographic_smoothing_coefficients.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
index 517bb38..15592b9 100644
--- a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
+++ b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
@@ -300,6 +300,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
         # Enforce coordinate order for simpler processing.
         original_order = [crd.name() for crd in cube.coords(dim_coords=True)]
         target_order = [cube.coord(axis="y").name(), cube.coord(axis="x").name()]
+        cube = cube.copy()
         enforce_coordinate_ordering(cube, target_order)
 
         # Returns two cubes, ordered gradient in x and gradient in y.
@@ -325,6 +326,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
 
         # If a mask has been provided, zero coefficients where required.
         if mask is not None:
+            mask = mask.copy()
             enforce_coordinate_ordering(mask, target_order)
             self.zero_masked(*smoothing_coefficients, mask)
 
-- 
2.43.0


From 869c727dc9bff350727348cb8f7e9cd01ec26e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:30 +0000
Subject: [PATCH 118/133] fix: day-night mask uses the time bounds of each time

---
 improver/utilities/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 1db25ec..d1eb7e3 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -394,7 +394,7 @@ class DayNightMask(BasePlugin):
         modified_masks = iris.cube.CubeList()
         for mask_cube in daynight_mask.slices_over("time"):
             if mask_cube.coord("time").has_bounds():
-                lb, ub = cube.coord("time").cell(0).bound
+                lb, ub = mask_cube.coord("time").cell(0).bound
                 dtval = lb + (ub - lb) / 2
             else:
                 dtval = mask_cube.coord("time").cell(0).point
-- 
2.43.0


From 3e69638f073cec33a8e5d9a2f50bc18650053475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:30 +0000
Subject: [PATCH 119/133] fix: day-night mask plugin forgets the spots of
 earlier cubes

---
 improver/utilities/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index d1eb7e3..bdc0020 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -281,6 +281,7 @@ class DayNightMask(BasePlugin):
             will be ignored although they might appear as attributes
             on the cube as it is extracted from the first slice.
         """
+        self.irregular = False
         slice_coords = [cube.coord(axis="y"), cube.coord(axis="x")]
 
         # To handle non-orthogonal spatial coordinates, i.e. multiple coordinates
-- 
2.43.0


From 549181106e99c0907069ebcca368ba421af66478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:30 +0000
Subject: [PATCH 120/133] fix: night masking follows the order of the cube's
 dimensions

---
 improver/cli/apply_night_mask.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/improver/cli/apply_night_mask.py b/improver/cli/apply_night_mask.py
index b338654..570d6f6 100755
--- a/improver/cli/apply_night_mask.py
+++ b/improver/cli/apply_night_mask.py
@@ -38,9 +38,18 @@ def process(cube: cli.inputcube):
         if "above_threshold" not in cube.name():
             raise ValueError(f"{cube.name()} unsuitable for night masking")
 
-    mask = DayNightMask()(cube).data
-    # Broadcast mask to shape of input cube to account for additional dimensions.
-    mask = np.broadcast_to(mask, cube.shape)
+    mask = DayNightMask()(cube)
+    # Order the mask dimensions as they are ordered in the input cube, and add
+    # additional dimensions so that the mask will broadcast to the input cube.
+    mask_dims = [
+        cube.coord_dims(mask.coord(dimensions=dim, dim_coords=True))[0]
+        for dim in range(mask.ndim)
+    ]
+    night = np.transpose(mask.data == DayNightMask().night, np.argsort(mask_dims))
+    night = night.reshape(
+        [npts if dim in mask_dims else 1 for dim, npts in enumerate(cube.shape)]
+    )
+    night = np.broadcast_to(night, cube.shape)
     # setting night values to zero.
-    cube.data = np.where(mask == DayNightMask().night, 0, cube.data)
+    cube.data = np.where(night, 0, cube.data)
     return cube
-- 
2.43.0


From 9e1d28f62cba2b23bb4bd3c66e504261ab220bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:30 +0000
Subject: [PATCH 121/133] fix: night masking keeps missing points missing

---
 improver/cli/apply_night_mask.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/cli/apply_night_mask.py b/improver/cli/apply_night_mask.py
index 570d6f6..cc536f7 100755
--- a/improver/cli/apply_night_mask.py
+++ b/improver/cli/apply_night_mask.py
@@ -51,5 +51,8 @@ def process(cube: cli.inputcube):
     )
     night = np.broadcast_to(night, cube.shape)
     # setting night values to zero.
-    cube.data = np.where(night, 0, cube.data)
+    if np.ma.isMaskedArray(cube.data):
+        cube.data = np.ma.where(night, 0, cube.data)
+    else:
+        cube.data = np.where(night, 0, cube.data)
     return cube
-- 
2.43.0


From bd2f426e93a8e2549caebd7c4c7fd5be3ac60efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:30 +0000
Subject: [PATCH 122/133] fix: clear sky radiation for targets with other
 dimensions or orders

---
 .../generate_ancillaries/generate_derived_solar_fields.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/improver/generate_ancillaries/generate_derived_solar_fields.py b/improver/generate_ancillaries/generate_derived_solar_fields.py
index 2f55d7c..219b8fe 100644
--- a/improver/generate_ancillaries/generate_derived_solar_fields.py
+++ b/improver/generate_ancillaries/generate_derived_solar_fields.py
@@ -537,6 +537,14 @@ class GenerateClearskySolarRadiation(BasePlugin):
             A cube containing the clearsky solar radiation accumulated over the specified
             period, on the same spatial grid as target_grid.
         """
+        # Reduce all inputs to their spatial dimensions, with y before x.
+        target_grid, surface_altitude, linke_turbidity = [
+            cube
+            if cube is None
+            else next(cube.slices([cube.coord(axis="Y"), cube.coord(axis="X")]))
+            for cube in (target_grid, surface_altitude, linke_turbidity)
+        ]
+
         surface_altitude, linke_turbidity = self._initialise_input_cubes(
             target_grid, surface_altitude, linke_turbidity
         )
-- 
2.43.0


From cea233eca24997dacddc23f16dd84ff25b35e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:03 +0000
Subject: [PATCH 123/133] fix: visibility uses the chance of cloud base below
 the ground threshold

---
 improver/visibility/visibility_combine_cloud_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/visibility/visibility_combine_cloud_base.py b/improver/visibility/visibility_combine_cloud_base.py
index 323ee2d..f801fe5 100644
--- a/improver/visibility/visibility_combine_cloud_base.py
+++ b/improver/visibility/visibility_combine_cloud_base.py
@@ -173,6 +173,8 @@ class VisibilityCombineCloudBase(PostProcessingPlugin):
         if probability_is_above_or_below(visibility_cube) == "above":
             visibility_cube = invert_probabilities(visibility_cube)
             vis_inverted = True
+        if probability_is_above_or_below(cloud_base_ground_cube) == "above":
+            cloud_base_ground_cube = invert_probabilities(cloud_base_ground_cube)
 
         # Calculate the scaling factors for each visibility threshold
         visibility_threshold_coord = find_threshold_coordinate(visibility_cube).name()
-- 
2.43.0


From 56145bbe8a4634394e2bc52da294e376b2d4bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:03 +0000
Subject: [PATCH 124/133] fix: visibility scaling uses thresholds in metres

---
 improver/visibility/visibility_combine_cloud_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/visibility/visibility_combine_cloud_base.py b/improver/visibility/visibility_combine_cloud_base.py
index f801fe5..ff1d943 100644
--- a/improver/visibility/visibility_combine_cloud_base.py
+++ b/improver/visibility/visibility_combine_cloud_base.py
@@ -178,7 +178,9 @@ class VisibilityCombineCloudBase(PostProcessingPlugin):
 
         # Calculate the scaling factors for each visibility threshold
         visibility_threshold_coord = find_threshold_coordinate(visibility_cube).name()
-        visibility_thresholds = visibility_cube.coord(visibility_threshold_coord).points
+        threshold_coord_in_m = visibility_cube.coord(visibility_threshold_coord).copy()
+        threshold_coord_in_m.convert_units("m")
+        visibility_thresholds = threshold_coord_in_m.points
         cloud_base_scaling_factor = self.get_scaling_factors(visibility_thresholds)
 
         # Combine each visibility threshold with the scaled cloud base at ground level cube
-- 
2.43.0


From c23ca97f0f39b88343d5f22fa73fe6e5a884961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:29 +0000
Subject: [PATCH 125/133] fix: rainforest bins put values equal to a split on
 its left

---
 improver/calibration/rainforest_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index 1529e8d..54a3db9 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -533,8 +533,9 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
             binned_data = np.empty(input_data.shape, dtype=np.int32)
             n_features = len(feature_splits)
             for i in range(n_features):
+                # values equal to a split fall on the left of it, as in the tree models
                 binned_data[:, i] = np.digitize(
-                    input_data[:, i], bins=feature_splits[i]
+                    input_data[:, i], bins=feature_splits[i], right=True
                 )
             # sort so rows in the same bins are grouped
             sort_ind = np.lexsort(tuple([binned_data[:, i] for i in range(n_features)]))
-- 
2.43.0


From 40dd71cd9624a96156e4d51b905d809fe78019f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:30 +0000
Subject: [PATCH 126/133] fix: rainforest thresholds of small magnitude are
 told apart

---
 improver/calibration/rainforest_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index 54a3db9..1584b06 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -642,7 +642,7 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
         bounds_data = get_bounds_of_distribution(forecast.name(), forecast.units)
         lower_bound = bounds_data[0].astype(np.float32)
         if (len(self.model_thresholds) == len(output_thresholds)) and np.allclose(
-            self.model_thresholds, output_thresholds
+            self.model_thresholds, output_thresholds, atol=0
         ):
             output_probabilities = np.copy(input_probabilities.data)
         else:
@@ -671,7 +671,7 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
             output_probabilities = self._make_decreasing(output_probabilities)
 
         # set probability for lower bound to 1
-        if np.isclose(output_thresholds[0], lower_bound):
+        if np.isclose(output_thresholds[0], lower_bound, atol=0):
             output_probabilities[0, :] = 1
 
         # Make output cube
-- 
2.43.0


From 7cfa91957669fa7c2b0745a0e96a6c5d8cca0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:30 +0000
Subject: [PATCH 127/133] fix: rainforest features follow the forecast's
 dimension order

---
 improver/calibration/rainforest_calibration.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index 1584b06..c378d01 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -33,7 +33,11 @@ from improver.metadata.utilities import (
     create_new_diagnostic_cube,
     generate_mandatory_attributes,
 )
-from improver.utilities.cube_manipulation import add_coordinate_to_cube, compare_coords
+from improver.utilities.cube_manipulation import (
+    add_coordinate_to_cube,
+    compare_coords,
+    enforce_coordinate_ordering,
+)
 
 
 class ApplyRainForestsCalibration(PostProcessingPlugin):
@@ -406,7 +410,12 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
                 )
                 aligned_cubes.append(expanded_cube)
             else:
-                aligned_cubes.append(cube)
+                aligned_cubes.append(cube.copy())
+
+        # Order the dimensions of all cubes as they are in the forecast cube
+        dim_order = [coord.name() for coord in aligned_cubes[-1].coords(dim_coords=True)]
+        for cube in aligned_cubes:
+            enforce_coordinate_ordering(cube, dim_order)
 
         # Make data contiguous (required for numba interpolation)
         for cube in aligned_cubes:
-- 
2.43.0


From b5bbb30c3a0dab4eceac528a500075e0455137d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 128/133] fix: import check_cube_coordinates from where it is
 defined

---
 improver/blending/weights.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/improver/blending/weights.py b/improver/blending/weights.py
index 042de87..5cfa7fd 100644
--- a/improver/blending/weights.py
+++ b/improver/blending/weights.py
@@ -18,10 +18,8 @@ from scipy.interpolate import interp1d
 
 from improver import BasePlugin
 from improver.blending import MODEL_BLEND_COORD, MODEL_NAME_COORD
-from improver.utilities.cube_manipulation import (
-    check_cube_coordinates,
-    sort_coord_in_cube,
-)
+from improver.utilities.cube_checker import check_cube_coordinates
+from improver.utilities.cube_manipulation import sort_coord_in_cube
 
 
 class WeightsUtilities:
-- 
2.43.0


From 8da4bfa920e199879af54cf0588f5d8c4a1c6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:42 +0000
Subject: [PATCH 129/133] fix: the mask is applied as it is unless inversion is
 asked for

---
 improver/cli/apply_mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/cli/apply_mask.py b/improver/cli/apply_mask.py
index 84f1c99..c6a98ae 100644
--- a/improver/cli/apply_mask.py
+++ b/improver/cli/apply_mask.py
@@ -10,7 +10,7 @@ from improver import cli
 
 @cli.clizefy
 @cli.with_output
-def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = "False"):
+def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = None):
     """
     Applies provided mask to cube data. The mask_name is used to extract the mask cube
     from the input cubelist. The other cube in the cubelist is then masked using the
@@ -31,4 +31,4 @@ def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = "False"):
     """
     from improver.utilities.mask import apply_mask
 
-    return apply_mask(*cubes, mask_name=mask_name, invert_mask=invert_mask)
+    return apply_mask(*cubes, mask_name=mask_name, invert_mask=bool(invert_mask))
-- 
2.43.0


From bf31be6a072ae96556cb542816cd7e99fbfabf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:10 +0000
Subject: [PATCH 130/133] fix: report models without a recorded cycle rather
 than fail with KeyError

---
 improver/developer_tools/metadata_interpreter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/improver/developer_tools/metadata_interpreter.py b/improver/developer_tools/metadata_interpreter.py
index 3fc532c..096f71c 100644
--- a/improver/developer_tools/metadata_interpreter.py
+++ b/improver/developer_tools/metadata_interpreter.py
@@ -311,8 +311,14 @@ class MOMetadataInterpreter:
                         self.errors.append(
                             f"Model ID attribute contains unrecognised model code {code}"
                         )
-                    else:
+                        continue
+                    try:
                         names[-1] += f" (cycle: {cycles[code]})"
+                    except KeyError:
+                        self.errors.append(
+                            f"Attribute {self.record_run_attr} does not record a "
+                            f"cycle for model {code}"
+                        )
                 self.model = ", ".join(names)
 
             return
-- 
2.43.0


From ab021dc6ad5c0e978eaea2871317be4c2f399bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:13 +0000
Subject: [PATCH 131/133] fix: report missing time coordinates of files with
 methods over time

---
 improver/developer_tools/metadata_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/developer_tools/metadata_interpreter.py b/improver/developer_tools/metadata_interpreter.py
index 096f71c..bbdab90 100644
--- a/improver/developer_tools/metadata_interpreter.py
+++ b/improver/developer_tools/metadata_interpreter.py
@@ -267,7 +267,7 @@ class MOMetadataInterpreter:
                         )
                 # check point and bounds on method coordinate
                 if "time" in cm.coord_names:
-                    if cube.coord("time").bounds is None:
+                    if cube.coords("time") and cube.coord("time").bounds is None:
                         self.errors.append(f"Cube of{self.methods} has no time bounds")
 
             elif cm in NONCOMP_CMS or cm.method in NONCOMP_CM_METHODS:
-- 
2.43.0


From 8d6d101919112ad85bfe0c872343f583d94cbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:02 +0000
Subject: [PATCH 132/133] fix: leave no record of runs on the inputs of
 decision trees nor stray on the result

---
 improver/categorical/decision_tree.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 7d569c4..80d2fa3 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -18,6 +18,7 @@ from iris.exceptions import CoordinateNotFoundError
 from numpy import ndarray
 
 from improver import BasePlugin
+from improver.blending import RECORD_COORD
 from improver.blending.utilities import (
     record_run_coord_to_attr,
     store_record_run_as_coord,
@@ -585,10 +586,6 @@ class ApplyDecisionTree(BasePlugin):
             optional_attributes.update(
                 update_model_id_attr_attribute(cubes, self.model_id_attr)
             )
-        if self.record_run_attr and self.model_id_attr:
-            store_record_run_as_coord(
-                set(cubes), self.record_run_attr, self.model_id_attr
-            )
 
         categories = create_new_diagnostic_cube(
             self.meta["name"],
@@ -598,14 +595,20 @@ class ApplyDecisionTree(BasePlugin):
             optional_attributes=optional_attributes,
             data=np.ma.masked_all_like(template_cube.data).astype(np.int32),
         )
-        if self.record_run_attr and self.model_id_attr is not None:
+        if self.record_run_attr and self.model_id_attr:
             # Use set(cubes) here as the prepare_input_cubes method returns a list
             # of inputs that contains duplicate pointers to the same threshold
             # slices. Using set here ensures each contributing model/cycle/diagnostic
             # is only considered once when creating the record run coordinate.
+            source_cubes = set(cubes)
+            store_record_run_as_coord(
+                source_cubes, self.record_run_attr, self.model_id_attr
+            )
             record_run_coord_to_attr(
-                categories, set(cubes), self.record_run_attr, discard_weights=True
+                categories, source_cubes, self.record_run_attr, discard_weights=True
             )
+            for cube in source_cubes:
+                cube.remove_coord(RECORD_COORD)
         self._set_reference_time(categories, cubes)
 
         return categories
-- 
2.43.0


From 9200bfe3cfcf4a520236a9c02d23fd081476dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:02 +0000
Subject: [PATCH 133/133] fix: leave the inputs of modal categories as they are

---
 improver/categorical/modal_code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 6475d98..ce2adfa 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -205,6 +205,9 @@ class ModalCategory(BasePlugin):
             A single categorical cube with time bounds that span those of
             the input categorical cubes.
         """
+        # Leave the inputs as they are.
+        cubes = CubeList([cube.copy() for cube in cubes])
+
         # Store the information for the record_run attribute on the cubes.
         if self.record_run_attr and self.model_id_attr:
             store_record_run_as_coord(cubes, self.record_run_attr, self.model_id_attr)
-- 
2.43.0

