From 4e10e194d2d60ba1ed59649f09fb805ff4f5e1c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 01/48] fix: build the feature index from geographic geometries
 when image geometries are not used

---
 src/aws/osml/features/feature_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..e670051 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -51,7 +51,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 7b474dbdb1ae6575b585e58b7102b049a3693ba8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 02/48] fix: restore the original GDAL options when a
 GDALConfigEnv is re-entered or changed while active

---
 src/aws/osml/gdal/gdal_config.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..cec00f5 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 from osgeo import gdal
 
@@ -58,7 +58,8 @@ class GDALConfigEnv:
             self.options = options.copy()
         else:
             self.options = {}
-        self.old_options: Dict = {}
+        # Values to restore on exit. This is a stack because the same environment can be entered again while active.
+        self.old_options: List[Dict] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,10 +80,10 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
+        self.old_options.append({key: gdal.GetConfigOption(key) for key in self.options})
         for key, val in self.options.items():
-            self.old_options[key] = gdal.GetConfigOption(key)
             gdal.SetConfigOption(key, str(val))
 
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
-        for key, val in self.options.items():
-            gdal.SetConfigOption(key, self.old_options[key])
+        for key, val in self.old_options.pop().items():
+            gdal.SetConfigOption(key, val)
-- 
2.43.0


From 30ec3c10f17789b4267766def7a3ddb473aedece Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 03/48] fix: never format 60 minutes or 60 seconds, or the
 wrong whole degree, for a geodetic coordinate

---
 src/aws/osml/photogrammetry/coordinates.py | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..5d5463a 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -1,5 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+from typing import Tuple
+
 import numpy as np
 import numpy.typing as npt
 import pyproj
@@ -147,6 +149,21 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         """
         return f"{self:%ld%lm%ls%lH%od%om%os%oH}"
 
+    @staticmethod
+    def _to_degrees_minutes_seconds(decimal_degrees: float) -> Tuple[int, int, int]:
+        """
+        Splits an unsigned angle into whole degrees, minutes, and seconds. The total number of seconds is rounded first
+        so the floating point error introduced by a conversion from radians does not change the result and so that
+        minutes and seconds are always in the range [0:59].
+
+        :param decimal_degrees: the unsigned angle in degrees
+        :return: the degrees, minutes, and seconds
+        """
+        total_seconds = int(round(decimal_degrees * 3600, 6))
+        minutes, seconds = divmod(total_seconds, 60)
+        degrees, minutes = divmod(minutes, 60)
+        return degrees, minutes, seconds
+
     def __repr__(self):
         return f"GeodeticWorldCoordinate(coordinate={np.array_repr(self.coordinate)})"
 
@@ -159,18 +176,14 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        ld, lm, ls = self._to_degrees_minutes_seconds(lat_degrees)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        od, om, os = self._to_degrees_minutes_seconds(lon_degrees)
 
         result = []
         i = 0
-- 
2.43.0


From d9b3812a633d0b071374fb415ce4ce541c2119d7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:33:53 +0000
Subject: [PATCH 04/48] fix: keep the suggested dynamic range ordered and
 honour a zero valued last bucket

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..67d4852 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,9 +48,9 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
@@ -80,6 +80,10 @@ class DRAParameters:
         while cumulative_counts[e_max] > high_threshold and e_max > 0:
             e_max -= 1
 
+        # If most of the pixels fall in a single bucket the thresholds can cross. The high end of the range must never
+        # be below the low end of the range.
+        e_max = max(e_max, e_min)
+
         min_value = max([actual_min_value, e_min - a * (e_max - e_min)])
         max_value = min([actual_max_value, e_max + b * (e_max - e_min)])
 
-- 
2.43.0


From f2aed296bf4526d5f63d97bd2831e1af4f7d3517 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 05/48] fix: support constant valued and wide ranged bands when
 adjusting the dynamic range

---
 src/aws/osml/gdal/gdal_utils.py                  |  7 ++++++-
 .../osml/image_processing/gdal_tile_factory.py   | 16 ++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..0f6a135 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -152,7 +152,12 @@ def get_type_and_scales(
             min_value = stats[0]
             max_value = stats[1]
 
-            num_buckets = int(max_value - min_value)
+            if max_value <= min_value:
+                # All the pixels have the same value. GDAL is not able to compute a histogram for an empty range.
+                max_value = min_value + 1
+
+            # The bucket count is limited to keep the histogram for a wide range of 32 or 64-bit pixels a reasonable size
+            num_buckets = min(int(max_value - min_value), 2**16)
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..4a1a485 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -453,8 +453,8 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
+        min_value = band.GetMinimum() if band.GetMinimum() is not None else float(np.min(pixel_array))
+        max_value = band.GetMaximum() if band.GetMaximum() is not None else float(np.max(pixel_array))
 
         # Apply the Min-Max normalization
         normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
@@ -472,10 +472,14 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
-
-        hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
+        min_value = band.GetMinimum() if band.GetMinimum() is not None else float(np.min(pixel_array))
+        max_value = band.GetMaximum() if band.GetMaximum() is not None else float(np.max(pixel_array))
+        if max_value <= min_value:
+            # All the pixels have the same value. GDAL is not able to compute a histogram for an empty range.
+            max_value = min_value + 1
+
+        num_buckets = min(max(256, int(max_value - min_value)), 2**16)
+        hist = band.GetHistogram(min=min_value, max=max_value, buckets=num_buckets)
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
         )
-- 
2.43.0


From 538795c1f11a2e7b5b902578aaeffd8c380e087f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 06/48] fix: preserve 64-bit integer and double precision
 pixels in encoded tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 4a1a485..aa61c9d 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -534,6 +534,13 @@ class GDALTileFactory:
             self.raster_dataset, desired_output_type=self.output_type, range_adjustment=self.range_adjustment
         )
 
+        # GDAL scales pixels using double precision arithmetic. The full range of a 64-bit type can not be handled that
+        # way without turning pixels into NaN or losing precision so do not scale those images if the range is unchanged.
+        if output_type in [gdalconst.GDT_Int64, gdalconst.GDT_UInt64, gdalconst.GDT_Float64] and all(
+            band_scale[:2] == band_scale[2:] for band_scale in scale_params
+        ):
+            scale_params = None
+
         gdal_translate_kwargs = {
             "scaleParams": scale_params,
             "outputType": output_type,
-- 
2.43.0


From bc8b8cc147dd93d228f7437884a4575270c95817 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:35:44 +0000
Subject: [PATCH 07/48] fix: compute the power of integer SAR samples without
 overflow

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..c7597e3 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,9 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    if np.issubdtype(np.asarray(complex_data).dtype, np.integer):
+        # The square of an integer sample will not fit in the type used to store the samples (e.g. RE16I_IM16I)
+        complex_data = np.asarray(complex_data, dtype=np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0


From 95ad86ec1f9575c1b7558b78cdea68ad795eb5b4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 08/48] fix: display SAR pixels with no signal as black instead
 of NaN

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index c7597e3..3e3caca 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -97,6 +97,9 @@ def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: flo
     :return: the quantized grayscale image clipped to the range of [0:255]
     """
     mean_value = np.mean(magnitude_values[np.isfinite(magnitude_values)])
+    if mean_value == 0:
+        # All the magnitudes are zero
+        return np.zeros(np.shape(magnitude_values))
     u = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * u * magnitude_values, 0.0, 255.0)
 
@@ -118,6 +121,9 @@ def quarter_power_mag_values(
     mean_value = precomputed_mean
     if mean_value is None:
         mean_value = np.mean(sqrt_magnitude[np.isfinite(sqrt_magnitude)])
+    if mean_value == 0:
+        # All the magnitudes are zero
+        return np.zeros(np.shape(magnitude_values))
     b = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * b * sqrt_magnitude, 0.0, 255.0)
 
-- 
2.43.0


From 30723608aa57464802c29c06d3767c5222228fdc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 09/48] fix: treat a missing DEM tile as no coverage when GDAL
 exceptions are enabled

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index b4caca1..dbd3801 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -47,7 +47,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         """
         tile_location = f"{self.tile_directory}/{tile_path}"
         tile_location = tile_location.replace("s3:/", "/vsis3", 1)
-        ds = gdal.Open(tile_location)
+        try:
+            ds = gdal.Open(tile_location)
+        except RuntimeError:
+            # When GDAL exceptions are enabled the failure to open a dataset is raised instead of returning None
+            ds = None
 
         # It isn't unusual for a DEM tile set to be missing tiles for regions (particularly over the ocean). If
         # the raster dataset can't be opened we'll return nothing so the client can proceed knowing that the
-- 
2.43.0


From 88acc1625ebd1139f853f0abb9b1e4d30973fa38 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 10/48] fix: only return map tiles that exist in the tile
 matrix for locations on its outer boundary

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..b4a26d5 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -80,6 +80,11 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         )
         x_pixels, y_pixels = self._meters_to_pixels(x_meters, y_meters, tile_matrix)
         tile_col, tile_row = self._pixels_to_tile(x_pixels, y_pixels)
+
+        # Locations on (or beyond) the outer boundary of the tile matrix belong to the closest tile in the matrix
+        max_tile_index = 2**tile_matrix - 1
+        tile_col = min(max(tile_col, 0), max_tile_index)
+        tile_row = min(max(tile_row, 0), max_tile_index)
         return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=tile_row, tile_col=tile_col))
 
     def _resolution(self, tile_matrix: int) -> float:
-- 
2.43.0


From b54d13a78a7512f36bdd7e02668f64967a031317 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 11/48] fix: create orthophoto tiles with the requested width
 and height

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index aa61c9d..70f348d 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -183,7 +183,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
@@ -276,16 +276,16 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From fbca93b956aa333e1a4110319d5e88c1e1c01dbc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 12/48] fix: keep the pixels at the edge of the image in
 orthophoto tiles made from overviews

---
 .../image_processing/gdal_tile_factory.py     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 70f348d..8893e50 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -210,10 +210,10 @@ class GDALTileFactory:
             int(np.ceil(np.max(src_y))),
         )
         if (
-            src_bbox[0] > self.raster_dataset.RasterXSize
-            or src_bbox[1] > self.raster_dataset.RasterYSize
-            or src_bbox[2] < 0
-            or src_bbox[3] < 0
+            src_bbox[0] >= self.raster_dataset.RasterXSize
+            or src_bbox[1] >= self.raster_dataset.RasterYSize
+            or src_bbox[2] <= 0
+            or src_bbox[3] <= 0
         ):
             # Source bbox does not intersect the image, no tile to create
             logger.debug(
@@ -241,7 +241,13 @@ class GDALTileFactory:
         )
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
-        overview_bbox = tuple([int(x / 2**r_level) for x in src_bbox])
+        # The overview region must cover all of the source region so the minimum is rounded down and the maximum up.
+        overview_bbox = (
+            int(np.floor(src_bbox[0] / 2**r_level)),
+            int(np.floor(src_bbox[1] / 2**r_level)),
+            int(np.ceil(src_bbox[2] / 2**r_level)),
+            int(np.ceil(src_bbox[3] / 2**r_level)),
+        )
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
@@ -270,8 +276,8 @@ class GDALTileFactory:
         # Update the src_x and src_y coordinates because we cropped the image and pulled it from a different
         # resolution level. The original coordinates assumed the image origin at 0,0 in a full resolution
         # image and adjusted the remapping coordinates to account for the added border
-        src_x = (src_x - src_bbox[0]) / 2**r_level + border_size
-        src_y = (src_y - src_bbox[1]) / 2**r_level + border_size
+        src_x = src_x / 2**r_level - overview_bbox[0] + border_size
+        src_y = src_y / 2**r_level - overview_bbox[1] + border_size
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-- 
2.43.0


From e641d23800fab1f2a1301c7fbbdd3bbc349e3130 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 13/48] fix: create orthophoto tiles from images with more than
 3 bands when the range is not adjusted

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 8893e50..c27fbc0 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -389,6 +389,9 @@ class GDALTileFactory:
         elif self.range_adjustment == RangeAdjustmentType.MINMAX:
             return self._normalize_bands(pixel_array, self._normalize_band_minmax)
         else:
+            if pixel_array.ndim == 3:
+                # Multiband image, a display can only show the first 3 bands
+                pixel_array = pixel_array[:, :, 0:3]
             return pixel_array.astype(np.uint8)
 
     def _normalize_bands(
-- 
2.43.0


From 06fad570f4d89f0929744485fe39ee01f32c95ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 14/48] fix: make SIDD chip metadata relative to the source
 image when several chips are created

---
 src/aws/osml/image_processing/sidd_updater.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..3e21745 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+        # Here we're storing off the original chip to support the case where multiple chips are created from a SIDD
+        # image. Each of them is a chip of the image described by this metadata and not a chip of the previous chip.
+        self.original_geometric_chip = None
+        if self.sidd.downstream_reprocessing:
+            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -87,27 +93,27 @@ class SIDDUpdater:
             (chip_bounds[0] + chip_bounds[2] - 1, chip_bounds[1] + chip_bounds[3] - 1),
             (chip_bounds[0], chip_bounds[1] + chip_bounds[3] - 1),
         ]
-        if self.sidd.downstream_reprocessing.geometric_chip:
+        if self.original_geometric_chip:
             original_chip_size = (
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.col,
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.row,
+                self.original_geometric_chip.chip_size.col,
+                self.original_geometric_chip.chip_size.row,
             )
             original_corners = [
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.row,
+                    self.original_geometric_chip.original_upper_left_coordinate.col,
+                    self.original_geometric_chip.original_upper_left_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.row,
+                    self.original_geometric_chip.original_upper_right_coordinate.col,
+                    self.original_geometric_chip.original_upper_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.row,
+                    self.original_geometric_chip.original_lower_right_coordinate.col,
+                    self.original_geometric_chip.original_lower_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.row,
+                    self.original_geometric_chip.original_lower_left_coordinate.col,
+                    self.original_geometric_chip.original_lower_left_coordinate.row,
                 ),
             ]
 
-- 
2.43.0


From 8b516bc627a4704df5c24826e3053719a5aed1bc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 15/48] fix: relate the corner pixels of a SIDD chip to their
 locations in the original image

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index ce1b25f..b7ebcff 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -112,14 +112,15 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             # Since this SIDD image is a chip of a full image wrap the regular sensor model in a sensor model that
             # will handle the conversions between the chipped image coordinates and the full image coordinates.
             # This 4 corner transformation handles images that are cropped, rotated, and scaled, from the full
-            # SIDD image grid.
+            # SIDD image grid. Note that the original corner coordinates in the metadata are the locations of the corner
+            # pixels of the chip (see section 5.1.1 of the SIDD specification v3.0 Volume 1).
             geo_chip = sidd.downstream_reprocessing.geometric_chip
-            chip_num_rows = geo_chip.chip_size.row
-            chip_num_cols = geo_chip.chip_size.col
+            last_row = geo_chip.chip_size.row - 1
+            last_col = geo_chip.chip_size.col - 1
 
             chipped_image_coords = [
                 ImageCoordinate(coord)
-                for coord in [[0, 0], [chip_num_cols, 0], [chip_num_cols, chip_num_rows], [0, chip_num_rows]]
+                for coord in [[0, 0], [last_col, 0], [last_col, last_row], [0, last_row]]
             ]
             full_image_coords = [
                 ImageCoordinate([x.col, x.row])
-- 
2.43.0


From 75c31d95c3efa6b5f24be9bbb4e29726fdac6c0b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 16/48] fix: ignore an ICHIPB TRE that can not be parsed
 instead of failing to build a sensor model

---
 src/aws/osml/gdal/sensor_model_factory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..5f2787f 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -33,6 +33,7 @@ class ChippedImageInfoFacade:
 
         :return: None
         """
+        self.is_valid = False
         try:
             # Loop through the Output Product (OP) and Full Image (FI) fields in the ICHIPB TRE and construct
             # the corresponding image coordinates needed to create a chipped sensor model.
@@ -48,6 +49,7 @@ class ChippedImageInfoFacade:
 
             self.full_image_width = get_tre_field_value(ichipb_tre, "FI_COL", int)
             self.full_image_height = get_tre_field_value(ichipb_tre, "FI_ROW", int)
+            self.is_valid = True
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
             logging.warning(str(ve))
@@ -143,9 +145,11 @@ class SensorModelFactory:
             chipped_image_info = None
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
-                chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                ichipb_info = ChippedImageInfoFacade(ichipb_tre)
+                if ichipb_info.is_valid:
+                    chipped_image_info = ichipb_info
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From 90955111c13db85dbc0295691d6d3c105684e556 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 17/48] fix: do not fail on RSM or RPC metadata with missing
 sections or out of range coefficients

---
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 src/aws/osml/gdal/xmltre_utils.py             | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..f08659d 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"Image is missing the RSMPCA TRE for section row {row}, column {col}")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 53b8a15..81b8718 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -54,8 +54,10 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
         if index_str is None:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required index attribute")
         index = int(index_str)
+        if index < 0 or index >= num_coefficients:
+            raise ValueError(f"Invalid XML TRE: Repeated group in XML TRE has an index {index} that is out of range")
 
-        if group[0] is None:
+        if len(group) == 0:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required field child element")
 
         value_str = group[0].get("value")
-- 
2.43.0


From 871433deb25e3a1abcc487993c4a1aa556d57b4a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 18/48] fix: fall back to the remaining metadata when CSCRNA or
 the geo transform is not usable

---
 src/aws/osml/gdal/gdal_sensor_model_builder.py       |  8 +++++++-
 src/aws/osml/gdal/projective_sensor_model_builder.py | 11 ++++++++---
 src/aws/osml/gdal/sensor_model_factory.py            | 10 ++++++----
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..61885a2 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
@@ -36,7 +37,12 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except ValueError as ve:
+            logging.warning("Unable to use the geo transform of this image. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..32e6c17 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,14 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 5f2787f..f97e1b0 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -172,15 +172,17 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
-                    approximate_sensor_model = ProjectiveSensorModelBuilder(
+                    cscrna_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
-                    if approximate_sensor_model is not None and chipped_image_info is not None:
-                        approximate_sensor_model = ChippedImageSensorModel(
+                    if cscrna_sensor_model is not None and chipped_image_info is not None:
+                        cscrna_sensor_model = ChippedImageSensorModel(
                             chipped_image_info.full_image_coordinates,
                             chipped_image_info.chipped_image_coordinates,
-                            approximate_sensor_model,
+                            cscrna_sensor_model,
                         )
+                    if cscrna_sensor_model is not None:
+                        approximate_sensor_model = cscrna_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
-- 
2.43.0


From d25a0840663b05156e9e22455023c95b516d25ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:41:35 +0000
Subject: [PATCH 19/48] fix: keep the other sensor models when SICD or SIDD
 metadata is not usable

---
 src/aws/osml/gdal/sensor_model_factory.py      | 4 ++--
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 2 +-
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index f97e1b0..68e1f6e 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -200,10 +200,10 @@ class SensorModelFactory:
                     if "SIDD" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build() or precision_sensor_model
                         break
                     elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build() or precision_sensor_model
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 5cb798d..19bae2f 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -109,7 +109,7 @@ class SICDSensorModelBuilder(SensorModelBuilder):
             sicd = parser.from_string(self.sicd_xml)
             return SICDSensorModelBuilder.from_dataclass(sicd)
         except Exception as e:
-            logging.error("Exception caught attempting to build SICD sensor model.", e)
+            logging.error("Exception caught attempting to build SICD sensor model: %s", e)
         return None
 
     @staticmethod
diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index b7ebcff..5ca3682 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -57,7 +57,7 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             sicd = parser.from_string(self.sidd_xml)
             return SIDDSensorModelBuilder.from_dataclass(sicd)
         except Exception as e:
-            logging.error("Exception caught attempting to build SIDD sensor model.", e)
+            logging.error("Exception caught attempting to build SIDD sensor model: %s", e)
         return None
 
     @staticmethod
-- 
2.43.0


From 814f8b76933171560db435c974b417fd789c44d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 20/48] fix: geolocate the whole image bbox of features that
 also have an image geometry

---
 src/aws/osml/features/geolocation.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..b55d8f9 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -143,14 +143,18 @@ class Geolocator:
         # benefit by creating the same resolution of approximation grid over the smaller area.
         feature_bounds = [math.inf, math.inf, -math.inf, -math.inf]
         for feature in features:
-            image_geometry = self.property_accessor.find_image_geometry(feature)
-            if image_geometry is None:
-                continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            # A feature can have both an image geometry and an image bbox. The grid needs to cover both of them.
+            for image_geometry in [
+                self.property_accessor.find_image_geometry(feature),
+                self.property_accessor.get_image_bbox(feature),
+            ]:
+                if image_geometry is None:
+                    continue
+                image_geometry_bbox = image_geometry.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
-- 
2.43.0


From ac5ea9f719bb455923e7285a784ad63989c5526e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 21/48] fix: ignore feature collections where no feature has an
 image geometry

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index b55d8f9..c01ebe7 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -156,6 +156,10 @@ class Geolocator:
                 feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
                 feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        if not all(math.isfinite(bound) for bound in feature_bounds):
+            logging.warning("None of the features have a valid detection shape. No locations were assigned.")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 2b8077697747766e80b051e0b3abafbdf8f2e99e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 22/48] fix: project SICD scene points onto the ground plane
 that contains them

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py   |  1 +
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index 5ca3682..b281b07 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -104,6 +104,7 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             coa_projection_set=projection_set,
             u_spn=u_gpn,
             u_gpn=u_gpn,
+            scene_in_reference_plane=True,
         )
 
         if sidd.downstream_reprocessing is None or sidd.downstream_reprocessing.geometric_chip is None:
diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 912d441..e28084e 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -980,6 +980,7 @@ class SICDSensorModel(SensorModel):
         u_spn: np.ndarray,
         side_of_track: str = "L",
         u_gpn: Optional[np.ndarray] = None,
+        scene_in_reference_plane: bool = False,
     ):
         """
         Constructs a SICD sensor model from the information derived from the XML metadata.
@@ -989,8 +990,11 @@ class SICDSensorModel(SensorModel):
         :param u_spn: slant plane normal
         :param side_of_track: side of track imaged, "L" or "R", default "L"
         :param u_gpn: optional unit normal for ground plane
+        :param scene_in_reference_plane: true if scene points should be treated as if they are in the ground plane of
+                                         the image, default is to use the parallel plane that contains the scene point
         """
         super().__init__()
+        self.scene_in_reference_plane = scene_in_reference_plane
         self.coa_projection_set = coa_projection_set
         self.coord_converter = coord_converter
         self.uvect_gpn = u_gpn
@@ -1086,6 +1090,12 @@ class SICDSensorModel(SensorModel):
         # (3) Set initial ground plane position G1 to the scene point position S.
         scene_point = np.array([ecf_world_coordinate.x, ecf_world_coordinate.y, ecf_world_coordinate.z])
         g_n = scene_point.copy()
+        if self.scene_in_reference_plane:
+            surface_projection = self.default_surface_projection
+        else:
+            surface_projection = GroundPlaneRRDotSurfaceProjection(
+                WorldCoordinate(scene_point), self.default_surface_projection.u_gpn
+            )
 
         xrow_ycol_n = None
         cont = True
@@ -1106,7 +1116,7 @@ class SICDSensorModel(SensorModel):
             r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(
                 xrow_ycol_n
             )
-            p_n = self.default_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+            p_n = surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
 
             # (6) Compute the displacement between ground plane point Pn and the scene point S.
             diff_n = scene_point - p_n[0]
-- 
2.43.0


From 6ffc88b86696b4a58657825a860b6564b4456ef6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 23/48] fix: determine the side of track for SIDD images so
 elevation models can be used

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index b281b07..27310dc 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -3,6 +3,7 @@
 import logging
 from typing import Optional, Union
 
+import numpy as np
 from xsdata.formats.dataclass.parsers import XmlParser
 
 import aws.osml.formats.sidd.models.sidd_v1_0_0 as sidd100
@@ -99,10 +100,16 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
 
         u_gpn = SICDSensorModel.compute_u_gpn(scp_ecf=scp_ecf, u_row=u_row, u_col=u_col)
 
+        # The side of track is not part of the measurement metadata, but it can be determined from the position and
+        # velocity of the aperture reference point at the time the reference point was imaged.
+        _, _, _, arp_coa, varp_coa = projection_set.precise_rrdot_computation(np.array([0.0, 0.0]))
+        look = np.sum(np.cross(arp_coa - scp_ecf.coordinate, varp_coa) * u_gpn)
+
         sidd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
             u_spn=u_gpn,
+            side_of_track="L" if look > 0 else "R",
             u_gpn=u_gpn,
             scene_in_reference_plane=True,
         )
-- 
2.43.0


From a4dac8b1bd1a46a228118523610946c3d17ffc05 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:45:23 +0000
Subject: [PATCH 24/48] fix: synchronize access to the cache of elevation tiles

---
 src/aws/osml/photogrammetry/digital_elevation_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/digital_elevation_model.py b/src/aws/osml/photogrammetry/digital_elevation_model.py
index 05b60b5..97ed3c3 100644
--- a/src/aws/osml/photogrammetry/digital_elevation_model.py
+++ b/src/aws/osml/photogrammetry/digital_elevation_model.py
@@ -4,6 +4,7 @@
 # from numpy.typing import ArrayLike
 
 import operator
+import threading
 from abc import ABC, abstractmethod
 from typing import Any, Optional, Tuple
 
@@ -76,6 +77,10 @@ class DigitalElevationModel(ElevationModel):
     coverage.
     """
 
+    # The caches are not thread safe so access to them needs to be synchronized. The lock is shared by all the elevation
+    # models because it is only held while updating the cache and not while a tile is loaded.
+    raster_cache_lock = threading.RLock()
+
     def __init__(
         self,
         tile_set: DigitalElevationModelTileSet,
@@ -138,7 +143,7 @@ class DigitalElevationModel(ElevationModel):
         interpolation_grid, sensor_model, summary = self.get_interpolation_grid(tile_id)
         return summary
 
-    @cachedmethod(operator.attrgetter("raster_cache"))
+    @cachedmethod(operator.attrgetter("raster_cache"), lock=operator.attrgetter("raster_cache_lock"))
     def get_interpolation_grid(
         self, tile_path: str
     ) -> Tuple[Optional[RectBivariateSpline], Optional[SensorModel], Optional[ElevationRegionSummary]]:
-- 
2.43.0


From 50215e368352f8fceb60c8b16f8b6087628066b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 25/48] fix: summarize all the posts of an elevation tile

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index dbd3801..90bebd6 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -77,7 +77,8 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
-        stats = raster_band.GetStatistics(True, True)
+        # The summary needs to be computed from all the posts because approximate statistics can miss peaks or valleys
+        stats = raster_band.GetStatistics(False, True)
         summary = ElevationRegionSummary(
             min_elevation=stats[0],
             max_elevation=stats[1],
-- 
2.43.0


From 6d0a4d5c85588a814bf57d4f25d04cc1660dada9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 26/48] fix: locate SICD pixels when the elevation model does
 not cover the image

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index e28084e..3e1233c 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1054,7 +1054,9 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
-        if elevation_model is not None:
+        # If the elevation model does not have coverage for this image the default surface is used
+        scp_lle = geocentric_to_geodetic(self.coord_converter.scp_ecf)
+        if elevation_model is not None and elevation_model.describe_region(scp_lle) is not None:
             surface_projection = DEMRRDotSurfaceProjection(
                 self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
             )
-- 
2.43.0


From 04ef5089d0c186befb6b79297a7c6027186ea85e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:46:19 +0000
Subject: [PATCH 27/48] fix: keep NITF DES header fields left justified when
 they are copied to a tile

---
 src/aws/osml/gdal/nitf_des_accessor.py | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b586555..14d82c9 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -66,22 +66,22 @@ class NITFDESAccessor:
         """
         result_builder = StringIO()
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESVER", int), "02d"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), ">11"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), ">20"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), ">4"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), ">43"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), ">40"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), ">15"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), "<11"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), "<20"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), "<4"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), "<43"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), "<40"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), "<15"))
 
         # TODO: If DESID = TRE_OVERFLOW DESOFLW, DESITEM
 
@@ -91,7 +91,7 @@ class NITFDESAccessor:
             result_builder.write(
                 format(
                     NITFDESAccessor.parse_field_value(des_element, "DESSHF", str),
-                    f">{subheader_length}",
+                    f"<{subheader_length}",
                 )
             )
 
-- 
2.43.0


From fb2d2d055f85aaeb701265861c1c460bb528c24b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 28/48] fix: find the location of RSM pixels near the edge of
 the ground domain

---
 .../photogrammetry/replacement_sensor_model.py     | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3f4cb7a..5abc589 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -534,21 +534,13 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-        # domain. The starting simplex is estimated as a triangle centered in the ground domain.
+        # domain. The starting simplex is estimated as a triangle centered in the ground domain. Note that the search is
+        # not bounded by the ground domain because clipping the simplex at those bounds makes it collapse before the
+        # target coordinate has been found.
         res = minimize(
             distance_to_target_coordinate,
             initial_guess,
             method="Nelder-Mead",
-            bounds=[
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[0],
-                    self.context.ground_domain.geodetic_lonlat_bbox[2],
-                ),
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[1],
-                    self.context.ground_domain.geodetic_lonlat_bbox[3],
-                ),
-            ],
             options={
                 "xatol": radians(0.000001),
                 "fatol": 0.5,
-- 
2.43.0


From 504c3b7c38f310d5e03ff5d5c38fc3f80e70baff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:24:20 +0000
Subject: [PATCH 29/48] fix: locate pixels of RSM images with a rectangular
 ground domain across the antimeridian

---
 src/aws/osml/photogrammetry/replacement_sensor_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 5abc589..c7db2e6 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -522,15 +522,17 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         # at the center of the ground domain.
         v1 = self.context.ground_domain.geodetic_ground_domain_vertices[0]
         v4 = self.context.ground_domain.geodetic_ground_domain_vertices[3]
+        # The longitudes of a rectangular ground domain wrap around if it spans the antimeridian
+        longitude_span = (v4.longitude - v1.longitude + pi) % (2 * pi) - pi
         initial_guess = options.get(SensorModelOptions.INITIAL_GUESS) if options is not None else None
         if initial_guess is None:
-            initial_guess = np.array([(v1.longitude + v4.longitude) / 2.0, (v1.latitude + v4.latitude) / 2.0])
+            initial_guess = np.array([v1.longitude + longitude_span / 2.0, (v1.latitude + v4.latitude) / 2.0])
         if isinstance(initial_guess, List):
             initial_guess = np.array(initial_guess)
 
         initial_search_distance = options.get(SensorModelOptions.INITIAL_SEARCH_DISTANCE) if options is not None else None
         if initial_search_distance is None:
-            initial_search_distance = sqrt(((v1.longitude - v4.longitude) ** 2) + ((v1.latitude - v4.latitude) ** 2))
+            initial_search_distance = sqrt((longitude_span**2) + ((v1.latitude - v4.latitude) ** 2))
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-- 
2.43.0


From 4ec428d5fc8f189765d33206ec82f1f7969e7a98 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:24:26 +0000
Subject: [PATCH 30/48] fix: apply RPC polynomials to locations across the
 antimeridian from the offset

---
 src/aws/osml/photogrammetry/rpc_sensor_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/rpc_sensor_model.py b/src/aws/osml/photogrammetry/rpc_sensor_model.py
index 23f9d3a..866663c 100644
--- a/src/aws/osml/photogrammetry/rpc_sensor_model.py
+++ b/src/aws/osml/photogrammetry/rpc_sensor_model.py
@@ -162,7 +162,9 @@ class RPCSensorModel(SensorModel):
         # GeodeticWorldCoordinate is assumed to be in radians with meters elevation. Convert the coordinate to
         # degrees before normalizing the values.
         # TODO: Check that GeodeticWorldCoordinate in RSM is meters elevation
-        l_val = (degrees(geodetic_coordinate.x) - self.long_off) / self.long_scale
+        # The longitude is measured along the shortest way from the offset because an image may span the antimeridian.
+        longitude_from_offset = (degrees(geodetic_coordinate.x) - self.long_off + 180.0) % 360.0 - 180.0
+        l_val = longitude_from_offset / self.long_scale
         p_val = (degrees(geodetic_coordinate.y) - self.lat_off) / self.lat_scale
         h_val = (geodetic_coordinate.z - self.height_off) / self.height_scale
         norm_domain_coordinate = WorldCoordinate([l_val, p_val, h_val])
-- 
2.43.0


From 26961c2e320ce89042058017fc5d3fa004925e2b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:45:18 +0000
Subject: [PATCH 31/48] fix: read the source pixels of the last row and column
 of orthophoto tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index c27fbc0..23ada62 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -233,11 +233,12 @@ class GDALTileFactory:
         num_overviews = self.raster_dataset.GetRasterBand(1).GetOverviewCount()
         r_level = min(find_appropriate_r_level(src_bbox, tile_size[0]), num_overviews)
 
+        # The interpolation of the last row and column needs the pixels at the maximum coordinates too
         src_bbox = (
             max(src_bbox[0], 0),
             max(src_bbox[1], 0),
-            min(src_bbox[2], self.raster_dataset.RasterXSize),
-            min(src_bbox[3], self.raster_dataset.RasterYSize),
+            min(src_bbox[2] + 1, self.raster_dataset.RasterXSize),
+            min(src_bbox[3] + 1, self.raster_dataset.RasterYSize),
         )
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
-- 
2.43.0


From ab3f75be559481a4b77fbfb5eea42ac2c340422a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 32/48] fix: keep the color order of the bands in orthophoto
 tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 23ada62..be36754 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -321,6 +321,9 @@ class GDALTileFactory:
             logger.debug(f"alpha_mask = None.  Image has {dst.ndim} dimensions.")
 
         output_tile_pixels = dst
+        if dst.ndim == 3 and dst.shape[2] == 3:
+            # The first 3 bands are displayed as red, green, and blue but imencode expects blue, green, and red
+            output_tile_pixels = dst[:, :, ::-1]
         if alpha_mask is not None:
             # imencode does not support 2-band (grayscale + alpha) so the workaround is to convert to 3-band
             if output_tile_pixels.ndim == 2:
-- 
2.43.0


From dee51dc6c57bb805f811c3666aa84359d08956d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:56:25 +0000
Subject: [PATCH 33/48] fix: locate features in images that cross the
 antimeridian

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index c01ebe7..cd17a36 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -56,6 +56,8 @@ class LocationGridInterpolator:
                 latitude_values[i] = world_coordinate.latitude
                 elevation_values[i] = world_coordinate.elevation
                 i += 1
+        # Longitudes on the other side of the antimeridian can not be interpolated unless they are made continuous
+        longitude_values += 2.0 * math.pi * np.round((longitude_values[0] - longitude_values) / (2.0 * math.pi))
         longitude_values.shape = len(xs), len(ys)
         latitude_values.shape = longitude_values.shape
         elevation_values.shape = longitude_values.shape
@@ -79,6 +81,8 @@ class LocationGridInterpolator:
             self.latitude_interpolator(image_coord[0], image_coord[1])[0][0],
             self.elevation_interpolator(image_coord[0], image_coord[1])[0][0],
         ]
+        if abs(world_coord[0]) > math.pi:
+            world_coord[0] = math.remainder(world_coord[0], 2.0 * math.pi)
         world_coordinate = GeodeticWorldCoordinate(world_coord)
         if self.elevation_model is not None:
             self.elevation_model.set_elevation(world_coordinate)
-- 
2.43.0


From 3be9cae4b984c0d02dcd32537b4bcbc9e97e4969 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 34/48] fix: treat metadata GDAL cannot read as missing when
 loading a dataset with GDAL exceptions enabled

---
 src/aws/osml/gdal/gdal_utils.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index 0f6a135..1a5c2e3 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -2,7 +2,7 @@
 
 import logging
 import re
-from typing import Dict, List, Optional, Tuple
+from typing import Any, Callable, Dict, List, Optional, Tuple
 
 from defusedxml import ElementTree
 from osgeo import gdal, gdalconst
@@ -35,18 +35,18 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
         raise ValueError("GDAL Unable to Load: {}".format(image_path))
 
     # Get a GDAL Geo Transform and any available GCPs
-    geo_transform = ds.GetGeoTransform(can_return_null=True)
-    ground_control_points = ds.GetGCPs()
-    proj_wkt = ds.GetProjection()
+    geo_transform = read_optional_metadata(lambda: ds.GetGeoTransform(can_return_null=True))
+    ground_control_points = read_optional_metadata(ds.GetGCPs)
+    proj_wkt = read_optional_metadata(ds.GetProjection)
 
     # If this image has NITF TREs defined parse them
     parsed_tres = None
-    xml_tres = ds.GetMetadata("xml:TRE")
+    xml_tres = read_optional_metadata(lambda: ds.GetMetadata("xml:TRE"))
     if xml_tres is not None and len(xml_tres) > 0:
         parsed_tres = ElementTree.fromstring(xml_tres[0])
 
     # If this image has NITF DES segments read them
-    xml_dess = ds.GetMetadata("xml:DES")
+    xml_dess = read_optional_metadata(lambda: ds.GetMetadata("xml:DES"))
 
     selected_sensor_model_types = [
         SensorModelTypes.AFFINE,
@@ -70,6 +70,21 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
     return ds, sensor_model
 
 
+def read_optional_metadata(read_function: Callable[[], Any]) -> Any:
+    """
+    Read metadata of a dataset. Damaged metadata is handled like missing metadata, GDAL does the same by itself when
+    UseExceptions is not enabled.
+
+    :param read_function: the function that reads the metadata
+    :return: the metadata or None if GDAL is unable to read it
+    """
+    try:
+        return read_function()
+    except RuntimeError as e:
+        logger.warning("GDAL Unable to read metadata: %s", str(e))
+        return None
+
+
 def get_minmax_for_type(gdal_type: int) -> Tuple[float, float]:
     """
     This function computes the minimum and maximum values that can be stored in a given GDAL pixel type.
-- 
2.43.0


From a70546b8eae1ff1ebe076b2cb98010e5e0e564f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:22:05 +0000
Subject: [PATCH 35/48] fix: stretch the full range of pixel values when
 orthophoto tiles are min-max adjusted

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index be36754..67abccb 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -470,7 +470,8 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else float(np.max(pixel_array))
 
         # Apply the Min-Max normalization
-        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
+        value_range = max_value - min_value
+        normalized_pixel = (pixel_array - min_value) * (255.0 / (value_range if value_range > 0 else 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
-- 
2.43.0


From e4aa02ce969322714970e61e142dc5ef089e2e94 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:22:11 +0000
Subject: [PATCH 36/48] fix: stretch the range of floating point pixel values
 smaller than one in adjusted orthophoto tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 67abccb..461128d 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -497,10 +497,9 @@ class GDALTileFactory:
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
         )
+        value_range = dra_parameters.suggested_max_value - dra_parameters.suggested_min_value
         normalized_pixel = (
-            255
-            * (pixel_array - dra_parameters.suggested_min_value)
-            / max(dra_parameters.suggested_max_value - dra_parameters.suggested_min_value, 1.0)
+            255 * (pixel_array - dra_parameters.suggested_min_value) / (value_range if value_range > 0 else 1.0)
         )
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
-- 
2.43.0


From 33340b50763ee29cfd9b97e99220b45af52789f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:38:28 +0000
Subject: [PATCH 37/48] fix: treat elevation tiles whose posts cannot be read
 or are all void as missing tiles

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 90bebd6..9465696 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -67,7 +67,18 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             return None, None, None
 
         raster_band = ds.GetRasterBand(1)
-        band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+        try:
+            band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+            # The summary needs to be computed from all the posts because approximate statistics can miss peaks or valleys
+            min_max = raster_band.ComputeRasterMinMax(False)
+        except RuntimeError:
+            band_as_array, min_max = None, None
+
+        # If the posts can't be read, or none of them are valid, then there are no elevations to use
+        if band_as_array is None or min_max is None or np.any(np.isnan(min_max)):
+            logging.warning(f"DEM tile does not have valid elevations and can't be used: {tile_location}")
+            return None, None, None
+
         height, width = band_as_array.shape
         sensor_model = GDALAffineSensorModel(geo_transform)
 
@@ -77,11 +88,9 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
-        # The summary needs to be computed from all the posts because approximate statistics can miss peaks or valleys
-        stats = raster_band.GetStatistics(False, True)
         summary = ElevationRegionSummary(
-            min_elevation=stats[0],
-            max_elevation=stats[1],
+            min_elevation=min_max[0],
+            max_elevation=min_max[1],
             no_data_value=raster_band.GetNoDataValue(),
             post_spacing=post_spacing,
         )
-- 
2.43.0


From 2b2dd76384c578d3da6f8a9cedba1abbd62e2407 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:38:34 +0000
Subject: [PATCH 38/48] fix: treat elevation tiles with a geo transform that
 cannot be inverted as missing tiles

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 9465696..c02e8d7 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -80,7 +80,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             return None, None, None
 
         height, width = band_as_array.shape
-        sensor_model = GDALAffineSensorModel(geo_transform)
+        try:
+            sensor_model = GDALAffineSensorModel(geo_transform)
+        except ValueError:
+            logging.warning(f"DEM tile does not have a usable geo transform and can't be used: {tile_location}")
+            return None, None, None
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
         # in pixels to get an approximate pixel size in meters
-- 
2.43.0


From e6592b6c90f85d4a6866e2c477515f3443bef213 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 39/48] fix: do not create SICD sensor models for unsupported
 image formation algorithms

---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 19bae2f..b845b5f 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -176,6 +176,13 @@ class SICDSensorModelBuilder(SensorModelBuilder):
             logger.warning(f"SICD image with unknown grid type {sicd.grid.type_value}. No sensor model created.")
             return None
 
+        if projection_set is None:
+            logger.warning(
+                f"SICD image with unsupported image formation {sicd.image_formation.image_form_algo} "
+                f"for grid type {sicd.grid.type_value}. No sensor model created."
+            )
+            return None
+
         sicd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
-- 
2.43.0


From 7249c733e46f9ee812a63becd5b49334cc9ebc56 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 40/48] fix: recognise SICD and SIDD metadata by its root
 element instead of any mention of the name

---
 src/aws/osml/gdal/sensor_model_factory.py          | 5 +++--
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 68e1f6e..080a1bf 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -1,6 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
+import re
 from enum import Enum
 from typing import List, Optional
 from xml.etree import ElementTree as ET
@@ -197,12 +198,12 @@ class SensorModelFactory:
                     if not xml_str:
                         continue
 
-                    if "SIDD" in xml_str:
+                    if re.search(r"<([\w.-]+:)?SIDD\b", xml_str):
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
                         precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build() or precision_sensor_model
                         break
-                    elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
+                    elif re.search(r"<([\w.-]+:)?SICD\b", xml_str) and SensorModelTypes.SICD in self.selected_sensor_model_types:
                         precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build() or precision_sensor_model
                         break
 
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 461128d..0df7a2e 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -2,6 +2,7 @@
 
 import copy
 import logging
+import re
 from secrets import token_hex
 from typing import Any, Callable, Dict, List, Optional, Tuple
 
@@ -68,13 +69,13 @@ class GDALTileFactory:
                         continue
 
                     # Check to see if this is SICD or SIDD data
-                    if "SIDD" in xml_str:
+                    if re.search(r"<([\w.-]+:)?SIDD\b", xml_str):
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments if we find a SIDD segment.
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SIDDUpdater(xml_str)
                         break
-                    elif "SICD" in xml_str:
+                    elif re.search(r"<([\w.-]+:)?SICD\b", xml_str):
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SICDUpdater(xml_str)
                         break
-- 
2.43.0


From e85ab043d57a4b4b5c920ee3eae869a51abc7e8c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 41/48] fix: do not return or leave behind the incomplete file
 of a tile whose pixels can not be read

---
 .../image_processing/gdal_tile_factory.py     | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 0df7a2e..13a15fb 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -126,16 +126,22 @@ class GDALTileFactory:
         # From GDAL documentation:
         #   srcWin --- subwindow in pixels to extract:
         #               [left_x, top_y, width, height]
-        gdal.Translate(
-            temp_ds_name,
-            self.raster_dataset,
-            srcWin=src_window,
-            **gdal_translate_kwargs,
-        )
-
-        # Read the VSIFile
+        is_complete = False
         vsifile_handle = None
         try:
+            is_complete = (
+                gdal.Translate(
+                    temp_ds_name,
+                    self.raster_dataset,
+                    srcWin=src_window,
+                    **gdal_translate_kwargs,
+                )
+                is not None
+            )
+            if not is_complete:
+                return None
+
+            # Read the VSIFile
             vsifile_handle = gdal.VSIFOpenL(temp_ds_name, "r")
             if vsifile_handle is None:
                 return None
@@ -145,7 +151,11 @@ class GDALTileFactory:
         finally:
             if vsifile_handle is not None:
                 gdal.VSIFCloseL(vsifile_handle)
-            gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            if is_complete:
+                gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            elif gdal.VSIStatL(temp_ds_name) is not None:
+                # The drivers can not delete the incomplete file a failed translation leaves behind
+                gdal.Unlink(temp_ds_name)
 
     def create_orthophoto_tile(
         self, geo_bbox: Tuple[float, float, float, float], tile_size: Tuple[int, int]
-- 
2.43.0


From c53d80ca0cb07c446ff0d4056d8f756d8d0e0330 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:53:03 +0000
Subject: [PATCH 42/48] fix: place elevation posts in the center of their
 pixels

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index c02e8d7..fc9fa97 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -79,9 +79,15 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             logging.warning(f"DEM tile does not have valid elevations and can't be used: {tile_location}")
             return None, None, None
 
+        # The GDAL geo transform gives the location of the upper left corner of a pixel but the elevation is that of a post
+        # in the center of the pixel. Shift the origin so that the posts are at whole image coordinates.
+        post_transform = list(geo_transform)
+        post_transform[0] += (geo_transform[1] + geo_transform[2]) / 2.0
+        post_transform[3] += (geo_transform[4] + geo_transform[5]) / 2.0
+
         height, width = band_as_array.shape
         try:
-            sensor_model = GDALAffineSensorModel(geo_transform)
+            sensor_model = GDALAffineSensorModel(post_transform)
         except ValueError:
             logging.warning(f"DEM tile does not have a usable geo transform and can't be used: {tile_location}")
             return None, None, None
-- 
2.43.0


From b0555af4495095b9e85d7d016077c41474def67a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:58:26 +0000
Subject: [PATCH 43/48] fix: leave the elevation unchanged next to the voids of
 an elevation tile

---
 .../photogrammetry/digital_elevation_model.py | 42 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/digital_elevation_model.py b/src/aws/osml/photogrammetry/digital_elevation_model.py
index 97ed3c3..9a8b59b 100644
--- a/src/aws/osml/photogrammetry/digital_elevation_model.py
+++ b/src/aws/osml/photogrammetry/digital_elevation_model.py
@@ -8,6 +8,7 @@ import threading
 from abc import ABC, abstractmethod
 from typing import Any, Optional, Tuple
 
+import numpy as np
 from cachetools import LRUCache, cachedmethod
 from scipy.interpolate import RectBivariateSpline
 
@@ -67,6 +68,38 @@ class DigitalElevationModelTileFactory(ABC):
         """
 
 
+class VoidAwareInterpolator:
+    """
+    This class interpolates the elevations of a tile in which some of the posts are voids that do not have an elevation.
+    It is called like the spline used for tiles without voids, the result is NaN where the location is next to a void.
+    """
+
+    def __init__(self, x, y, elevations: np.ndarray, voids: np.ndarray) -> None:
+        """
+        Construct the interpolator for a grid of posts.
+
+        :param x: the positions of the posts along the first axis
+        :param y: the positions of the posts along the second axis
+        :param elevations: the elevations of the posts
+        :param voids: an array of the same shape that is true for the posts without an elevation
+
+        :return: None
+        """
+        self.elevation_interpolator = RectBivariateSpline(x, y, np.where(voids, 0, elevations), kx=1, ky=1)
+        self.void_interpolator = RectBivariateSpline(x, y, voids.astype(float), kx=1, ky=1)
+
+    def __call__(self, x: float, y: float) -> np.ndarray:
+        """
+        Interpolate the elevation of a location. Numerical noise in the location of a post is not enough to make it a void.
+
+        :param x: the position along the first axis
+        :param y: the position along the second axis
+
+        :return: the array of interpolated elevations
+        """
+        return np.where(self.void_interpolator(x, y) > 1e-6, np.nan, self.elevation_interpolator(x, y))
+
+
 class DigitalElevationModel(ElevationModel):
     """
     A Digital Elevation Model (DEM) is a representation of the topographic surface of the Earth. Theoretically
@@ -126,7 +159,9 @@ class DigitalElevationModel(ElevationModel):
 
         if interpolation_grid is not None and sensor_model is not None:
             image_coordinate = sensor_model.world_to_image(geodetic_world_coordinate)
-            geodetic_world_coordinate.elevation = interpolation_grid(image_coordinate.x, image_coordinate.y)[0][0]
+            elevation = interpolation_grid(image_coordinate.x, image_coordinate.y)[0][0]
+            if not np.isnan(elevation):
+                geodetic_world_coordinate.elevation = elevation
 
     def describe_region(self, geodetic_world_coordinate: GeodeticWorldCoordinate) -> Optional[ElevationRegionSummary]:
         """
@@ -166,6 +201,11 @@ class DigitalElevationModel(ElevationModel):
             height, width = elevations_array.shape
             x = range(0, width)
             y = range(0, height)
+            voids = np.isnan(elevations_array)
+            if summary is not None and summary.no_data_value is not None:
+                voids = voids | (elevations_array == summary.no_data_value)
+            if np.any(voids):
+                return VoidAwareInterpolator(x, y, elevations_array.T, voids.T), sensor_model, summary
             return RectBivariateSpline(x, y, elevations_array.T, kx=1, ky=1), sensor_model, summary
         else:
             return None, None, None
-- 
2.43.0


From a4d2f0c492d9d0ac171600d1de89d77039619f7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:59:11 +0000
Subject: [PATCH 44/48] fix: do not take places without an elevation for the
 surface SICD pixels are projected to

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 3e1233c..4980666 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -932,8 +932,12 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         prev_delta_height = None
         for n in range(0, npts):
             point_lle = geocentric_to_geodetic(WorldCoordinate(points_ecf[n]))
-            point_dem = GeodeticWorldCoordinate(point_lle.coordinate.copy())
+            point_dem = GeodeticWorldCoordinate([point_lle.longitude, point_lle.latitude, np.nan])
             self.elevation_model.set_elevation(point_dem)
+            if np.isnan(point_dem.elevation):
+                # The elevation model does not have an elevation here, so the surface can't be found near this point
+                prev_indicator = None
+                continue
             delta_height = point_lle.elevation - point_dem.elevation
 
             # Determine if the contour point is ABOVE (indicator = 1), ON (indicator = 0), or BELOW (indicator = -1)
-- 
2.43.0


From 04bde751329019d0c7e07946e900e51de9d4be6d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 45/48] fix: locate SICD pixels whose line of sight does not
 meet the terrain on the default surface

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 4980666..ce6ac9a 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1071,6 +1071,9 @@ class SICDSensorModel(SensorModel):
         # resulting in an ambiguous location. Here we are arbitrarily selecting the first result.
         # TODO: Is there a better way to handle multiple DEM intersections?
         coords_ecf = surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+        if len(coords_ecf) == 0:
+            # The contour does not meet the surface of the elevation model so use the default one here too
+            coords_ecf = self.default_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
 
         return geocentric_to_geodetic(WorldCoordinate(coords_ecf[0]))
 
-- 
2.43.0


From 9887f6e9864b7e32ccd5db951881122436165703 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:33:05 +0000
Subject: [PATCH 46/48] fix: search RSM locations near the poles within the
 extent of the image

---
 src/aws/osml/photogrammetry/replacement_sensor_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index c7db2e6..e334cfc 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 from enum import Enum
-from math import floor, pi, radians, sqrt
+from math import cos, floor, pi, radians, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -532,7 +532,9 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         initial_search_distance = options.get(SensorModelOptions.INITIAL_SEARCH_DISTANCE) if options is not None else None
         if initial_search_distance is None:
-            initial_search_distance = sqrt((longitude_span**2) + ((v1.latitude - v4.latitude) ** 2))
+            # A radian of longitude is shorter than a radian of latitude, much shorter near the poles
+            longitude_scale = cos((v1.latitude + v4.latitude) / 2.0)
+            initial_search_distance = sqrt(((longitude_span * longitude_scale) ** 2) + ((v1.latitude - v4.latitude) ** 2))
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-- 
2.43.0


From ef0a69ab31322df3b518053e35931e15a28b0358 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 47/48] fix: convert ground control points in map coordinates
 to longitudes and latitudes

---
 src/aws/osml/gdal/gdal_utils.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index 1a5c2e3..64df54d 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -4,6 +4,7 @@ import logging
 import re
 from typing import Any, Callable, Dict, List, Optional, Tuple
 
+import pyproj
 from defusedxml import ElementTree
 from osgeo import gdal, gdalconst
 
@@ -36,7 +37,7 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
 
     # Get a GDAL Geo Transform and any available GCPs
     geo_transform = read_optional_metadata(lambda: ds.GetGeoTransform(can_return_null=True))
-    ground_control_points = read_optional_metadata(ds.GetGCPs)
+    ground_control_points = read_optional_metadata(lambda: read_ground_control_points(ds))
     proj_wkt = read_optional_metadata(ds.GetProjection)
 
     # If this image has NITF TREs defined parse them
@@ -70,6 +71,23 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
     return ds, sensor_model
 
 
+def read_ground_control_points(dataset: gdal.Dataset) -> List[gdal.GCP]:
+    """
+    Read the ground control points of a dataset. Points in some other coordinate reference system (e.g. UTM) are
+    converted to WGS 84 longitudes and latitudes because those are the coordinates sensor models are created from.
+
+    :param dataset: the dataset
+    :return: the ground control points of the dataset in degrees longitude, latitude
+    """
+    ground_control_points = list(dataset.GetGCPs())
+    gcp_wkt = dataset.GetGCPProjection()
+    if ground_control_points and gcp_wkt:
+        gcp_to_wgs84 = pyproj.Transformer.from_crs(pyproj.CRS.from_string(gcp_wkt), "EPSG:4326", always_xy=True)
+        for gcp in ground_control_points:
+            gcp.GCPX, gcp.GCPY = gcp_to_wgs84.transform(gcp.GCPX, gcp.GCPY, errcheck=True)
+    return ground_control_points
+
+
 def read_optional_metadata(read_function: Callable[[], Any]) -> Any:
     """
     Read metadata of a dataset. Damaged metadata is handled like missing metadata, GDAL does the same by itself when
-- 
2.43.0


From e82c89b06aeaa3a0cd0b20e725bbd8a5dba93517 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 48/48] fix: find NITF data extension segments whose name has
 an apostrophe

---
 src/aws/osml/gdal/nitf_des_accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index 14d82c9..184ac8d 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -50,7 +50,7 @@ class NITFDESAccessor:
         """
         result = []
         for des_list in self.parsed_des_lists:
-            result.extend(des_list.findall(f"./des[@name='{des_name}']"))
+            result.extend(des for des in des_list.findall("./des") if des.get("name") == des_name)
         return result
 
     @staticmethod
-- 
2.43.0

