From e997b8b49944b3f341b87807e48ccf07ebab9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 001/113] fix: gridded onto ungridded collocation crashed for
 samples with no missing values

---
 cis/collocation/gridded_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index dc234c2..ebe2744 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -123,7 +123,7 @@ class GriddedUngriddedInterpolator(object):
 
         # Check if we want to sample missing points
         if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
-            self.missing_mask = sample.data.mask.flatten()
+            self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
             self.missing_mask = None
-- 
2.43.0


From c2e20db4a14b01767fa09d51f13b72d107a468c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 002/113] fix: interpolate onto ungridded points correctly from
 grids with decreasing coordinates

The dimension, not a flag, has to be recorded for a decreasing coordinate, and the
data have to be inverted before they are extended for a circular coordinate.
---
 cis/collocation/gridded_interpolation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index ebe2744..92d15c3 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -88,7 +88,7 @@ class GriddedUngriddedInterpolator(object):
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
                 if decreasing:
-                    self._decreasing_coord_dims.append(decreasing)
+                    self._decreasing_coord_dims.append(coord_dim)
                     coord_points = coord_points[::-1]
 
                 if getattr(coord, 'circular', False):
@@ -166,12 +166,11 @@ class GriddedUngriddedInterpolator(object):
 
         # Apply a transpose if we need to so that the indices line-up correctly
         data_array = data.data.transpose(self._data_transpose)
-        # Account for any circular coords present
+        # Invert any decreasing coords, before accounting for any circular coords present (as is done for the points)
+        data_array = self._account_for_inverted(data_array)
         for dim in self._circular_coord_dims:
             data_array = extend_circular_data(data_array, dim)
 
-        data_array = self._account_for_inverted(data_array)
-
         result = self._interp(data_array, fill_value=fill_value)
 
         if self.missing_mask is not None:
-- 
2.43.0


From 5ea8f36dcac169fcc5b0f394a41a31d8bdd22901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 003/113] fix: collocate onto ungridded points through hybrid
 heights on grids with decreasing coordinates

The hybrid coordinate has to be inverted and extended along its own dimensions, as the data are.
---
 cis/collocation/gridded_interpolation.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 92d15c3..51e31d0 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -101,17 +101,11 @@ class GriddedUngriddedInterpolator(object):
 
         if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
             hybrid_dims = data.coord_dims(data.coord('altitude'))
-            hybrid_coord = data.coord('altitude').points
-            for coord_dim in self._circular_coord_dims:
-                # Lookup the dimension on the hybrid data array
-                hybrid_coord_dim = hybrid_dims.index(coord_dim)
-                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_coord_dim)
+            hybrid_coord = self._match_hybrid_coord_to_grid(data.coord('altitude').points, hybrid_dims)
             sample_points.append(sample.coord(standard_name="altitude").data_flattened)
         elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
-            hybrid_coord = data.coord('air_pressure').points
-            for coord_dim in self._circular_coord_dims:
-                hybrid_coord = extend_circular_data(hybrid_coord, coord_dim)
             hybrid_dims = data.coord_dims(data.coord('air_pressure'))
+            hybrid_coord = self._match_hybrid_coord_to_grid(data.coord('air_pressure').points, hybrid_dims)
             sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
         else:
             hybrid_coord = None
@@ -142,6 +136,18 @@ class GriddedUngriddedInterpolator(object):
         self._data_transpose.pop(vertical_dim)
         self._data_transpose.append(vertical_dim)
 
+    def _match_hybrid_coord_to_grid(self, hybrid_coord, hybrid_dims):
+        """
+        Invert and extend the hybrid coordinate points over any decreasing and circular dimensions which they span
+        """
+        for coord_dim in self._decreasing_coord_dims:
+            if coord_dim in hybrid_dims:
+                hybrid_coord = np.flip(hybrid_coord, hybrid_dims.index(coord_dim))
+        for coord_dim in self._circular_coord_dims:
+            if coord_dim in hybrid_dims:
+                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_dims.index(coord_dim))
+        return hybrid_coord
+
     def _account_for_inverted(self, data):
         dim_slices = [slice(None)] * data.ndim
         for dim in self._decreasing_coord_dims:
-- 
2.43.0


From 60fdcf74624e2898b5153a67364981c90bc7ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 004/113] fix: collocate ungridded data onto gridded samples
 with the box collocator

The separation constraint works on data frames, so the data have to be given to it as one, and
masked sample points have to be found in the order of the sample's dimensions.
---
 cis/collocation/col_framework.py       |  5 ++++-
 cis/collocation/col_implementations.py | 24 ++++++++++++++++++++----
 cis/data_io/hyperpoint_view.py         | 10 ++++++++++
 cis/utils.py                           |  4 ++--
 4 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/cis/collocation/col_framework.py b/cis/collocation/col_framework.py
index b495a74..60d0209 100644
--- a/cis/collocation/col_framework.py
+++ b/cis/collocation/col_framework.py
@@ -168,7 +168,10 @@ class Constraint(object):
         """
         from cis.collocation.col_implementations import HyperPoint
         if missing_data_for_missing_sample:
-            iterator = index_iterator_for_non_masked_data(shape, points)
+            # Remap the indices from the order of the sample dimensions to the order of the output
+            dims = [points.coord_dims(coords[ci])[0] for (hpi, ci, shi) in coord_map]
+            iterator = (tuple(indices[dim] for dim in dims)
+                        for indices in index_iterator_for_non_masked_data(shape, points))
         else:
             iterator = index_iterator_nditer(shape, output_data[0])
 
diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3267b57..964f21e 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -323,13 +323,21 @@ class SepConstraintKdtree(PointConstraint):
 
     def _get_cached_indices(self, ref_point):
         # Don't use the value as a key (it's both irrelevant and un-hashable)
-        return self._index_cache.get(tuple(ref_point[['latitude', 'longitude']].values), None)
+        return self._index_cache.get((ref_point.latitude, ref_point.longitude), None)
 
     def _add_cached_indices(self, ref_point, indices):
         # Don't use the value as a key (it's both irrelevant and un-hashable)
-        self._index_cache[tuple(ref_point[['latitude', 'longitude']].values)] = indices
+        self._index_cache[(ref_point.latitude, ref_point.longitude)] = indices
 
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
+        if coord_map is not None:
+            # The sample is gridded, so iterate over each of its grid points
+            for grid_point in super(SepConstraintKdtree, self).get_iterator(missing_data_for_missing_sample, coord_map,
+                                                                            coords, data_points, shape, points,
+                                                                            output_data):
+                yield grid_point
+            return
+
         cell_count = 0
         total_count = 0
         sample_points_count = len(points)
@@ -468,7 +476,11 @@ class nn_horizontal(Kernel):
             Collocation using nearest neighbours along the face of the earth where both points and
               data are a list of HyperPoints. The default point is the first point.
         """
-        from cis.collocation.kdtree import haversine
+        from cis.collocation.kdtree import haversine_distance
+
+        def horizontal_sep(data_point):
+            return haversine_distance((point.latitude, point.longitude), (data_point.latitude, data_point.longitude))
+
         iterator = data.iterrows()
         try:
             nearest_point = next(iterator)[1]
@@ -476,7 +488,7 @@ class nn_horizontal(Kernel):
             # No points to check
             raise ValueError
         for idx, data_point in iterator:
-            if (haversine(point, nearest_point) > haversine(point, data_point)):
+            if horizontal_sep(nearest_point) > horizontal_sep(data_point):
                 nearest_point = data_point
         return nearest_point.vals
 
@@ -824,6 +836,10 @@ class GeneralGriddedCollocator(Collocator):
 
         _fix_longitude_range(coords, data_points)
 
+        if isinstance(constraint, SepConstraintKdtree):
+            # The separation constraint, and the kernels for it, work on data frames
+            data_points = data_points.as_data_frame()
+
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
         # Create index if constraint supports it.
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8238e06..1b67921 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -164,6 +164,16 @@ class UngriddedHyperPointView(HyperPointView):
         longitudes = np.where(longitudes < range_start, longitudes + 360, longitudes)
         self.coords[HyperPoint.LONGITUDE] = np.where(longitudes >= range_end, longitudes - 360, longitudes)
 
+    def as_data_frame(self):
+        """Converts the non-masked points to a Pandas DataFrame
+
+        :return: DataFrame with a column for each of the standard coordinates present, and the data values in 'vals'
+        """
+        import pandas as pd
+        columns = dict((name, c) for name, c in zip(HyperPoint.standard_names, self.coords) if c is not None)
+        columns['vals'] = np.ma.filled(np.ma.asarray(self.data, dtype=float), np.nan)
+        return pd.DataFrame(columns).dropna(axis=0)
+
     @property
     def vals(self):
         return self.data
diff --git a/cis/utils.py b/cis/utils.py
index aca2489..1481038 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -466,9 +466,9 @@ def index_iterator_for_non_masked_data(shape, points):
     cell_count = 0
     cell_total = 0
 
-    it = np.nditer(points.data, flags=['multi_index'])
+    it = np.nditer(np.ma.getmaskarray(points.data), flags=['multi_index'])
     while not it.finished:
-        if it[0] is not np.ma.masked:
+        if not it[0]:
             yield it.multi_index
 
         it.iternext()
-- 
2.43.0


From a60c74c12eab122c93ef64d6bb721f62a7a60244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 005/113] fix: bin points into the highest cell of grids with
 decreasing coordinates

---
 cis/collocation/data_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index a80c080..d7d4784 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -54,8 +54,8 @@ class GridCellBinIndexInSlices(object):
                     coord_descreasing[shi] = True
             coord_lengths[shi] = len(coord.points)
             if coord_descreasing[shi]:
-                lower_bounds[shi] = coord.bounds[::-1, 1]
-                max_bounds[shi] = coord.bounds[0, 1]
+                lower_bounds[shi] = np.min(coord.bounds, axis=1)[::-1]
+                max_bounds[shi] = np.max(coord.bounds)
             else:
                 lower_bounds[shi] = coord.bounds[::, 0]
                 max_bounds[shi] = coord.bounds[-1, 1]
-- 
2.43.0


From 046ff363f118e4c7dd05fdb914bddeea7af50f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 006/113] fix: pass the extrapolate option on to the
 collocation of gridded data

---
 cis/cis_main.py               | 3 +++
 cis/data_io/gridded_data.py   | 4 +++-
 cis/data_io/ungridded_data.py | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 126414c..953b4b7 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -89,6 +89,9 @@ def col_cmd(main_arguments):
     missing_data_for_missing_sample = check_boolean(col_options.pop('missing_data_for_missing_sample',
                                                                     str(missing_data_for_missing_sample)), logging)
 
+    if 'extrapolate' in col_options:
+        col_options['extrapolate'] = check_boolean(col_options['extrapolate'], logging)
+
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
     for input_group in main_arguments.datagroups:
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dd60cdf..b6aa5ef 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -363,6 +363,7 @@ class GriddedData(iris.cube.Cube, CommonData):
         from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList
         from cis.collocation.col import collocate, get_kernel
 
+        col_kwargs = {}
         if isinstance(data, UngriddedData) or isinstance(data, UngriddedDataList):
             col_cls = ci.GeneralGriddedCollocator
             # Bin is the default for ungridded -> gridded collocation
@@ -377,6 +378,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             kernel = get_kernel(kernel)
         elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
             col_cls = ci.GriddedCollocator
+            col_kwargs['extrapolate'] = kwargs.get('extrapolate', False)
             con = None
             if kernel is not None:
                 raise ValueError("Cannot specify kernel when method is 'lin' or 'nn'")
@@ -392,7 +394,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             raise ValueError("Invalid argument, data must be either GriddedData or UngriddedData")
 
         col = col_cls(missing_data_for_missing_sample=missing_data_for_missing_sample, fill_value=fill_value,
-                      var_name=var_name, var_long_name=var_long_name, var_units=var_units)
+                      var_name=var_name, var_long_name=var_long_name, var_units=var_units, **col_kwargs)
 
         return collocate(data, self, col, con, kernel)
 
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 052d0ee..c6821da 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1243,7 +1243,8 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
     elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
         col = ci.GriddedUngriddedCollocator(fill_value=fill_value, var_name=var_name, var_long_name=var_long_name,
                                             var_units=var_units,
-                                            missing_data_for_missing_sample=missing_data_for_missing_sample)
+                                            missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                            extrapolate=kwargs.get('extrapolate', False))
         con = None
         if how not in ['', 'lin', 'nn']:
             raise ValueError("Invalid method specified for gridded -> ungridded collocation: " + how)
-- 
2.43.0


From 213c39e6fe2be52d3e7604e633fe90f3a0f58a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 007/113] fix: use the output variable name, long name and
 units requested for collocation

---
 cis/collocation/col_implementations.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 964f21e..a7b70cc 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -65,12 +65,10 @@ class GeneralUngriddedCollocator(Collocator):
         logging.info("--> Collocating...")
 
         # Create output arrays.
-        self.var_name = data.var_name
-        self.var_long_name = data.long_name
-        self.var_standard_name = data.standard_name
-        self.var_units = data.units
-        var_set_details = kernel.get_variable_details(self.var_name, self.var_long_name,
-                                                      self.var_standard_name, self.var_units)
+        var_set_details = kernel.get_variable_details(self.var_name or data.var_name,
+                                                      self.var_long_name or data.long_name,
+                                                      data.standard_name,
+                                                      self.var_units or data.units)
 
         sample_points_count = len(sample_points)
         # Create an empty masked array to store the collocated values. The elements will be unmasked by assignment.
@@ -697,6 +695,12 @@ class GriddedCollocator(Collocator):
                                              coord_names_and_sizes_for_sample_grid, data,
                                              kernel, output_mask, points, self.extrapolate)
 
+        output_cubes = output_cube if isinstance(output_cube, list) else [output_cube]
+        for cube in output_cubes:
+            cube.var_name = self.var_name or cube.var_name
+            cube.long_name = self.var_long_name or cube.long_name
+            cube.units = self.var_units or cube.units
+
         if not isinstance(output_cube, list):
             return GriddedDataList([output_cube])
         else:
-- 
2.43.0


From a720896ca8450eb628ca49826a0da60a16a9c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 008/113] fix: box collocation crashed when all of the data
 were missing

---
 cis/collocation/haversinedistancekdtreeindex.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cis/collocation/haversinedistancekdtreeindex.py b/cis/collocation/haversinedistancekdtreeindex.py
index 395838f..5f932e1 100644
--- a/cis/collocation/haversinedistancekdtreeindex.py
+++ b/cis/collocation/haversinedistancekdtreeindex.py
@@ -23,6 +23,7 @@ class HaversineDistanceKDTreeIndex(object):
     """
     def __init__(self):
         self.index = None
+        self.empty = False
 
     def index_data(self, points, data, coord_map, leafsize=10):
         """
@@ -33,6 +34,9 @@ class HaversineDistanceKDTreeIndex(object):
         :param coord_map: (not used) list of tuples relating index in HyperPoint
                           to index in sample point coords and in coords to be output
         """
+        self.empty = len(data) == 0
+        if self.empty:
+            return
         try:
             self.index = create_index(data, leafsize=leafsize)
         except KeyError:
@@ -53,6 +57,8 @@ class HaversineDistanceKDTreeIndex(object):
         :param distance: distance in kilometres
         :return: list indices in data of points
         """
+        if self.empty:
+            return []
         query_pt = [[point.latitude, point.longitude]]
         return self.index.query_ball_point(query_pt, distance)[0]
 
@@ -64,4 +70,6 @@ class HaversineDistanceKDTreeIndex(object):
         For each element ``self.data[i]`` of this tree, ``results[i]`` is a
             list of the indices of its neighbors in ``other.data``.
         """
+        if self.empty:
+            return [[] for _ in range(len(sample))]
         return create_index(sample).query_ball_tree(self.index, distance)
-- 
2.43.0


From 0f8a4f5f0abcca5845da7eac2865779334808d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 009/113] fix: leave points in a gap between two cells out of
 the grid when binning

---
 cis/collocation/data_index.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index d7d4784..0788703 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -45,6 +45,7 @@ class GridCellBinIndexInSlices(object):
         coord_descreasing = [False] * len(coords)
         coord_lengths = [0] * len(coords)
         lower_bounds = [None] * len(coords)
+        upper_bounds = [None] * len(coords)
         max_bounds = [None] * len(coords)
         for (hpi, ci, shi) in coord_map:
             coord = coords[ci]
@@ -55,9 +56,11 @@ class GridCellBinIndexInSlices(object):
             coord_lengths[shi] = len(coord.points)
             if coord_descreasing[shi]:
                 lower_bounds[shi] = np.min(coord.bounds, axis=1)[::-1]
+                upper_bounds[shi] = np.max(coord.bounds, axis=1)[::-1]
                 max_bounds[shi] = np.max(coord.bounds)
             else:
                 lower_bounds[shi] = coord.bounds[::, 0]
+                upper_bounds[shi] = coord.bounds[::, 1]
                 max_bounds[shi] = coord.bounds[-1, 1]
 
             hp_coord = hyper_points.coords[hpi]
@@ -83,6 +86,10 @@ class GridCellBinIndexInSlices(object):
                  -1)
              for bi, ci, max_coordinate_value in bounds_coords_max])
 
+        # points which fall in a gap between two cells are outside the grid too
+        for indices_slice, hp_coord, upper_bound in zip(indices, hp_coords, upper_bounds):
+            indices_slice[~(hp_coord < upper_bound[indices_slice])] = -1
+
         # D-tuple giving the shape of the output grid
         grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords_max)
 
-- 
2.43.0


From 4bc43f2d725ff6dc405a5dea7d9b0c636c16f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 010/113] fix: horizontal separation and nearest neighbour
 searches missed points across the longitude limits and near the poles

---
 cis/collocation/kdtree.py | 122 +++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 67 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 5336c24..c2e2d79 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -397,27 +397,57 @@ class RectangleHaversine(RectangleBase):
 
     def min_distance_rectangle(self, other):
         """
-        Compute the minimum distance between points in the two hyperrectangles.
+        Compute a lower bound of the distance between points in the two hyperrectangles.
 
         :param other: hyperrectangle
             Input.
-        :param p: float
-            Input.
 
         """
-        return haversine_distance([0.0, 0.0], np.maximum(0, np.maximum(self.mins - other.maxes, other.mins - self.maxes)))
+        lat_gap = max(0.0, self.mins[0] - other.maxes[0], other.mins[0] - self.maxes[0])
+        lon_gap = self._longitude_differences(other)[0]
+        return self._distance_for_differences(lat_gap, lon_gap, self._cos_lat_range()[0] * other._cos_lat_range()[0])
 
     def max_distance_rectangle(self, other):
         """
-        Compute the maximum distance between points in the two hyperrectangles.
+        Compute an upper bound of the distance between points in the two hyperrectangles.
 
         :param other: hyperrectangle
             Input.
-        :param p: float, optional
-            Input.
 
         """
-        return haversine_distance([0.0, 0.0], np.maximum(self.maxes - other.mins, other.maxes - self.mins))
+        lat_diff = max(self.maxes[0] - other.mins[0], other.maxes[0] - self.mins[0])
+        lon_diff = self._longitude_differences(other)[1]
+        return self._distance_for_differences(lat_diff, lon_diff, self._cos_lat_range()[1] * other._cos_lat_range()[1])
+
+    def _longitude_differences(self, other):
+        """
+        Find the smallest and the largest difference, allowing for longitude circularity, between a longitude in this
+        rectangle and one in the other.
+
+        :param other: hyperrectangle
+        :return: smallest and largest difference in degrees, each between 0 and 180
+        """
+        low, high = self.mins[1] - other.maxes[1], self.maxes[1] - other.mins[1]
+        ends = [abs((diff + 180.0) % 360.0 - 180.0) for diff in (low, high)]
+        smallest = 0.0 if math.floor(high / 360.0) >= math.ceil(low / 360.0) else min(ends)
+        largest = 180.0 if math.floor((high - 180.0) / 360.0) >= math.ceil((low - 180.0) / 360.0) else max(ends)
+        return smallest, largest
+
+    def _cos_lat_range(self):
+        """
+        Find the smallest and the largest cosine of a latitude in this rectangle.
+        """
+        ends = [max(0.0, math.cos(math.radians(lat))) for lat in (self.mins[0], self.maxes[0])]
+        return min(ends), 1.0 if self.mins[0] <= 0.0 <= self.maxes[0] else max(ends)
+
+    @staticmethod
+    def _distance_for_differences(lat_diff, lon_diff, cos_lats):
+        """
+        Evaluate the Haversine distance for a difference in latitude, a difference in longitude and a product of the
+        cosines of the latitudes.
+        """
+        hav = math.sin(math.radians(lat_diff) / 2) ** 2 + cos_lats * math.sin(math.radians(lon_diff) / 2) ** 2
+        return 2 * math.asin(math.sqrt(min(1.0, hav))) * RADIUS_EARTH
 
 
 class KDTree(object):
@@ -1175,41 +1205,28 @@ class HaversineDistanceKDTree(KDTree):
         self.tree = self._build(indices, self.maxes, self.mins)
 
     def _query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf):
-
-        metric = np.array([1.0] * x.size)
-        metric[1] = math.cos(x[1] * math.pi / 180.0)
-        side_distances = np.maximum(0, np.maximum(x - self.maxes, self.mins - x)) * metric
-        if p != np.inf:
-            side_distances **= p
-            min_distance = np.sum(side_distances)
-        else:
-            min_distance = np.amax(side_distances)
-
         # priority queue for chasing nodes
         # entries are:
         #  minimum distance between the cell and the target
-        #  distances between the nearest side of the cell and the target
+        #  order in which the cell was found, as the cells themselves can't be compared
         #  the head node of the cell
-        q = [(min_distance,
-              tuple(side_distances),
-              self.tree)]
+        #  the cell
+        rect = RectangleHaversine(self.maxes, self.mins)
+        q = [(rect.min_distance_point(x), 0, self.tree, rect)]
+        found = 1
         # priority queue for the nearest neighbors
         # furthest known neighbor first
-        # entries are (-distance**p, i)
+        # entries are (-distance, i)
         neighbors = []
 
-        if eps == 0:
-            epsfac = 1
-        elif p == np.inf:
-            epsfac = 1 / (1 + eps)
-        else:
-            epsfac = 1 / (1 + eps) ** p
-
-        if p != np.inf and distance_upper_bound != np.inf:
-            distance_upper_bound = distance_upper_bound ** p
+        epsfac = 1.0 / (1 + eps)
 
         while q:
-            min_distance, side_distances, node = heappop(q)
+            min_distance, _, node, rect = heappop(q)
+            # Allow for the rounding of the distances
+            if min_distance * (1 - 1e-9) > distance_upper_bound * epsfac:
+                # since this is the nearest cell, we're done, bail out
+                break
             if isinstance(node, HaversineDistanceKDTree.leafnode):
                 # brute-force
                 data = self.data[node.idx]
@@ -1222,41 +1239,12 @@ class HaversineDistanceKDTree(KDTree):
                         if len(neighbors) == k:
                             distance_upper_bound = -neighbors[0][0]
             else:
-                # we don't push cells that are too far onto the queue at all,
-                # but since the distance_upper_bound decreases, we might get
-                # here even if the cell's too far
-                if min_distance > distance_upper_bound * epsfac:
-                    # since this is the nearest cell, we're done, bail out
-                    break
-                # compute minimum distances to the children and push them on
-                if x[node.split_dim] < node.split:
-                    near, far = node.less, node.greater
-                else:
-                    near, far = node.greater, node.less
-
-                # near child is at the same distance as the current node
-                heappush(q, (min_distance, side_distances, near))
-
-                # far child is further by an amount depending only
-                # on the split value
-                sd = list(side_distances)
-                if p == np.inf:
-                    min_distance = max(min_distance, abs(node.split - x[node.split_dim]))
-                elif p == 1:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim])
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-                else:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim]) ** p
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-
-                # far child might be too far, if so, don't bother pushing it
-                if min_distance <= distance_upper_bound * epsfac:
-                    heappush(q, (min_distance, tuple(sd), far))
+                less, greater = rect.split(node.split_dim, node.split)
+                for child, child_rect in ((node.less, less), (node.greater, greater)):
+                    heappush(q, (child_rect.min_distance_point(x), found, child, child_rect))
+                    found += 1
 
-        if p == np.inf:
-            return sorted([(-d, i) for (d, i) in neighbors])
-        else:
-            return sorted([((-d) ** (1. / p), i) for (d, i) in neighbors])
+        return sorted([(-d, i) for (d, i) in neighbors])
 
     def query_ball_tree(self, other, r, p=2., eps=0):
         """Find all pairs of points whose distance is at most r
-- 
2.43.0


From 3867667303144a73641b390154f70689c0b7fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 011/113] fix: shift longitudes of grids which are wholly
 outside of the range, decreasing or without other dimension coordinates

---
 cis/data_io/gridded_data.py | 69 +++++++++++++++----------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index b6aa5ef..0f67640 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -200,41 +200,26 @@ class GriddedData(iris.cube.Cube, CommonData):
         if len(lon_coord) == 0:
             return
         lon_coord = lon_coord[0]
-        lon_idx = self.dim_coords.index(lon_coord)
-        # Check if there are bounds which we will need to wrap as well
-        roll_bounds = (lon_coord.bounds is not None) and (lon_coord.bounds.size != 0)
-        idx1 = np.searchsorted(lon_coord.points, range_start)
-        idx2 = np.searchsorted(lon_coord.points, range_start + 360.)
-        shift = 0
-        new_lon_points = None
+        # Find the number of whole turns by which each of the longitudes is outside of the range
+        turns = np.floor((lon_coord.points - range_start) / 360.)
+        if not turns.any():
+            return
+        new_lon_points = (lon_coord.points - 360. * turns).astype(lon_coord.points.dtype)
         new_lon_bounds = None
-        if 0 < idx1 < len(lon_coord.points):
-            shift = -idx1
-            lon_min = lon_coord.points[idx1]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            # Calculate which indices need 360 adding to them...
-            indices_to_shift_value_of = new_lon_points < lon_min
-            # ... then, add 360 to all those longitude values
-            new_lon_points[indices_to_shift_value_of] += 360.0
-            if roll_bounds:
-                # If the coordinate has bounds then roll those as well
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # And shift all of the bounds (upper and lower) for those points which we had to shift. We can't do the
-                # check independently because there may be cases where an upper or lower bound falls outside of the
-                # 360 range, we leave those as they are to preserve monotonicity. See e.g.
-                # test_set_longitude_bounds_wrap_at_360
-                new_lon_bounds[indices_to_shift_value_of] += 360.0
-        elif 0 < idx2 < len(lon_coord.points):
-            shift = len(lon_coord.points) - idx2
-            lon_max = lon_coord.points[idx2]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            indices_to_shift_value_of = new_lon_points >= lon_max
-            new_lon_points[indices_to_shift_value_of] -= 360.0
-            if roll_bounds:
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # See comment above re preserving monotinicity.
-                new_lon_bounds[indices_to_shift_value_of] -= 360.0
-        if shift != 0:
+        if lon_coord.has_bounds():
+            # Shift all of the bounds (upper and lower) with their points. We can't do the check independently because
+            # there may be cases where an upper or lower bound falls outside of the 360 range, we leave those as they
+            # are to preserve monotonicity. See e.g. test_set_longitude_bounds_wrap_at_360
+            new_lon_bounds = lon_coord.bounds - 360. * turns.reshape(turns.shape + (1,))
+            new_lon_bounds = new_lon_bounds.astype(lon_coord.bounds.dtype)
+        # The points have to be rotated if only some of them were shifted
+        wraps = np.flatnonzero(np.diff(turns)) if turns.ndim == 1 else []
+        if len(wraps) > 0:
+            shift = -(wraps[0] + 1)
+            lon_idx = self.coord_dims(lon_coord)[0]
+            new_lon_points = np.roll(new_lon_points, shift, 0)
+            if new_lon_bounds is not None:
+                new_lon_bounds = np.roll(new_lon_bounds, shift, 0)
             # Ensure we also roll any auxilliary coordinates
             for aux_coord in self.aux_coords:
                 # Find all of the data dimensions which the auxiliary coordinate spans...
@@ -243,15 +228,15 @@ class GriddedData(iris.cube.Cube, CommonData):
                 if lon_idx in dims:
                     # Now roll the axis of the auxiliary coordinate which is associated with the longitude data
                     # dimension: dims.index(lon_idx)
-                    new_points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
-                    aux_coord.points = new_points
+                    new_bounds = np.roll(aux_coord.bounds, shift, dims.index(lon_idx)) if aux_coord.has_bounds() else None
+                    aux_coord.points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
+                    aux_coord.bounds = new_bounds
             # Now roll the data itself
-            new_data = np.roll(self.data, shift, lon_idx)
-            self.data = new_data
-            # Put the new coordinates back in their relevant places
-            self.dim_coords[lon_idx].points = new_lon_points
-            if roll_bounds:
-                self.dim_coords[lon_idx].bounds = new_lon_bounds
+            self.data = np.roll(self.data, shift, lon_idx)
+        # Put the new coordinates back in their relevant places
+        lon_coord.bounds = None
+        lon_coord.points = new_lon_points
+        lon_coord.bounds = new_lon_bounds
 
     def add_attributes(self, attributes):
         """
-- 
2.43.0


From 156b6e3fcb4bc7a95e06b92ef25d15981a47297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 012/113] fix: collocate gridded data onto points either side
 of the longitude limits of the grid

---
 cis/collocation/col_implementations.py   |  3 ---
 cis/collocation/gridded_interpolation.py | 15 ++++++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index a7b70cc..2a09625 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -150,12 +150,9 @@ class GriddedUngriddedCollocator(Collocator):
 
         if constraint is not None and not isinstance(constraint, DummyConstraint):
             raise ValueError("A constraint cannot be specified for the GriddedUngriddedCollocator")
-        data_points = data
 
         # First fix the sample points so that they all fall within the same 360 degree longitude range
         _fix_longitude_range(points.coords(), points)
-        # Then fix the data points so that they fall onto the same 360 degree longitude range as the sample points
-        _fix_longitude_range(points.coords(), data_points)
 
         log_memory_profile("GriddedUngriddedCollocator after data retrieval")
 
diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 51e31d0..a9f8f5c 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -97,7 +97,8 @@ class GriddedUngriddedInterpolator(object):
 
                 grid_points.append(coord_points)
 
-        sample_points = [sample.coord(c).data_flattened for c in coords]
+        sample_points = [self._match_sample_to_grid(sample.coord(c).data_flattened, c, p)
+                         for c, p in zip(coords, grid_points)]
 
         if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
             hybrid_dims = data.coord_dims(data.coord('altitude'))
@@ -136,6 +137,18 @@ class GriddedUngriddedInterpolator(object):
         self._data_transpose.pop(vertical_dim)
         self._data_transpose.append(vertical_dim)
 
+    @staticmethod
+    def _match_sample_to_grid(sample_points, coord_name, grid_points):
+        """
+        Shift any longitudes which fall outside of the grid by whole turns to get as near to the grid as possible
+        """
+        if coord_name == 'longitude':
+            outside = (sample_points < grid_points[0]) | (sample_points > grid_points[-1])
+            range_start = (grid_points[0] + grid_points[-1]) / 2.0 - 180.0
+            turns = np.floor((sample_points - range_start) / 360.0)
+            sample_points = np.where(outside, sample_points - 360.0 * turns, sample_points)
+        return sample_points
+
     def _match_hybrid_coord_to_grid(self, hybrid_coord, hybrid_dims):
         """
         Invert and extend the hybrid coordinate points over any decreasing and circular dimensions which they span
-- 
2.43.0


From ea57bf8e56869c75123aa1c141b6cb2fd9f2c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 013/113] fix: interpolate onto points through hybrid
 coordinates which decrease with level

---
 cis/collocation/gridded_interpolation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index a9f8f5c..4abc98c 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -397,12 +397,16 @@ class _RegularGridInterpolator(object):
 
     @staticmethod
     def _find_vertical_index(point, coord):
-        i = np.searchsorted(coord, point) - 1
+        decreasing = coord[-1] < coord[0]
+        i = np.searchsorted(coord[::-1] if decreasing else coord, point) - 1
         if i < 0:
             i = 0
         if i > coord.size - 2:
             i = coord.size - 2
+        if decreasing:
+            # Convert the index of the cell in the reversed column to the one in the column itself
+            i = coord.size - 2 - i
         norm_distances = ((point - coord[i]) / (coord[i + 1] - coord[i]))
 
-        out_of_bounds = point < coord[0] or point > coord[-1]
+        out_of_bounds = point < min(coord[0], coord[-1]) or point > max(coord[0], coord[-1])
         return i, norm_distances, out_of_bounds
-- 
2.43.0


From 91f24301f478fc2b8637599c8006d71060259c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 014/113] fix: collocate gridded data onto coordinates without
 data, and keep missing values of circular grids

---
 cis/collocation/gridded_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 4abc98c..5add479 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -39,9 +39,9 @@ def extend_circular_data(data, coord_dim):
     coord_slice_in_cube = [slice(None)] * data.ndim
     coord_slice_in_cube[coord_dim] = slice(0, 1)
 
-    data = np.append(data,
-                     data[tuple(coord_slice_in_cube)],
-                     axis=coord_dim)
+    # Keep the mask of any masked data
+    concatenate = np.ma.concatenate if np.ma.isMaskedArray(data) else np.concatenate
+    data = concatenate((data, data[tuple(coord_slice_in_cube)]), axis=coord_dim)
     return data
 
 
@@ -117,7 +117,7 @@ class GriddedUngriddedInterpolator(object):
                              "dimenions: {} and {} respectively".format(len(sample_points), len(data.shape)))
 
         # Check if we want to sample missing points
-        if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
+        if missing_data_for_missing_sample and hasattr(getattr(sample, 'data', None), 'mask'):
             self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
-- 
2.43.0


From d5364a7b1d996c4abddf03952cb761b1f0ffab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 015/113] fix: bin points into the part of a global grid's
 first cells below its lowest longitude

---
 cis/collocation/col_implementations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 2a09625..9397161 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -836,6 +836,10 @@ class GeneralGriddedCollocator(Collocator):
             output_coords.append(coord)
 
         _fix_longitude_range(coords, data_points)
+        for (hpi, ci, shi) in coord_map:
+            if coords[ci].standard_name == 'longitude':
+                # The cells can reach below the first longitude, so the data have to start at their lowest bound
+                data_points.set_longitude_range(np.min(coords[ci].bounds))
 
         if isinstance(constraint, SepConstraintKdtree):
             # The separation constraint, and the kernels for it, work on data frames
-- 
2.43.0


From 9122780f5f43e98b94fc3b4d2e36581a146d975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 016/113] fix: nearest neighbour kernels crashed, or took the
 wrong sample mask, when binning

---
 cis/collocation/col_implementations.py |  7 ++++++-
 cis/data_io/hyperpoint.py              | 12 ++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 9397161..e693d93 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -885,6 +885,9 @@ class GeneralGriddedCollocator(Collocator):
             iterator = constraint.get_iterator(
                 self.missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, values)
             for out_indices, hp, con_points in iterator:
+                if isinstance(con_points, HyperPointList):
+                    # The kernels work on data frames
+                    con_points = con_points.as_data_frame()
                 try:
                     kernel_val = kernel.get_value(hp, con_points)
                     set_value_kernel(kernel_val, values, out_indices)
@@ -1022,7 +1025,9 @@ class BinnedCubeCellOnlyConstraint(Constraint):
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
 
         for out_indices, slice_start_end in self.grid_cell_bin_index_slices.get_iterator():
-            if not missing_data_for_missing_sample or points.data[out_indices] is not np.ma.masked:
+            # Remap the indices to match the data coordinate order, using the coord_map provided
+            remapped_indices = tuple(np.asarray(out_indices)[[c[2] for c in sorted(coord_map, key=lambda x: x[1])]])
+            if not missing_data_for_missing_sample or points.data[remapped_indices] is not np.ma.masked:
                 # iterate through the points which are within the same cell
 
                 con_points = HyperPointList()
diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index ba3d765..d4a5722 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -183,6 +183,18 @@ class HyperPointList(list):
         for idx, point in enumerate(self):
             yield idx, point
 
+    def as_data_frame(self):
+        """Converts the points to a Pandas DataFrame
+
+        :return: DataFrame with a column for each of the standard coordinates present, and the data values in 'vals'
+        """
+        import pandas as pd
+        columns = {'vals': self.vals}
+        for idx, name in enumerate(HyperPoint.standard_names):
+            if len(self) > 0 and self[0][idx] is not None:
+                columns[name] = [point[idx] for point in self]
+        return pd.DataFrame(columns)
+
     @property
     def vals(self):
         from numpy import zeros
-- 
2.43.0


From 2302b80b35a39e7570bc748435810d0c9fba23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 017/113] fix: box collocation of several variables onto a grid
 used the first variable's search results

---
 cis/collocation/col_implementations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index e693d93..b3ff2a5 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -265,6 +265,7 @@ class SepConstraintKdtree(PointConstraint):
         super(SepConstraintKdtree, self).__init__()
 
         self._index_cache = {}
+        self._cached_index = None
         self.checks = []
         if h_sep is not None:
             self.h_sep = cis.utils.parse_distance_with_units_to_float_km(h_sep)
@@ -317,6 +318,10 @@ class SepConstraintKdtree(PointConstraint):
         return con_points
 
     def _get_cached_indices(self, ref_point):
+        if self._cached_index is not self.haversine_distance_kd_tree_index:
+            # The cache is only valid for the index (that is, the data points) it was made with
+            self._index_cache = {}
+            self._cached_index = self.haversine_distance_kd_tree_index
         # Don't use the value as a key (it's both irrelevant and un-hashable)
         return self._index_cache.get((ref_point.latitude, ref_point.longitude), None)
 
-- 
2.43.0


From d1f1da02a2705c90aa7bb7f96492ad64fc6afe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 018/113] fix: asking for a coordinate the data do not have
 returned their only coordinate

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 929da80..c00b268 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -244,7 +244,7 @@ class CoordList(list):
         from cis.exceptions import CoordinateNotFoundError
         coords = self.get_coords(name_or_coord=name_or_coord, standard_name=standard_name, long_name=long_name,
                                  attributes=attributes, axis=axis, var_name=var_name)
-        if len(coords) == 0:  # If we found none by name, try with standard name only
+        if len(coords) == 0 and name_or_coord is not None:  # If we found none by name, try with standard name only
             coords = self.get_coords(standard_name=name_or_coord)
 
         if len(coords) > 1:
-- 
2.43.0


From 490cf2cf218b5724fd5409f104163f0007fd0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 019/113] fix: bin data which have no latitude

---
 cis/data_io/hyperpoint_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 1b67921..e4de423 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -71,7 +71,7 @@ class UngriddedHyperPointView(HyperPointView):
         self.data = data
         self.coords = coords
         # Data and all coordinates should have the same size.
-        self.length = coords[0].size
+        self.length = next(c.size for c in coords if c is not None)
         self.non_masked_iteration = non_masked_iteration
 
     def __getitem__(self, item):
-- 
2.43.0


From 0707c4660ac08b6cc0ac2410df0a3e14a367cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 020/113] fix: collocate regional gridded data onto grids with
 a different longitude range

---
 cis/collocation/col_implementations.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index b3ff2a5..406a114 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -622,9 +622,6 @@ class GriddedCollocator(Collocator):
         """
         self._check_for_valid_kernel(kernel)
 
-        # Force the data longitude range to be the same as that of the sample grid.
-        _fix_longitude_range(points.coords(), data)
-
         # Initialise variables used to create an output mask based on the sample data mask.
         sample_coord_lookup = {}  # Maps coordinate in sample data -> location in dimension order
         for idx, coord in enumerate(points.coords()):
@@ -737,18 +734,33 @@ class GriddedCollocator(Collocator):
                           output_mask, points, extrapolate):
         """ Collocates using iris.analysis.interpolate
         """
+        from cis.collocation.gridded_interpolation import GriddedUngriddedInterpolator
         coordinate_point_pairs = []
         for j in range(0, len(coord_names_and_sizes_for_sample_grid)):
             # For each coordinate make the list of tuple pair Iris requires, for example
             # [('latitude', -90), ('longitude, 0')]
-            coordinate_point_pairs.append((coord_names_and_sizes_for_sample_grid[j][0],
-                                           points.dim_coords[j].points))
+            coord_name = coord_names_and_sizes_for_sample_grid[j][0]
+            sample_points = points.dim_coords[j].points
+            data_coord = data.coord(coord_name)
+            if coord_name == 'longitude' and not getattr(data_coord, 'circular', False):
+                # Take the sample longitudes by whole turns to where the data are, as they may be in a different range
+                sample_points = GriddedUngriddedInterpolator._match_sample_to_grid(sample_points, coord_name,
+                                                                                   np.sort(data_coord.points))
+            coordinate_point_pairs.append((coord_name, sample_points))
 
         # The result here will be a cube with the correct dimensions for the output, so interpolated over all points
         # in coord_names_and_sizes_for_output_grid.
         output_cube = make_from_cube(data.interpolate(coordinate_point_pairs,
                                                       kernel.interpolater(extrapolation_mode=extrapolate)))
 
+        # Put the original sample coordinates on to the output.
+        for coord in points.dim_coords:
+            old_coord = output_cube.coord(coord.name())
+            if not np.array_equal(old_coord.points, coord.points):
+                dim = output_cube.coord_dims(old_coord)[0]
+                output_cube.remove_coord(old_coord)
+                output_cube.add_dim_coord(coord, dim)
+
         # Iris outputs interpolated cubes with the dimensions in the order of the data grid, not the sample grid,
         # so we need to rearrange the order of the dimensions.
         output_coord_lookup = {}
-- 
2.43.0


From 5ed6043505643a07e42d69fa66903e7aa7652a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 021/113] fix: aggregation could have one more cell than asked
 for because of rounding

---
 cis/aggregation/ungridded_aggregator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 6f356e9..7abc6fa 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -142,7 +142,9 @@ class UngriddedAggregator(object):
 
 def aggregation_grid_array(start, end, delta):
     from cis.time_util import cis_standard_time_unit
-    new_grid = np.arange(start + delta / 2, end + delta / 2, delta)
+    # Allow for the rounding of the number of cells, otherwise there could be one more cell than there should be
+    n_cells = int(np.ceil((end - start) / delta - 1e-6))
+    new_grid = start + delta / 2 + np.arange(n_cells) * delta
     if 'datetime64' in str(new_grid.dtype):
         # This goes via datetimes with all the associated overheads but is probably safer than doing it manually
         new_grid = cis_standard_time_unit.date2num(new_grid.astype(datetime))
-- 
2.43.0


From 7a1dd5277cdda6de157eff068595c197d3164a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 022/113] fix: the sum of gridded data over latitude was
 weighted by the cell areas

---
 cis/aggregation/gridded_collapsor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index c1c9ebc..a023d4f 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -85,7 +85,8 @@ class GriddedCollapsor(object):
                 # ... add it to our list of partial coordinates to collapse.
                 coords_for_partial_collapse.append((coord, coord_dims))
 
-        if isinstance(kernel, iris.analysis.WeightedAggregator) and \
+        # The sum is that of the data points, so that one isn't weighted
+        if isinstance(kernel, iris.analysis.WeightedAggregator) and kernel is not iris.analysis.SUM and \
                         'latitude' in [c.standard_name for c in self.coords]:
             # If this is a list we can calculate weights using the first item (all variables should be on
             # same grid)
-- 
2.43.0


From bc4a8f22b84b930c8b51e00fefbef106565fe8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 023/113] fix: collapse of coordinates spanning several
 dimensions used the wrong dimensions, or replaced the surface of a hybrid
 height

---
 cis/aggregation/gridded_collapsor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index a023d4f..3b826e5 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -108,13 +108,17 @@ class GriddedCollapsor(object):
         new_data = iris.cube.Cube.collapsed(data_for_collapse, self.coords, kernel, **ag_args)
 
         for coord, old_dims in coords_for_partial_collapse:
-            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, dims_to_collapse)
+            # These are the dimensions of the coordinate, rather than of the data
+            coord_dims_to_collapse = [i for i, dim in enumerate(old_dims) if dim in dims_to_collapse]
+            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord,
+                                                                                          coord_dims_to_collapse)
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
             # If the coordinate we had to collapse manually was a dependency in an aux factory (which is quite likely)
             #  then we need to put it back in and fix the factory, this will update any missing dependencies.
-            self._update_aux_factories(new_data, None, collapsed_coord)
+            if any(coord is d for factory in self.data.aux_factories for d in factory.dependencies.values()):
+                self._update_aux_factories(new_data, None, collapsed_coord)
 
         return new_data
 
-- 
2.43.0


From 0d8eb0e3ef3dd26b4cf1b52491f796bf637ebf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 024/113] fix: shape subsets crashed without matches, lost the
 shape for lists, unmasked missing values, and mixed up the dimensions

---
 cis/subsetting/subset.py | 46 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 170c40b..ad653da 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -85,10 +85,12 @@ class SubsetConstraint(object):
 
     def __init__(self, limits, shape=None):
         """
-        :param dict limits: A dictionary mapping coordinate name to slice objects
+        :param dict limits: A dictionary mapping coordinate name to slice objects, and optionally 'shape' to a shape
+        :param shape: A shapely object
         """
+        limits = dict(limits)
+        self._shape = limits.pop('shape', shape)
         self._limits = limits
-        self._shape = shape
         logging.debug("Created SubsetConstraint of type %s", self.__class__.__name__)
 
     def __str__(self):
@@ -119,7 +121,6 @@ class GriddedSubsetConstraint(SubsetConstraint):
         :return: subsetted data or None if all data excluded.
         @rtype: cis.data_io.gridded_data.GriddedData
         """
-        _shape = self._limits.pop('shape', None)
         extract_constraint, intersection_constraint = self._make_extract_and_intersection_constraints(data)
         if extract_constraint is not None:
             data = data.extract(extract_constraint)
@@ -131,17 +132,23 @@ class GriddedSubsetConstraint(SubsetConstraint):
             except IndexError:
                 return None
 
-        if _shape is not None:
-            if data.ndim > 2:
-                raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
-            mask = np.ones(data.shape, dtype=bool)
-            mask[np.unravel_index(_get_gridded_subset_region_indices(data, _shape), data.shape)] = False
-            if isinstance(data.data, np.ma.MaskedArray):
-                data.data.mask &= mask
-            else:
-                data.data = np.ma.masked_array(data.data, mask)
+        if self._shape is not None:
+            for cube in (data if isinstance(data, list) else [data]):
+                self._mask_points_outside_of_shape(cube)
         return gridded_data.make_from_cube(data)
 
+    def _mask_points_outside_of_shape(self, data):
+        if data.ndim > 2:
+            raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
+        x_coord, y_coord = data.coord(axis='X'), data.coord(axis='Y')
+        mask = np.ones((len(y_coord.points), len(x_coord.points)), dtype=bool)
+        mask[np.unravel_index(_get_gridded_subset_region_indices(data, self._shape), mask.shape)] = False
+        if data.coord_dims(x_coord) < data.coord_dims(y_coord):
+            # The longitudes are the first dimension of the data
+            mask = mask.T
+        # Note that some of the data might be missing already
+        data.data = np.ma.masked_where(mask.reshape(data.shape), data.data)
+
     def _make_extract_and_intersection_constraints(self, data):
         """
         Make the appropriate constraints:
@@ -203,8 +210,6 @@ class UngriddedSubsetConstraint(SubsetConstraint):
 
         _data = self._create_data_for_subset(data)
 
-        _shape = self._limits.pop('shape', None)
-
         if self._combined_mask is None:
             # Create the combined mask across all limits
             shape = _data.coords()[0].data.shape  # This assumes they are all the same shape
@@ -222,9 +227,9 @@ class UngriddedSubsetConstraint(SubsetConstraint):
 
         _data = _data[self._combined_mask]
 
-        if _shape is not None:
+        if self._shape is not None:
             if self._shape_indices is None:
-                self._shape_indices = _get_ungridded_subset_region_indices(_data, _shape)
+                self._shape_indices = _get_ungridded_subset_region_indices(_data, self._shape)
             _data = _data[np.unravel_index(self._shape_indices, _data.shape)]
 
         if _data.size == 0:
@@ -239,16 +244,11 @@ class UngriddedSubsetConstraint(SubsetConstraint):
         :param data: Data being subsetted
         :return:
         """
-        from cis.exceptions import CoordinateNotFoundError
         # We need a copy with new data and coordinates
         data = data.copy()
         # Check for longitude coordinate in the limits
         for dim_name, limit in self._limits.items():
-            try:
-                coord = data.coord(dim_name)
-            except CoordinateNotFoundError:
-                # E.g. shape...
-                continue
+            coord = data.coord(dim_name)
             if coord.standard_name == 'longitude':
                 coord_min = coord.points.min()
                 coord_max = coord.points.max()
@@ -281,7 +281,7 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
     # Performance in this loop might be an issue, but I think it's essentially how GeoPandas does it. If I want to
     #  improve it I might need to look at using something like rtree.
-    return [i for i, p in enumerate(points.geoms) if region.contains(p)]
+    return np.array([i for i, p in enumerate(points.geoms) if region.contains(p)], dtype=int)
 
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
-- 
2.43.0


From 671420c4903ce44f9540b0f0bb1b7272c55b03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 025/113] fix: subsetting by a shape discarded explicit
 latitude and longitude limits

---
 cis/subsetting/subset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index ad653da..dab17b8 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -38,10 +38,6 @@ def subset(data, constraint, **kwargs):
             else:
                 shape = limit
             constraints['shape'] = shape
-            bounding_box = shape.bounds
-            # Create the lat/lon box - this will be used to speed up the shape subset
-            constraints[data.coord(standard_name='longitude').name()] = slice(bounding_box[0], bounding_box[2])
-            constraints[data.coord(standard_name='latitude').name()] = slice(bounding_box[1], bounding_box[3])
             continue
 
         c = data._get_coord(dim_name)
@@ -66,6 +62,12 @@ def subset(data, constraint, **kwargs):
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
+    if 'shape' in constraints:
+        bounding_box = constraints['shape'].bounds
+        # Create the lat/lon box - this will be used to speed up the shape subset (any explicit limits still apply)
+        constraints.setdefault(data.coord(standard_name='longitude').name(), slice(bounding_box[0], bounding_box[2]))
+        constraints.setdefault(data.coord(standard_name='latitude').name(), slice(bounding_box[1], bounding_box[3]))
+
     subset_constraint = constraint(constraints)
 
     subset = subset_constraint.constrain(data)
-- 
2.43.0


From 41756ce4ce3be93119339871d475e69bfaad8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 026/113] fix: a subset of an ungridded list without any
 matching points crashed

---
 cis/subsetting/subset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index dab17b8..96866fd 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -207,7 +207,10 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             # so we can just call this method recursively if we've got a list of data.
             output = UngriddedDataList()
             for var in data:
-                output.append(self.constrain(var))
+                subset_var = self.constrain(var)
+                if subset_var is None:
+                    return None
+                output.append(subset_var)
             return output
 
         _data = self._create_data_for_subset(data)
-- 
2.43.0


From c744270e090e945d73ea1dc4d713be85d01cb7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 027/113] fix: subsetting with a datetime and an open limit
 crashed

---
 cis/subsetting/subset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 96866fd..5b12cf3 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -21,6 +21,7 @@ def subset(data, constraint, **kwargs):
     :param kwargs: The limits as slices or length 2 tuples of max and min.
     :return:
     """
+    from datetime import datetime
     from cis.time_util import PartialDateTime
     from cis.exceptions import CoordinateNotFoundError
     from shapely.wkt import loads
@@ -59,6 +60,11 @@ def subset(data, constraint, **kwargs):
         # Fill in defaults
         limit_start = l.start if l.start is not None else c.points.min()
         limit_end = l.stop if l.stop is not None else c.points.max()
+        # Keep the default comparable to the other limit
+        if l.start is None and isinstance(l.stop, datetime):
+            limit_start = c.units.num2date(limit_start)
+        elif l.stop is None and isinstance(l.start, datetime):
+            limit_end = c.units.num2date(limit_end)
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
@@ -221,7 +227,7 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             combined_mask = np.ones(shape, dtype=bool)
             for coord, limit in self._limits.items():
                 # Convert the points to datetimes if the limit is a datetime
-                if isinstance(limit.start, datetime):
+                if isinstance(limit.start, datetime) or isinstance(limit.stop, datetime):
                     points = _data.coord(coord).units.num2date(_data.coord(coord).data)
                 else:
                     points = _data.coord(coord).data
-- 
2.43.0


From 44b360891001c1b185ef4e862bfb5b9d5259a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 028/113] fix: longitude limits of ungridded subsets missed
 points which are a turn away

---
 cis/subsetting/subset.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 5b12cf3..e7c082f 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -261,26 +261,11 @@ class UngriddedSubsetConstraint(SubsetConstraint):
         for dim_name, limit in self._limits.items():
             coord = data.coord(dim_name)
             if coord.standard_name == 'longitude':
-                coord_min = coord.points.min()
-                coord_max = coord.points.max()
-                data_below_zero = coord_min < 0
-                data_above_180 = coord_max > 180
-                limits_below_zero = limit.start < 0 or limit.stop < 0
-                limits_above_180 = limit.start > 180 or limit.stop > 180
-
-                if data_below_zero and not data_above_180:
-                    # i.e. data is in the range -180 -> 180
-                    # Only convert the data if the limits are above 180:
-                    if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to 0 -> 360
-                        range_start = 0
-                        coord.set_longitude_range(range_start)
-                elif data_above_180 and not data_below_zero:
-                    # i.e. data is in the range 0 -> 360
-                    if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to -180 -> 180
-                        range_start = -180
-                        coord.set_longitude_range(range_start)
+                # Longitudes are circular, so move any points which aren't already within the limits by as many turns as
+                # it takes to bring them above the lower limit
+                turns = np.ceil((limit.start - coord.data) / 360.0)
+                outside = (coord.data < limit.start) | (coord.data > limit.stop)
+                coord.data = np.ma.where(outside, coord.data + 360.0 * turns, coord.data)
         return data
 
 
-- 
2.43.0


From 8eff5eb7bf1400f9ab663401f75cee04d3e7ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 029/113] fix: gridded subsets covering all of the data shared
 the original data, and added to its history

---
 cis/subsetting/subset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index e7c082f..eff3f14 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -129,6 +129,7 @@ class GriddedSubsetConstraint(SubsetConstraint):
         :return: subsetted data or None if all data excluded.
         @rtype: cis.data_io.gridded_data.GriddedData
         """
+        original = data
         extract_constraint, intersection_constraint = self._make_extract_and_intersection_constraints(data)
         if extract_constraint is not None:
             data = data.extract(extract_constraint)
@@ -140,6 +141,12 @@ class GriddedSubsetConstraint(SubsetConstraint):
             except IndexError:
                 return None
 
+        # Iris returns the original cube if all of it is within the limits
+        if isinstance(data, list):
+            data = gridded_data.GriddedDataList([d.copy() if d is o else d for d, o in zip(data, original)])
+        elif data is original:
+            data = data.copy()
+
         if self._shape is not None:
             for cube in (data if isinstance(data, list) else [data]):
                 self._mask_points_outside_of_shape(cube)
-- 
2.43.0


From 5c9d84c2e4d127c4c5ad1fbc8bd83c0e37442baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 030/113] fix: subsetting gridded data by numeric time limits
 crashed

---
 cis/subsetting/subset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index eff3f14..ba21a34 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -187,11 +187,15 @@ class GriddedSubsetConstraint(SubsetConstraint):
         intersection_constraint = {}
         extract_constraint = iris.Constraint()
         for coord, limits in self._limits.items():
-            if data.coord(coord).units.modulus is not None:
+            units = data.coord(coord).units
+            if units.modulus is not None:
                 # These coordinates can be safely used with iris.cube.Cube.intersection()
                 intersection_constraint[coord] = (limits.start, limits.stop)
             else:
                 # These coordinates cannot be used with iris.cube.Cube.intersection(), will use iris.cube.Cube.extract()
+                if units.is_time_reference():
+                    # Iris gives the points as datetimes, whatever the limits are
+                    limits = slice(*[l if hasattr(l, 'year') else units.num2date(l) for l in (limits.start, limits.stop)])
                 extract_constraint = extract_constraint & iris.Constraint(**{coord: Contains(limits.start, limits.stop)})
         return extract_constraint, intersection_constraint
 
-- 
2.43.0


From 8aa71fe8a0c507948a314c23851bec72a6b41a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 031/113] fix: open limits with all of the gridded data on the
 other side crashed

---
 cis/subsetting/subset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index ba21a34..12d3e9f 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -65,6 +65,11 @@ def subset(data, constraint, **kwargs):
             limit_start = c.units.num2date(limit_start)
         elif l.stop is None and isinstance(l.start, datetime):
             limit_end = c.units.num2date(limit_end)
+        # None of the data might be on the right side of the other limit
+        if l.start is None and l.stop is not None and limit_start > limit_end:
+            limit_start = limit_end
+        elif l.stop is None and l.start is not None and limit_end < limit_start:
+            limit_end = limit_start
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
-- 
2.43.0


From fffd38c69a8c23020bf3c5441044b4d64fb44dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 032/113] fix: missing values were read from NetCDF as ordinary
 values

---
 cis/data_io/netcdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 9cca09b..350bcf8 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -259,9 +259,10 @@ def get_data(var):
     """
     import numpy as np
     import logging
-    # Turn off scaling and masking as we're a bit more lenient about the type of valid min/max.
-    var.set_auto_maskandscale(False)
+    # Turn off scaling as we're a bit more lenient about the type of valid min/max, which apply to the unscaled values.
+    var.set_auto_scale(False)
     # This will still automatically return a masked array based on _FillValue and missing_value
+    var.set_auto_mask(True)
     data = var[:]
 
     if hasattr(var, 'valid_max'):
-- 
2.43.0


From f59441a10b3eef4cbe1bf66e057aa4d4a7eac85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 033/113] fix: packed integer NetCDF data with only a scale
 factor or an offset could not be read

---
 cis/data_io/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 350bcf8..2091980 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -312,9 +312,9 @@ def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
         logging.debug("Applying 'data = data * {scale} + {offset}' transformation to data.".format(scale=scale_factor,
                                                                                                    offset=add_offset))
     elif scale_factor is not None and scale_factor != 1.0:
-        data *= scale_factor
+        data = data * scale_factor
         logging.debug("Applying 'data *= {scale}' transformation to data.".format(scale=scale_factor))
     elif add_offset is not None and add_offset != 0.0:
-        data += add_offset
+        data = data + add_offset
         logging.debug("Applying 'data += {offset}' transformation to data.".format(offset=add_offset))
     return data
-- 
2.43.0


From 87e59f9f8ca4bdc256cf971631e188d15a010de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 034/113] fix: points with a time which is not a number crashed
 instead of being left out

---
 cis/data_io/ungridded_data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index c6821da..43c382e 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -479,8 +479,6 @@ class UngriddedData(LazyData, CommonData):
                 combined_mask |= numpy.ma.getmaskarray(coord.data).flatten()
                 if coord.data.dtype != 'object':
                     combined_mask |= numpy.isnan(coord.data).flatten()
-                coord.update_shape()
-                coord.update_range()
             if combined_mask.any():
                 n_points = numpy.count_nonzero(combined_mask)
                 logging.warning(
@@ -488,14 +486,15 @@ class UngriddedData(LazyData, CommonData):
                     "these points have been removed from the data.".format(n_points=n_points))
                 for coord in self._coords:
                     coord.data = numpy.ma.masked_array(coord.data.flatten(), mask=combined_mask).compressed()
-                    coord.update_shape()
-                    coord.update_range()
                 if numpy.ma.is_masked(self._data):
                     new_data_mask = numpy.ma.masked_array(self._data.mask.flatten(), mask=combined_mask).compressed()
                     new_data = numpy.ma.masked_array(self._data.data.flatten(), mask=combined_mask).compressed()
                     self._data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
                     self._data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+            for coord in self._coords:
+                coord.update_shape()
+                coord.update_range()
             self.update_shape()
             self.update_range()
 
-- 
2.43.0


From 6555befe386871ad71a7456506ce59d3600d70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 035/113] fix: gridded data with time as an auxiliary
 coordinate could not be read

---
 cis/time_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index 24fe9d7..ce6e707 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -215,6 +215,7 @@ def convert_cube_time_coord_to_standard_time(cube):
     t_coord = cube.coord(standard_name='time')
     data_dim = cube.coord_dims(t_coord)
     if len(data_dim) > 0:
+        is_dim_coord = bool(cube.coords(t_coord, dim_coords=True))
         # And remove it from the cube
         cube.remove_coord(t_coord)
 
@@ -233,7 +234,10 @@ def convert_cube_time_coord_to_standard_time(cube):
         new_time_coord.units = cis_standard_time_unit
 
         # And add the new coordinate back into the cube
-        cube.add_dim_coord(new_time_coord, data_dim)
+        if is_dim_coord:
+            cube.add_dim_coord(new_time_coord, data_dim)
+        else:
+            cube.add_aux_coord(new_time_coord, data_dim)
 
     return cube
 
-- 
2.43.0


From 3526e002d35e7b5cb8414c5dfd54a7715913abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 036/113] fix: slices and copies of gridded data were not CIS
 data objects

---
 cis/data_io/gridded_data.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 0f67640..1341167 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -107,6 +107,24 @@ class GriddedData(iris.cube.Cube, CommonData):
         # Override the Cube representation
         return "<cis 'GriddedData' of %s>" % self.summary(shorten=True)
 
+    def _wrap_new_cube(self, cube):
+        """Makes a GriddedData object from a Cube which was derived from this object.
+        :param cube: new Cube
+        :return: GriddedData object with the same local attributes
+        """
+        data = make_from_cube(cube)
+        data._local_attributes = list(self._local_attributes)
+        return data
+
+    def __getitem__(self, keys):
+        return self._wrap_new_cube(super(GriddedData, self).__getitem__(keys))
+
+    def __deepcopy__(self, memo):
+        return self._wrap_new_cube(super(GriddedData, self).__deepcopy__(memo))
+
+    def copy(self, data=None):
+        return self._wrap_new_cube(super(GriddedData, self).copy(data))
+
     @staticmethod
     def _wrap_cube_iterator(itr):
         """Makes a generator that returns a GriddedData object from each Cube returned by an iterator.
-- 
2.43.0


From 3078c2c7c40de20c7978cd23b66f984dce3fa69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 037/113] fix: saved data kept the valid range of the packed or
 unshifted values, so that valid points were lost on reading

---
 cis/data_io/write_netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index c3a418a..9c104c6 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -34,7 +34,8 @@ def __add_metadata(var, data):
     for name, value in data.attributes.items():
         setattr(var, name, value)
     for name, value in data.metadata.misc.items():
-        if name not in var.ncattrs():
+        # The valid range has already been applied on reading, and needn't hold for the (e.g. longitude shifted) data now
+        if name not in var.ncattrs() and name not in ('valid_min', 'valid_max', 'valid_range'):
             try:
                 setattr(var, name, value)
             except ValueError:
-- 
2.43.0


From eff5a376041ed9949bada4d06a3fd8a08515938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 038/113] fix: command line dates with parts left out took them
 from today, and ended at their earliest time

---
 cis/parse.py          |  6 +++---
 cis/parse_datetime.py | 24 ++++++++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 94621a1..72d6eec 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -471,7 +471,7 @@ def get_aggregate_grid(aggregategrid, parser):
             dim_name = match.group('dim')
 
             start_parsed = parse_as_number_or_datetime(match.group('start'))
-            end_parsed = parse_as_number_or_datetime(match.group('end'))
+            end_parsed = parse_as_number_or_datetime(match.group('end'), latest=True)
             delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
 
             if dim_name.lower() == 'x':
@@ -542,7 +542,7 @@ def get_subset_limits(subsetlimits, parser):
                     limits = parse_partial_datetime(limit1, 'subset range date/time', parser)
                 else:
                     limits = [parse_datetime(limit1, 'subset range start date/time', parser),
-                              parse_datetime(limit2, 'subset range end date/time', parser)]
+                              parse_datetime(limit2, 'subset range end date/time', parser, latest=True)]
             elif dim_name.lower() in ['x', 'y', 'z']:
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
                           parse_float(limit2, 'subset range start coordinate', parser)]
@@ -554,7 +554,7 @@ def get_subset_limits(subsetlimits, parser):
                         parser.error("Longitude limits should not be more than 360 degrees apart "
                                      "(i.e. for x[A,B] B-A <= 360)")
             else:
-                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2)]
+                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2, latest=True)]
             limit_dict[dim_name] = limits
     return limit_dict
 
diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index b108781..4b14eda 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -8,13 +8,23 @@ def parse_datetimestr_to_std_time(s):
     return cis_standard_time_unit.date2num(du.parse(s))
 
 
-def _parse_datetime(s):
+def _parse_datetime(s, latest=False):
     """Parse a date/time string.
 
     The string should be in an ISO 8601 format except that the date and time
-    parts may be separated by a space or colon instead of T.
+    parts may be separated by a space or colon instead of T. Trailing components may be omitted.
+
+    :param s: String to parse
+    :param bool latest: Use the latest, rather than the earliest, date/time compatible with the components given
     """
     import dateutil.parser as du
+    if re.match(r'\d{4}(-|$)', s):
+        try:
+            partial = _parse_partial_datetime(s)
+            return partial.max() if latest else partial.min()
+        except ValueError:
+            # It might be one of the other formats
+            pass
     return du.parse(s)
 
 
@@ -70,7 +80,7 @@ def parse_partial_datetime(dt_string, name, parser):
     return dt
 
 
-def parse_datetime(dt_string, name, parser):
+def parse_datetime(dt_string, name, parser, latest=False):
     """Parse a date/time string from the command line, reporting parse errors.
 
     The string should be in an ISO 8601 format except that the date and time
@@ -78,12 +88,13 @@ def parse_datetime(dt_string, name, parser):
     :param dt_string: String to parse
     :param name:      A description of the argument used for error messages
     :param parser:    The parser used to report errors
+    :param bool latest: Use the latest, rather than the earliest, date/time compatible with the components given
     :return: datetime value
     """
     if dt_string == 'None' or dt_string is None:
         return None
     try:
-        dt = _parse_datetime(dt_string)
+        dt = _parse_datetime(dt_string, latest)
     except ValueError:
         parser.error("'" + dt_string + "' is not a valid " + name)
         dt = None
@@ -173,11 +184,12 @@ def parse_datetimestr_delta_to_float_days(string):
     return _datetime_delta_to_float_days(date_delta)
 
 
-def parse_as_number_or_datetime(string):
+def parse_as_number_or_datetime(string, latest=False):
     """
     Parse a string as a number from the command line, or if that fails, as a datetime
 
     :param in_string: String to parse
+    :param bool latest: Use the latest, rather than the earliest, date/time compatible with the components given
     :return: int, float or DateTime
     """
     if string == 'None' or string is None:
@@ -189,7 +201,7 @@ def parse_as_number_or_datetime(string):
             ret = float(string)
         except ValueError:
             try:
-                ret = _parse_datetime(string)
+                ret = _parse_datetime(string, latest)
             except ValueError:
                 raise argparse.ArgumentTypeError("'{}' is not a valid value.".format(string))
     return ret
-- 
2.43.0


From ce1dd279354f94b3034d78ba8d1849133a83e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 039/113] fix: a single subset limit was not both the start and
 the end

---
 cis/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/parse.py b/cis/parse.py
index 72d6eec..b1d8b50 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -544,6 +544,8 @@ def get_subset_limits(subsetlimits, parser):
                     limits = [parse_datetime(limit1, 'subset range start date/time', parser),
                               parse_datetime(limit2, 'subset range end date/time', parser, latest=True)]
             elif dim_name.lower() in ['x', 'y', 'z']:
+                # A single value is both the start and the end
+                limit2 = limit1 if limit2 is None else limit2
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
                           parse_float(limit2, 'subset range start coordinate', parser)]
                 if dim_name.lower() == 'x':
@@ -554,6 +556,7 @@ def get_subset_limits(subsetlimits, parser):
                         parser.error("Longitude limits should not be more than 360 degrees apart "
                                      "(i.e. for x[A,B] B-A <= 360)")
             else:
+                limit2 = limit1 if limit2 is None else limit2
                 limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2, latest=True)]
             limit_dict[dim_name] = limits
     return limit_dict
-- 
2.43.0


From 4c0b8b7588fd3b87cf853d6873f15f4729e6c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 040/113] fix: aggregating over coordinates without a grid
 crashed

---
 cis/data_io/ungridded_data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 43c382e..b611e33 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1266,6 +1266,7 @@ def _aggregate_ungridded(data, how, **kwargs):
     from cis.aggregation.ungridded_aggregator import UngriddedAggregator
     from cis.collocation.col import get_kernel
     from cis.time_util import PartialDateTime
+    from cis.exceptions import CoordinateNotFoundError
     from datetime import datetime, timedelta
     from cis import __version__
 
@@ -1273,6 +1274,12 @@ def _aggregate_ungridded(data, how, **kwargs):
     grid_spec = {}
     for dim_name, grid in kwargs.items():
         c = data._get_coord(dim_name)
+        if c is None:
+            raise CoordinateNotFoundError("No coordinate found that matches '{}'. Please check the coordinate "
+                                          "name.".format(dim_name))
+        if grid is None:
+            # Coordinates without a grid are collapsed, as those which aren't mentioned are
+            continue
         if all(hasattr(grid, att) for att in ('start', 'stop', 'step')):
             g = grid
         elif len(grid) == 2 and isinstance(grid[0], PartialDateTime):
-- 
2.43.0


From dc1e0581f40991bf29b5fbae306699923a2b4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 041/113] fix: collocating several datagroups only kept the
 output of the last

---
 cis/cis_main.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 953b4b7..28c1113 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -71,6 +71,8 @@ def col_cmd(main_arguments):
     :param main_arguments:    The command line arguments (minus the col command)
     """
     from cis.collocation.col_framework import get_kernel
+    from cis.data_io.gridded_data import GriddedDataList
+    from cis.data_io.ungridded_data import UngriddedDataList
     from cis.parse import check_boolean
 
     # Read the sample data
@@ -94,12 +96,22 @@ def col_cmd(main_arguments):
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
+    outputs = []
     for input_group in main_arguments.datagroups:
         # Then collocate each datagroup
         data = DataReader().read_single_datagroup(input_group)
-        output = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
-                                      missing_data_for_missing_sample=missing_data_for_missing_sample, **col_options)
-        output.save_data(main_arguments.output)
+        outputs.append(data.collocated_onto(sample_data, how=col_name, kernel=kernel,
+                                            missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                            **col_options))
+
+    if len(outputs) > 1:
+        # All of the datagroups go in the one output file
+        output = GriddedDataList() if outputs[0].is_gridded else UngriddedDataList()
+        for collocated in outputs:
+            output.append_or_extend(collocated)
+    else:
+        output = outputs[0]
+    output.save_data(main_arguments.output)
 
 
 def subset_cmd(main_arguments):
-- 
2.43.0


From af39301d12212b634d9db7160f517d7bfeeb6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 042/113] fix: statistics of integer data could overflow

---
 cis/stats.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cis/stats.py b/cis/stats.py
index 176bb27..2b51b17 100644
--- a/cis/stats.py
+++ b/cis/stats.py
@@ -308,11 +308,16 @@ class StatsAnalyzer(object):
         self._var_name_2 = data2.var_name
         # Flatten the data, so that data of different shapes but same overall size can be compared (e.g. the case where
         # you have collocated some data).
-        self._data1 = data1.data.flatten()
-        self._data2 = data2.data.flatten()
+        self._data1 = self._as_float(data1.data.flatten())
+        self._data2 = self._as_float(data2.data.flatten())
         # Keep a record of whether we have already combined the masks so that we don't unnecessarily repeat it
         self._masks_combined = False
 
+    @staticmethod
+    def _as_float(data):
+        # The differences between integers might not be integers of the same type
+        return data if data.dtype.kind == 'f' else data.astype(float)
+
     def analyze(self):
         """
         Perform a statistical analysis on two data sets.
-- 
2.43.0


From 33412b89b2f7f7608a3b1efff688631a2f476092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 043/113] fix: times of whole days were read as integers, which
 truncated the times worked out from them

---
 cis/time_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index ce6e707..696543c 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -144,7 +144,8 @@ def convert_time_since_to_std_time(time_array, units):
     :return:
     """
     dt = units.num2date(time_array)
-    return cis_standard_time_unit.date2num(dt)
+    # Whole numbers of days come back as integers, which would truncate the times which are worked out from them
+    return cis_standard_time_unit.date2num(dt) * 1.0
 
 
 def convert_time_using_time_stamp_info_to_std_time(time_array, units, time_stamp_info=None):
@@ -220,12 +221,13 @@ def convert_cube_time_coord_to_standard_time(cube):
         cube.remove_coord(t_coord)
 
         dt_points = t_coord.units.num2date(t_coord.points)
-        new_datetime_nums = cis_standard_time_unit.date2num(dt_points)
+        # Whole numbers of days come back as integers, which would truncate the times which are worked out from them
+        new_datetime_nums = cis_standard_time_unit.date2num(dt_points).astype(float)
 
         # new_datetime_nums = convert_numpy_array(t_coord.points, 'float64', convert_date)
         if t_coord.nbounds > 0:
             dt_bounds = t_coord.units.num2date(t_coord.bounds)
-            new_bound_nums = cis_standard_time_unit.date2num(dt_bounds)
+            new_bound_nums = cis_standard_time_unit.date2num(dt_bounds).astype(float)
             t_coord.bounds = new_bound_nums
 
         # Create a new time coordinate by copying the old one, but using our new points and units
-- 
2.43.0


From b909b72f35e9598d2c94088f062b8993a1dbec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 044/113] fix: years on their own were numbers in aggregation
 grids with a date/time step

---
 cis/parse.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index b1d8b50..51aa780 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -443,7 +443,8 @@ def get_aggregate_grid(aggregategrid, parser):
     :param parser:        The parser used to report errors
     :return: The parsed datagroups as a list of dictionaries
     """
-    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta
+    from datetime import timedelta
+    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta, parse_datetime
 
     # Split into the limits for each dimension.
     split_input = split_outside_brackets(aggregategrid)
@@ -474,6 +475,13 @@ def get_aggregate_grid(aggregategrid, parser):
             end_parsed = parse_as_number_or_datetime(match.group('end'), latest=True)
             delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
 
+            if isinstance(delta_parsed, timedelta):
+                # With a date/time step a year on its own is a date/time, rather than a number
+                if re.match(r'\d{4}$', match.group('start')):
+                    start_parsed = parse_datetime(match.group('start'), 'grid start date/time', parser)
+                if re.match(r'\d{4}$', match.group('end')):
+                    end_parsed = parse_datetime(match.group('end'), 'grid end date/time', parser, latest=True)
+
             if dim_name.lower() == 'x':
                 if not start_parsed <= end_parsed:
                     parser.error("Longitude grid must be monotonically increasing (i.e. for x[A,B,C] A <= B). For "
-- 
2.43.0


From 5a38969d7281fe4a2c4eac1363e9325a8e88c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 045/113] fix: directories matching a wildcard were taken for
 files

---
 cis/data_io/data_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index ac65da7..90ae11d 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -31,7 +31,8 @@ def expand_filelist(filelist):
             filelist = glob(element)
             filelist.sort()
             for filename in filelist:
-                file_set.add(filename)
+                if os.path.isfile(filename):
+                    file_set.add(filename)
         elif os.path.isdir(element):
             filelist = os.listdir(element)
             filelist.sort()
-- 
2.43.0


From 33040bdc1fae72f1b2f939a0917c10cfce53263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 046/113] fix: options given before the command were ignored

---
 cis/parse.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 51aa780..f6b0f8f 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -46,11 +46,11 @@ class AliasedSubParsersAction(argparse._SubParsersAction):
         return parser
 
 
-def initialise_top_parser():
+def _global_options_parser(**kwargs):
     """
-    The parser to which all arguments are initially passed
+    The options which can be given both before and after the command
     """
-    global_options = argparse.ArgumentParser(add_help=False)
+    global_options = argparse.ArgumentParser(add_help=False, **kwargs)
     verbosity_group = global_options.add_mutually_exclusive_group()
     verbosity_group.add_argument("-v", "--verbose", action='count',
                                  help="Increase the level of logging information output to screen to include "
@@ -61,8 +61,16 @@ def initialise_top_parser():
     global_options.add_argument("--force-overwrite", action='store_true',
                                 help="Do not prompt when an output file already exists - always overwrite. This can "
                                      "also be set by setting the 'CIS_FORCE_OVERWRITE' environment variable to 'TRUE'")
+    return global_options
 
-    parser = argparse.ArgumentParser("cis", parents=[global_options])
+
+def initialise_top_parser():
+    """
+    The parser to which all arguments are initially passed
+    """
+    parser = argparse.ArgumentParser("cis", parents=[_global_options_parser()])
+    # The commands must not set defaults for the options which were given before the command
+    global_options = _global_options_parser(argument_default=argparse.SUPPRESS)
     parser.register('action', 'parsers', AliasedSubParsersAction)
     subparsers = parser.add_subparsers(dest='command')
     plot_parser = subparsers.add_parser("plot", help="Create plots", argument_default=argparse.SUPPRESS, parents=[global_options])
-- 
2.43.0


From f75854bae639cf58eb5b13875162cc5c3fdf7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 047/113] fix: single points had time and pressure swapped, and
 needed all of the coordinates

---
 cis/data_io/ungridded_data.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index b611e33..865af5c 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -597,12 +597,8 @@ class UngriddedData(LazyData, CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          self.data.flat[index])
+        coords = [(c[index] if c is not None else None) for c in self.coords_flattened]
+        return HyperPoint(*(coords + [self.data_flattened[index]]))
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
@@ -930,12 +926,7 @@ class UngriddedCoordinates(CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          None)
+        return HyperPoint(*[(c[index] if c is not None else None) for c in self.coords_flattened])
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
-- 
2.43.0


From ef79b259d6039457c4b407271f67606e0768ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 048/113] fix: data frames left out all but one of the
 coordinates without a standard name

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 865af5c..e0b5c65 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1171,7 +1171,7 @@ def _coords_as_data_frame(coord_list, copy=True, time_index=True):
             else:
                 time = cis_standard_time_unit.num2date(data)
         else:
-            columns[coord.standard_name] = data
+            columns[coord.name()] = data
 
     return pd.DataFrame(columns, index=time)
 
-- 
2.43.0


From 4dc9fd2207bb8a073ef2838cfdbb86111ef331bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 049/113] fix: data with several coordinates without a standard
 name could not be copied

---
 cis/data_io/Coord.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index c00b268..af56a4b 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -291,7 +291,4 @@ class CoordList(list):
 
         :return: Copied :class:`CoordList`
         """
-        copied = CoordList()
-        for coord in self:
-            copied.append(coord.copy())
-        return copied
+        return CoordList([coord.copy() for coord in self])
-- 
2.43.0


From d423895cbbd256a8c028bc2c23bbaabcf46f774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 050/113] fix: points kept showing the data as they were when
 first asked for

---
 cis/data_io/Coord.py          | 1 -
 cis/data_io/ungridded_data.py | 9 ++-------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index af56a4b..54b3687 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -110,7 +110,6 @@ class Coord(LazyData):
         :param float range_start: Start of the longitude range
         """
         self._data = fix_longitude_range(self._data, range_start)
-        self._data_flattened = None
 
     def copy(self, data=None):
         """
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index e0b5c65..7b3c58f 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -185,8 +185,6 @@ class LazyData(object):
         from iris.cube import CubeMetadata
         import numpy as np
 
-        self._data_flattened = None
-
         self.attributes = {}
 
         self.metadata = Metadata.from_CubeMetadata(metadata) if isinstance(metadata, CubeMetadata) else metadata
@@ -331,16 +329,13 @@ class LazyData(object):
     @data.setter
     def data(self, value):
         self._data = value
-        self._data_flattened = None
 
     @property
     def data_flattened(self):
         """Returns a 1D flattened view (or copy, if necessary) of the data.
         """
-        if self._data_flattened is None:
-            data = self.data
-            self._data_flattened = data.ravel()
-        return self._data_flattened
+        # Not kept, as it would not follow changes to the data (or to its mask)
+        return self.data.ravel()
 
     def add_history(self, new_history):
         """Appends to, or creates, the metadata history attribute using the supplied history string.
-- 
2.43.0


From e260491647998adde6e6359800d1c81653bc9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 051/113] fix: the size of point coordinates with a single
 coordinate was zero

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 7b3c58f..035cf95 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -882,7 +882,7 @@ class UngriddedCoordinates(CommonData):
 
     @property
     def size(self):
-        if len(self._coords) > 1:
+        if len(self._coords) > 0:
             return self._coords[0].data.size
         else:
             return 0
-- 
2.43.0


From 590c3d05d9a466ab919541aaf4f33097ecb4659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 052/113] fix: converting the units of integer data left the
 numbers as they were

---
 cis/data_io/ungridded_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 035cf95..63da04d 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -417,7 +417,11 @@ class LazyData(object):
         if not isinstance(self.units, Unit):
             # If our units aren't cf_units then they can't be...
             raise ValueError("Unable to convert non-standard LazyData units: {}".format(self.units))
-        self.units.convert(self.data, new_units, inplace=True)
+        if self.data.dtype.kind in 'iu':
+            # Integers can't be converted in place
+            self.data = self.units.convert(self.data, new_units)
+        else:
+            self.units.convert(self.data, new_units, inplace=True)
         self.units = new_units
 
 
-- 
2.43.0


From f08e863815b1eafb10059a0bf6872c08e66c6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 053/113] fix: points with a modified time kept their time if
 it was not given as a datetime

---
 cis/data_io/hyperpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index d4a5722..75046a4 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -64,7 +64,8 @@ class HyperPoint(namedtuple('HyperPoint', ['latitude', 'longitude', 'altitude',
             values[HyperPoint.AIR_PRESSURE] = pres
         if t is not None:
             if isinstance(t, datetime.datetime):
-                values[HyperPoint.TIME] = convert_datetime_to_std_time(t)
+                t = convert_datetime_to_std_time(t)
+            values[HyperPoint.TIME] = t
         if val is not None:
             if val == []:
                 values[HyperPoint.VAL] = []
-- 
2.43.0


From 41089582d485aabd75f32270e5b31acea066382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 054/113] fix: points of gridded data with single values, or
 dimensions without a standard coordinate, were wrong

---
 cis/data_io/gridded_data.py    | 4 ++--
 cis/data_io/hyperpoint_view.py | 5 +----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 1341167..dfee0eb 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -169,9 +169,9 @@ class GriddedData(iris.cube.Cube, CommonData):
         coords = self.coords(dim_coords=True)
         for name in HyperPoint.standard_names:
             coord_and_dim = None
-            for idx, coord in enumerate(coords):
+            for coord in coords:
                 if coord.standard_name == name:
-                    coord_and_dim = (coord, idx)
+                    coord_and_dim = (coord, self.coord_dims(coord)[0])
                     break
             ret_list.append(coord_and_dim)
 
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index e4de423..307929f 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -252,8 +252,6 @@ class GriddedHyperPointView(HyperPointView):
             coord = self.coords[idx]
             if coord is not None:
                 val[self.dims_to_std_coords_map[idx]] = coord[coord_idx]
-            else:
-                val.append(None)
         if self.data is not None:
             val.append(self.data[indices])
         return HyperPoint(*val)
@@ -268,8 +266,7 @@ class GriddedHyperPointView(HyperPointView):
         """Iterates over all or non-masked points according to the value of non_masked_iteration
         :return: next HyperPoint
         """
-        shape = [c.size for c in self.coords if (c is not None and c.size > 1)]
-        for idx in cis.utils.index_iterator(shape):
+        for idx in cis.utils.index_iterator(self.data.shape):
             if self.non_masked_iteration and self.data is not None and self.data[idx] is np.ma.masked:
                 continue
             yield self.__getitem__(idx)
-- 
2.43.0


From becb3fac4847899d61578f2b012cbcb72e5f2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 055/113] fix: new gridded data shared the coordinates of that
 it was made from, and needed a history

---
 cis/data_io/gridded_data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dfee0eb..3628c49 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -96,11 +96,14 @@ class GriddedData(iris.cube.Cube, CommonData):
         """
         if data is None:
             data = np.zeros(self.shape)
+        # Take the coordinates from a copy, so that changing those of the new data doesn't change these
+        template = self.copy(data)
         data = GriddedData(data=data, standard_name=standard_name, long_name=long_name, var_name=var_name,
-                           units=units, dim_coords_and_dims=self._dim_coords_and_dims,
-                           aux_coords_and_dims=self._aux_coords_and_dims, aux_factories=self._aux_factories)
+                           units=units, dim_coords_and_dims=template._dim_coords_and_dims,
+                           aux_coords_and_dims=template._aux_coords_and_dims, aux_factories=template._aux_factories)
         # Add history separately as it is not a constructor argument
-        data.add_history(history)
+        if history is not None:
+            data.add_history(history)
         return data
 
     def __repr__(self):
-- 
2.43.0


From 8f6112d88982ae8d1faa8eb080ae5752f43af164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 056/113] fix: sums, slices of lists and other results from
 gridded data were not gridded data any more

---
 cis/data_io/gridded_data.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 3628c49..f819424 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -128,6 +128,32 @@ class GriddedData(iris.cube.Cube, CommonData):
     def copy(self, data=None):
         return self._wrap_new_cube(super(GriddedData, self).copy(data))
 
+    # Iris makes plain Cubes when it combines two cubes, interpolates or regrids
+
+    def __add__(self, other):
+        return self._wrap_new_cube(super(GriddedData, self).__add__(other))
+
+    __radd__ = __add__
+
+    def __sub__(self, other):
+        return self._wrap_new_cube(super(GriddedData, self).__sub__(other))
+
+    def __mul__(self, other):
+        return self._wrap_new_cube(super(GriddedData, self).__mul__(other))
+
+    __rmul__ = __mul__
+
+    def __truediv__(self, other):
+        return self._wrap_new_cube(super(GriddedData, self).__truediv__(other))
+
+    __div__ = __truediv__
+
+    def interpolate(self, *args, **kwargs):
+        return self._wrap_new_cube(super(GriddedData, self).interpolate(*args, **kwargs))
+
+    def regrid(self, *args, **kwargs):
+        return self._wrap_new_cube(super(GriddedData, self).regrid(*args, **kwargs))
+
     @staticmethod
     def _wrap_cube_iterator(itr):
         """Makes a generator that returns a GriddedData object from each Cube returned by an iterator.
@@ -431,6 +457,14 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
         """
         return True
 
+    # The methods of CubeList would give plain CubeLists
+
+    def __add__(self, rhs):
+        return CommonDataList.__add__(self, rhs)
+
+    def __getitem__(self, item):
+        return CommonDataList.__getitem__(self, item)
+
     def append(self, p_object):
         if isinstance(p_object, iris.cube.Cube):
             p_object = make_from_cube(p_object)
-- 
2.43.0


From bb1961da58f3186f33c6c2eca8f9b53064cbc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 057/113] fix: CloudSat values missing because they are at
 least the missing value were not masked

---
 cis/data_io/products/cloudsat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cis/data_io/products/cloudsat.py b/cis/data_io/products/cloudsat.py
index 37bca54..4727a5c 100644
--- a/cis/data_io/products/cloudsat.py
+++ b/cis/data_io/products/cloudsat.py
@@ -246,6 +246,7 @@ class CloudSat(AProduct):
         missop_fn = {'<': np.ma.masked_less,
                      '<=': np.ma.masked_less_equal,
                      '==': np.ma.masked_equal,
+                     '>=': np.ma.masked_greater_equal,
                      '=>': np.ma.masked_greater_equal,
                      '>': np.ma.masked_greater}
 
-- 
2.43.0


From 89245c50235b31bd0258035d7f18369af7cb9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 058/113] fix: periods of MODIS L3 files ending within a day
 were truncated when the first one is of whole days

---
 cis/parse_datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index 4b14eda..e28d9b9 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -5,7 +5,8 @@ import argparse
 
 def parse_datetimestr_to_std_time(s):
     import dateutil.parser as du
-    return cis_standard_time_unit.date2num(du.parse(s))
+    # Whole numbers of days come back as integers, which would truncate the times they are joined with
+    return cis_standard_time_unit.date2num(du.parse(s)) * 1.0
 
 
 def _parse_datetime(s, latest=False):
-- 
2.43.0


From fc0e2e98922e45ee3193852fe07303a866c9e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 059/113] fix: every slice of a multi-dimensional MODIS L2
 variable was the last one

---
 cis/data_io/products/MODIS.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 29d8459..f3b8e96 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -18,9 +18,9 @@ def _get_MODIS_SDS_data(sds):
     data = sds.get()
     attributes = sds.attributes()
 
-    # Squeeze dimensions that have been sliced
-    if sds._count is not None and any(np.array(sds._count) == 1):
-        data = data.squeeze()
+    # Remove the dimensions that have been sliced (but not any other of the same length)
+    if sds._count is not None:
+        data = data.reshape(sds._count[-2:])
 
     # Apply Fill Value
     missing_value = attributes.get('_FillValue', None)
@@ -296,7 +296,9 @@ class MODIS_L2(AProduct):
         return UngriddedCoordinates(self._create_coord_list(filenames))
 
     def create_data_object(self, filenames, variable):
+        from copy import copy
         from itertools import product
+        from cis.data_io.hdf_sd import HDF_SDS
 
         logging.debug("Creating data object for variable " + variable)
 
@@ -325,10 +327,10 @@ class MODIS_L2(AProduct):
             # Iterate over all but the last two dimensions
             ranges = [range(n) for n in dim_len[:-2]]
             for indices in product(*ranges):
-                for manager in var:
-                    manager._start = list(indices) + [0, 0]
-                    manager._count = [1] * len(indices) + manager.info()[2][-2:]
-                result.append(UngriddedData(var, metadata, coords.copy(), _get_MODIS_SDS_data))
+                # Each slice is only read later on, so needs its own managers
+                slices = [HDF_SDS(manager._filename, manager._variable, start=list(indices) + [0, 0],
+                                  count=[1] * len(indices) + manager.info()[2][-2:]) for manager in var]
+                result.append(UngriddedData(slices, copy(metadata), coords.copy(), _get_MODIS_SDS_data))
             return result
 
     def get_file_format(self, filenames):
-- 
2.43.0


From fcb8d81b668b76f8dc91d2f0060f10840ad9e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 060/113] fix: CloudSat small integers wrapped around when an
 integer offset was subtracted

---
 cis/data_io/products/cloudsat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/products/cloudsat.py b/cis/data_io/products/cloudsat.py
index 4727a5c..5e56ad1 100644
--- a/cis/data_io/products/cloudsat.py
+++ b/cis/data_io/products/cloudsat.py
@@ -285,7 +285,8 @@ class CloudSat(AProduct):
         """
         logging.debug("Applying 'science_data = (packed_data - {offset}) / {scale}' "
                       "transformation to data.".format(scale=scale_factor, offset=offset))
-        return (data - offset) / scale_factor
+        # (as floating point numbers, since small integers less an integer offset wrap around)
+        return (data - float(offset)) / scale_factor
 
     def get_file_format(self, filename):
         return "HDF4/CloudSat"
-- 
2.43.0


From fcee7f8e0f5fc4ea7c0e3f22924b90221f514333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 061/113] fix: GASSP times in plain units could not be read as
 the time stamp of the file was not used

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 54b3687..7709da3 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -81,7 +81,7 @@ class Coord(LazyData):
             convert_time_using_time_stamp_info_to_std_time, convert_datetime_to_std_time
         from cf_units import Unit
 
-        if isinstance(self.units, Unit):
+        if isinstance(self.units, Unit) and self.units.is_time_reference():
             self._data = convert_time_since_to_std_time(self.data, self.units)
         elif str(self.units).lower().startswith('datetime'):
             self._data = convert_datetime_to_std_time(self.data)
-- 
2.43.0


From 2216829daec54a4db9f177fa2fd71010ed56a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 062/113] fix: GASSP bins could not be found in files with a
 variable without dimensions

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index 3d9c5b0..a9961c9 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -271,7 +271,7 @@ class NCAR_NetCDF_RAF_variable_name_selector(object):
             #  the auxiliary dimension.
             else:
                 for v, dims in self._variable_dimensions[0].items():
-                    if dims[0] == aux_coords[0]:
+                    if dims == (aux_coords[0],):
                         aux_coord_name = v
                         break
         return aux_coord_name
-- 
2.43.0


From 55e87d68c97ddabe6d5d82584c0d01c8e2ef1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 063/113] fix: AERONET files could not be read with the
 installed pandas

---
 cis/data_io/aeronet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/aeronet.py b/cis/data_io/aeronet.py
index 6fccd5c..1ecee90 100644
--- a/cis/data_io/aeronet.py
+++ b/cis/data_io/aeronet.py
@@ -172,8 +172,7 @@ def load_aeronet(filename, variables=None):
     try:
         rawd = read_csv(filename, sep=",", header=AERONET_HEADER_LENGTH[version]-1, names=ordered_vars,
                         index_col=False, usecols=cols, na_values=AERONET_MISSING_VALUE[version], dtype=dtypes,
-                        parse_dates={"datetime":["date", "time"]}, infer_datetime_format=True, dayfirst=True,
-                        error_bad_lines=False, warn_bad_lines=True, #low_memory="All_Sites_Times_All_Points" in filename
+                        on_bad_lines='warn', #low_memory="All_Sites_Times_All_Points" in filename
         )
     except ValueError:
         raise InvalidVariableError("{} not available in {}".format(variables, filename))
@@ -184,7 +183,8 @@ def load_aeronet(filename, variables=None):
 
     # Convert pandas Timestamps into CIS standard numbers
     rawd["datetime"] = [cis_standard_time_unit.date2num(timestamp.to_pydatetime())
-                        for timestamp in to_datetime(rawd["datetime"], format='%d:%m:%Y %H:%M:%S')]
+                        for timestamp in to_datetime(rawd.pop("date") + " " + rawd.pop("time"),
+                                                     format='%d:%m:%Y %H:%M:%S')]
 
     # Add position metadata that isn't listed in every line for some formats
     if version.startswith("MAN"):
-- 
2.43.0


From eb086fa7d6c5cb870f6dc36fab20e88ccecf4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 064/113] fix: text files with a single point could not be read

---
 cis/data_io/products/products.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 0f7ad5f..65eef1c 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -152,6 +152,7 @@ class ASCII_Hyperpoints(AProduct):
     def create_coords(self, filenames, variable=None):
         from cis.data_io.ungridded_data import Metadata
         from numpy import genfromtxt, NaN
+        from numpy.ma import atleast_1d
         from cis.exceptions import InvalidVariableError
         from cis.time_util import convert_datetime_to_std_time
         import dateutil.parser as du
@@ -160,10 +161,11 @@ class ASCII_Hyperpoints(AProduct):
 
         for filename in filenames:
             try:
-                array_list.append(genfromtxt(filename, dtype="f8,f8,f8,O,f8",
+                # (a single line would otherwise not be an array of samples)
+                array_list.append(atleast_1d(genfromtxt(filename, dtype="f8,f8,f8,O,f8",
                                              names=['latitude', 'longitude', 'altitude', 'time', 'value'],
                                              delimiter=',', missing_values='', usemask=True, invalid_raise=True,
-                                             converters={"time": du.parse}))
+                                             converters={"time": du.parse})))
             except:
                 raise IOError('Unable to read file ' + filename)
 
-- 
2.43.0


From 5a8e33c5f4efb455b3af1d2cd452bd3708ba83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 065/113] fix: coordinates without a standard name were the
 same as each other

---
 cis/data_io/Coord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 7709da3..6609b24 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -55,7 +55,8 @@ class Coord(LazyData):
         return self.data
 
     def __eq__(self, other):
-        return other.metadata.standard_name == self.metadata.standard_name and self.metadata.standard_name != ''
+        name = self.metadata.standard_name
+        return other is self or (other.metadata.standard_name == name and name not in (None, ''))
 
     def convert_julian_to_std_time(self):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
-- 
2.43.0


From 7f9ed2921ce5d641165c93bfb00fc15097c90c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 066/113] fix: errors without a message in a product were
 replaced by an IndexError

---
 cis/data_io/products/AProduct.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index a061f30..73a9885 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -203,7 +203,7 @@ def get_data(filenames, variable, product=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving data using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e), e)
 
 
 def get_coordinates(filenames, product=None):
@@ -225,7 +225,7 @@ def get_coordinates(filenames, product=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving coordinates using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e), e)
 
 
 def get_variables(filenames, product=None, data_type=None):
@@ -247,7 +247,7 @@ def get_variables(filenames, product=None, data_type=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving variables using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e), e)
 
 
 def get_file_format(filenames, product=None):
@@ -269,12 +269,12 @@ def get_file_format(filenames, product=None):
         raise ProductPluginException(
             "An error occurred retrieving the file format using the product %s. Check that this "
             "is the correct product plugin for your chosen data. Exception was %s: %s."
-            % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+            % (product_cls.__name__, type(e).__name__, e), e)
 
     try:
         product_cls().create_coords(filenames)
     except Exception as ex:
-        raise FileFormatError(error_list=['Could not read coordinates from the file', ex.args[0]])
+        raise FileFormatError(error_list=['Could not read coordinates from the file', str(ex)])
     return file_format
 
 
-- 
2.43.0


From 7ff2ff8679d5dcda95d26a1f96e8900b1613130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 067/113] fix: coordinates of gridded data could not be plotted
 against another

---
 cis/plotting/genericplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index b1aaece..6d1b25b 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -91,7 +91,8 @@ class GenericPlot(APlot):
         else:
             self.x = self.xaxis.points
 
-        self.data = packed_data.data
+        # (this can be a coordinate, when it is one which is asked for on the y axis)
+        self.data = packed_data.data if hasattr(packed_data, 'data') else packed_data.points
 
         self.mplkwargs['label'] = self.label or packed_data.name()
         self.xlabel, self.ylabel = get_label(self.xaxis), get_label(packed_data)
-- 
2.43.0


From 205675a68a6c161a3c69eace57affdf89035ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 068/113] fix: maps could not be plotted without an internet
 connection

---
 cis/plotting/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 36aac20..c475c1d 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -157,10 +157,10 @@ def _test_natural_earth_available():
     :return: Can we access natural earth?
     """
     from cartopy.io.shapereader import natural_earth
-    from six.moves.urllib.error import HTTPError
+    from six.moves.urllib.error import URLError
     try:
         natural_earth_available = natural_earth()
-    except HTTPError:
+    except URLError:
         natural_earth_available = False
     return natural_earth_available
 
-- 
2.43.0


From 230c6e7fcc13689f6fd6a95b00a7da14ecb0e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 069/113] fix: gridded data were plotted with their dimensions
 swapped, or not at all, depending on their shape

---
 cis/plotting/genericplot.py | 67 +++++++++++++------------------------
 1 file changed, 23 insertions(+), 44 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 6d1b25b..92ea1ba 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -197,7 +197,8 @@ class Generic2DPlot(APlot):
             x = self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds()
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
             # We need to do some more unpacking, and possibly meshgridding for gridded data
-            data, x, y = self._cube_manipulation(data_object, x, y)
+            data, x, y = self._cube_manipulation(data_object, x, y, data_object.coord_dims(self.xaxis),
+                                                 data_object.coord_dims(self.yaxis))
         else:
             x = self.xaxis.points
             y = self.yaxis.points
@@ -211,62 +212,40 @@ class Generic2DPlot(APlot):
         return data, x, y
 
     @staticmethod
-    def _cube_manipulation(cube, x, y):
+    def _cube_manipulation(cube, x, y, x_dims=(1,), y_dims=(0,)):
         """
         Optionally transpose the data and make a mesh-grid, taking into account auxilliary coordinates
-        A lot of this logic closely follows that used in iris.qplt.
 
         :param Cube cube: An iris Cube
         :param NDarray x: a numpy array of x points
         :param NDarray y: a numpy array of y points
+        :param tuple x_dims: The dimensions of the cube which x is along
+        :param tuple y_dims: The dimensions of the cube which y is along
         :return: data, x, and y and as numpy arrays
         """
-        import iris.plot as iplt
-        import iris
         from cartopy.util import add_cyclic_point
         import numpy as np
 
         no_of_dims = len(cube.shape)
         data = cube.data
 
-        plot_defn = iplt._get_plot_defn(cube, iris.coords.POINT_MODE, ndims=no_of_dims)
-        if plot_defn.transpose:
-            data = data.T
-            x = x.T
-            y = y.T
-
-        # Check for auxiliary coordinates.
-        aux_coords = False
-        for coord in cube[0].coords(dim_coords=False):
-            aux_coords = True
         if no_of_dims == 2:
-            # If we have found some auxiliary coordinates in the data and the shape of x data or y data is the same as
-            # data assume we have a hybrid coordinate (which is two dimensional b nature. Perhaps need a more robust
-            # method for detecting this.
-            if aux_coords and (data.shape == x.shape or data.shape == y.shape):
-                # Work out which set of data needs expanding to match the coordinates of the others. Note there can only
-                # ever be one hybrid coordinate axis.
-                if y.shape == data.shape:
-                    if y[:, 0].shape == x.shape:
-                        x, _y = np.meshgrid(x, y[0, :])
-                    elif y[0, :].shape == x.shape:
-                        x, _y = np.meshgrid(x, y[:, 0])
-                elif x.shape == data.shape:
-                    if x[:, 0].shape == y.shape:
-                        y, _x = np.meshgrid(y, x[0, :])
-                    elif x[0, :].shape == y.shape:
-                        y, _x = np.meshgrid(y, x[:, 0])
-            else:
-                if len(x) == data.shape[-1]:
-                    try:
-                        data, x = add_cyclic_point(data, x)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
-                    x, y = np.meshgrid(x, y)
-                elif len(y) == data.shape[-1]:
-                    try:
-                        data, y = add_cyclic_point(data, y)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for y-axis. Error was: ' + e.args[0])
-                    y, x = np.meshgrid(y, x)
+            # Put the dimension of the x axis last
+            if tuple(x_dims) == (0,) or tuple(y_dims) == (1,):
+                data = data.T
+                x = x.T
+                y = y.T
+
+            if y.shape == data.shape and x.ndim == 1:
+                # We have a (two dimensional) hybrid coordinate on the y axis, so expand the other one to match
+                x, _y = np.meshgrid(x, y[:, 0])
+            elif x.shape == data.shape and y.ndim == 1:
+                _x, y = np.meshgrid(x[0, :], y)
+            elif x.ndim == 1 and len(x) == data.shape[1]:
+                # This does nothing for bounds, as there is one more of them than there are data points
+                try:
+                    data, x = add_cyclic_point(data, x)
+                except ValueError as e:
+                    logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
+                x, y = np.meshgrid(x, y)
         return data, x, y
-- 
2.43.0


From 0bbfd66667e1b75e4aea0efaa45da991c988a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 070/113] fix: plots of gridded data repeated the first values
 beyond the end of axes which are not global longitudes

---
 cis/plotting/genericplot.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 92ea1ba..9e46f2e 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -198,7 +198,7 @@ class Generic2DPlot(APlot):
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
             # We need to do some more unpacking, and possibly meshgridding for gridded data
             data, x, y = self._cube_manipulation(data_object, x, y, data_object.coord_dims(self.xaxis),
-                                                 data_object.coord_dims(self.yaxis))
+                                                 data_object.coord_dims(self.yaxis), self._is_global(self.xaxis))
         else:
             x = self.xaxis.points
             y = self.yaxis.points
@@ -212,7 +212,18 @@ class Generic2DPlot(APlot):
         return data, x, y
 
     @staticmethod
-    def _cube_manipulation(cube, x, y, x_dims=(1,), y_dims=(0,)):
+    def _is_global(coord):
+        """
+        :param iris.coords.Coord coord: A coordinate
+        :return: A boolean saying if these are longitudes all around the globe
+        """
+        import numpy as np
+        x = coord.points
+        return coord.standard_name == 'longitude' and x.ndim == 1 and \
+            bool(np.isclose(abs(x[-1] - x[0]) * len(x), 360.0 * (len(x) - 1)))
+
+    @staticmethod
+    def _cube_manipulation(cube, x, y, x_dims=(1,), y_dims=(0,), cyclic=False):
         """
         Optionally transpose the data and make a mesh-grid, taking into account auxilliary coordinates
 
@@ -221,6 +232,7 @@ class Generic2DPlot(APlot):
         :param NDarray y: a numpy array of y points
         :param tuple x_dims: The dimensions of the cube which x is along
         :param tuple y_dims: The dimensions of the cube which y is along
+        :param bool cyclic: Repeat the first x points at the end, to join them
         :return: data, x, and y and as numpy arrays
         """
         from cartopy.util import add_cyclic_point
@@ -242,10 +254,11 @@ class Generic2DPlot(APlot):
             elif x.shape == data.shape and y.ndim == 1:
                 _x, y = np.meshgrid(x[0, :], y)
             elif x.ndim == 1 and len(x) == data.shape[1]:
-                # This does nothing for bounds, as there is one more of them than there are data points
-                try:
-                    data, x = add_cyclic_point(data, x)
-                except ValueError as e:
-                    logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
+                # (for bounds there is nothing to do, as there is one more of them than there are data points)
+                if cyclic:
+                    try:
+                        data, x = add_cyclic_point(data, x)
+                    except ValueError as e:
+                        logging.warning('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
                 x, y = np.meshgrid(x, y)
         return data, x, y
-- 
2.43.0


From 4ec02206a069f360ed6cb2c7552f4235d26ab1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 071/113] fix: GASSP bins whose dimensions are given as a list
 could not be found

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index a9961c9..19ea934 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -271,7 +271,7 @@ class NCAR_NetCDF_RAF_variable_name_selector(object):
             #  the auxiliary dimension.
             else:
                 for v, dims in self._variable_dimensions[0].items():
-                    if dims == (aux_coords[0],):
+                    if list(dims) == [aux_coords[0]]:
                         aux_coord_name = v
                         break
         return aux_coord_name
-- 
2.43.0


From 01b88d9acca2ff6825b82af2c22ec063d8cb1532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 072/113] fix: times on axes of two-dimensional plots were
 wrong, and y axes upside down for pressures not on them

---
 cis/plotting/genericplot.py | 23 ++++++++++++++++-------
 cis/plotting/plot.py        | 35 +++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 9e46f2e..7781569 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -9,6 +9,17 @@ from cis.plotting.formatted_plot import set_log_scales
 from iris.coords import POINT_MODE
 
 
+def to_plot_units(item, values):
+    """
+    :param Coord or CommonData item: A data item which is plotted on one of the axes
+    :param ndarray values: Points or bounds of the item
+    :return: The values to be plotted, for times those are matplotlib's datetimes
+    """
+    if item.standard_name == 'time':
+        return item.units.convert(values, 'days since 1970-01-01 00:00:00')
+    return values
+
+
 @six.add_metaclass(ABCMeta)
 class APlot(object):
 
@@ -85,14 +96,11 @@ class GenericPlot(APlot):
 
         logging.debug("Unpacking the data items")
 
-        if self.xaxis.standard_name == 'time':
-            # Convert to matplotlib datetime
-            self.x = self.xaxis.units.convert(self.xaxis.points, 'days since 1970-01-01 00:00:00')
-        else:
-            self.x = self.xaxis.points
+        self.x = to_plot_units(self.xaxis, self.xaxis.points)
 
         # (this can be a coordinate, when it is one which is asked for on the y axis)
         self.data = packed_data.data if hasattr(packed_data, 'data') else packed_data.points
+        self.data = to_plot_units(packed_data, self.data)
 
         self.mplkwargs['label'] = self.label or packed_data.name()
         self.xlabel, self.ylabel = get_label(self.xaxis), get_label(packed_data)
@@ -196,12 +204,13 @@ class Generic2DPlot(APlot):
         if isinstance(data_object, Cube):
             x = self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds()
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
+            x, y = to_plot_units(self.xaxis, x), to_plot_units(self.yaxis, y)
             # We need to do some more unpacking, and possibly meshgridding for gridded data
             data, x, y = self._cube_manipulation(data_object, x, y, data_object.coord_dims(self.xaxis),
                                                  data_object.coord_dims(self.yaxis), self._is_global(self.xaxis))
         else:
-            x = self.xaxis.points
-            y = self.yaxis.points
+            x = to_plot_units(self.xaxis, self.xaxis.points)
+            y = to_plot_units(self.yaxis, self.yaxis.points)
             data = data_object.data
 
         logging.debug("Shape of x: " + str(x.shape))
diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index c475c1d..5ef6409 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -118,14 +118,30 @@ def set_x_axis_as_time(ax):
     """
     Nicely format a time axis
     """
+    _set_axis_as_time(ax.xaxis, ax.get_xlim)
+    # Then just let matplotlib format it nicely...
+    ax.get_figure().autofmt_xdate()
+
+
+def set_y_axis_as_time(ax):
+    """
+    Nicely format a time axis
+    """
+    _set_axis_as_time(ax.yaxis, ax.get_ylim)
+
+
+def _set_axis_as_time(axis, get_limits):
+    """
+    Show the values on an axis as dates and times
+    """
     from matplotlib import ticker
     from matplotlib.dates import num2date
 
     def format_datetime(x, pos=None):
         # use iosformat rather than strftime as strftime can't handle dates before 1900 - the output is the same
         date_time = num2date(x)
-        day_min, day_max = ax.get_xlim()
-        day_range = day_max - day_min
+        day_min, day_max = get_limits()
+        day_range = abs(day_max - day_min)
         if day_range < 1 and date_time.second == 0:
             return "%02d" % date_time.hour + ':' + "%02d" % date_time.minute
         elif day_range < 1:
@@ -136,9 +152,7 @@ def set_x_axis_as_time(ax):
             return date_time.isoformat(' ')
 
     # Setup conversion of our standard time
-    ax.xaxis.set_major_formatter(ticker.FuncFormatter(format_datetime))
-    # Then just let matplotlib format it nicely...
-    ax.get_figure().autofmt_xdate()
+    axis.set_major_formatter(ticker.FuncFormatter(format_datetime))
 
 
 def _get_extent(ax):
@@ -393,7 +407,16 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
     if xaxis_coord.standard_name == 'time' and how not in ['comparativescatter', 'histogram2d', 'histogram']:
         set_x_axis_as_time(ax)
 
-    if yaxis_coord.standard_name == 'air_pressure':
+    # (the y axis might not be a coordinate, but the data or a number of points)
+    if 'yaxis' in kwargs and (issubclass(plt_type, GenericPlot) or how in ['comparativescatter', 'histogram2d']):
+        yaxis_name = None
+    else:
+        yaxis_name = yaxis_coord.standard_name
+
+    if yaxis_name == 'time':
+        set_y_axis_as_time(ax)
+
+    if yaxis_name == 'air_pressure' and not ax.yaxis_inverted():
         ax.invert_yaxis()
 
     return plot, ax
-- 
2.43.0


From f80c3257273a964e3cc2f25d76f337afadaae8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 073/113] fix: the axes not asked for in plots were the same as
 those which were, or could not be found

---
 cis/plotting/plot.py | 48 ++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 5ef6409..67a26e1 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -86,34 +86,49 @@ def _try_coord(data, coord_dict):
     return coord
 
 
-def get_axis(d, axis, name=None):
+def get_axis(d, axis, name=None, other=None):
     """
     Guess the best Coord to use for the axis
     :param CommonData d:
     :param string axis:
     :param string name:
+    :param Coord other: The Coord on the other axis, if that has been found already, which isn't guessed again
     :return Coord: A single Coord
     """
-    coord = _try_coord(d, dict(name_or_coord=name)) or _try_coord(d, dict(standard_name=name)) \
-            or _try_coord(d, dict(axis=axis))
+    coord = None
+    if name is not None:
+        coord = _try_coord(d, dict(name_or_coord=name)) or _try_coord(d, dict(standard_name=name))
 
-    # This is primarily for gridded data, but for Ungridded Data should just pick out the first Coord in the list.
     if coord is None:
-        for c in d.coords():
-            if axis == 'X' or len(d.shape) == 1:
-                if c.shape[0] == d.shape[0]:
-                    coord = c
-                    break
-            elif axis == 'Y' and len(d.shape) > 1:
-                if c.shape[1] == d.shape[1]:
-                    coord = c
-                    break
+        coord = _try_coord(d, dict(axis=axis))
+        if coord is None or coord is other:
+            coord = _guess_coord(d, axis, other) or coord
 
     logging.info("Plotting " + coord.name() + " on the {} axis".format(axis))
 
     return coord
 
 
+def _guess_coord(d, axis, other=None):
+    """
+    Pick the first Coord which could be on an axis, along another dimension than the one on the other axis if possible
+    :param CommonData d:
+    :param string axis:
+    :param Coord other: The Coord on the other axis
+    :return: A single Coord or None if there isn't any
+    """
+    from cis.data_io.gridded_data import GriddedData
+    if other is None:
+        # Leave the natural one for the other axis
+        other = _try_coord(d, dict(axis='Y' if axis.upper() == 'X' else 'X'))
+    coords = [c for c in d.coords() if len(c.points) > 1]
+    others = [c for c in coords if c is not other]
+    if isinstance(d, GriddedData):
+        dims = d.coord_dims(other) if other is not None and other in coords else ()
+        others = [c for c in others if d.coord_dims(c) != dims and c.shape == (len(c.points),)] + others
+    return (others or coords or [None])[0]
+
+
 def set_x_axis_as_time(ax):
     """
     Nicely format a time axis
@@ -361,10 +376,13 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
         else:
             how = 'comparativescatter'
         xaxis_coord = xaxis
+        yaxis_coord = get_axis(data, 'Y', yaxis)
+    elif xaxis is None and yaxis is not None:
+        yaxis_coord = get_axis(data, 'Y', yaxis)
+        xaxis_coord = get_axis(data, 'X', other=yaxis_coord)
     else:
         xaxis_coord = get_axis(data, 'X', xaxis)
-
-    yaxis_coord = get_axis(data, 'Y', yaxis)
+        yaxis_coord = get_axis(data, 'Y', yaxis, other=xaxis_coord)
 
     how = how or data._get_default_plot_type(xaxis_coord.standard_name == 'longitude'
                                              and yaxis_coord.standard_name == 'latitude')
-- 
2.43.0


From d6f1a3789725f22022142f032db120457adc4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 074/113] fix: the edge colour of points of scatter plots could
 not be given, and points not be compared with a coordinate

---
 cis/plotting/comparativescatter.py | 6 ++++--
 cis/plotting/scatterplot.py        | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cis/plotting/comparativescatter.py b/cis/plotting/comparativescatter.py
index 0de8de5..7bc1df8 100644
--- a/cis/plotting/comparativescatter.py
+++ b/cis/plotting/comparativescatter.py
@@ -2,6 +2,7 @@
 A scatter plot with one dataset plotted against another (as opposed to plotting data against a coordinate)
 """
 import logging
+from cis.data_io.common_data import CommonData
 from cis.plotting.genericplot import APlot
 
 
@@ -14,7 +15,8 @@ class ComparativeScatter(APlot):
         super(ComparativeScatter, self).__init__(packed_data, *mplargs, **mplkwargs)
 
         logging.debug("Unpacking the data items")
-        self.x, self.y = getattr(self.xaxis, 'points', None) or self.xaxis.data, packed_data.data
+        # (lists of points can also be seen as those of UngriddedData, but aren't what there is to compare)
+        self.x, self.y = self.xaxis.data if isinstance(self.xaxis, CommonData) else self.xaxis.points, packed_data.data
 
         self.label = packed_data.long_name if self.label is None else self.label
 
@@ -29,7 +31,7 @@ class ComparativeScatter(APlot):
             self.mplkwargs["marker"] = self.itemstyle
 
         if self.edgecolor is not None:
-            self.mplkwargs["edgecolors"] = self.edgecolor
+            self.mplkwargs["markeredgecolor"] = self.edgecolor
 
         if self.color is not None:
             self.mplkwargs["c"] = self.color
diff --git a/cis/plotting/scatterplot.py b/cis/plotting/scatterplot.py
index 901167a..c58790a 100644
--- a/cis/plotting/scatterplot.py
+++ b/cis/plotting/scatterplot.py
@@ -18,7 +18,7 @@ class ScatterPlot(GenericPlot):
             self.mplkwargs["marker"] = self.itemstyle
 
         if self.edgecolor is not None:
-            self.mplkwargs["edgecolors"] = self.edgecolor
+            self.mplkwargs["markeredgecolor"] = self.edgecolor
 
         if self.color is not None:
             self.mplkwargs["c"] = self.color
-- 
2.43.0


From 1c795d0a61cb72fa359a0a7a9327103afb16dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 075/113] fix: y axes of histograms were upside down for
 pressures

---
 cis/plotting/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 67a26e1..7c8f264 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -426,7 +426,8 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
         set_x_axis_as_time(ax)
 
     # (the y axis might not be a coordinate, but the data or a number of points)
-    if 'yaxis' in kwargs and (issubclass(plt_type, GenericPlot) or how in ['comparativescatter', 'histogram2d']):
+    if how in ['comparativescatter', 'histogram2d', 'histogram'] or \
+            (issubclass(plt_type, GenericPlot) and 'yaxis' in kwargs):
         yaxis_name = None
     else:
         yaxis_name = yaxis_coord.standard_name
-- 
2.43.0


From 7cf31138dde8dc43c398575b4653005ffa413011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 076/113] fix: limits of logarithmic colours could not be
 given, and colours of two-dimensional histograms not be logarithmic

---
 cis/plotting/genericplot.py | 3 ++-
 cis/plotting/histogram2d.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 7781569..4106294 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -163,7 +163,8 @@ class Generic2DPlot(APlot):
 
         if self.logv:
             from matplotlib.colors import LogNorm
-            self.mplkwargs["norm"] = LogNorm()
+            # (matplotlib doesn't take limits besides a scale)
+            self.mplkwargs["norm"] = LogNorm(self.mplkwargs.pop('vmin', None), self.mplkwargs.pop('vmax', None))
 
     def __call__(self, ax):
         from .plot import add_color_bar
diff --git a/cis/plotting/histogram2d.py b/cis/plotting/histogram2d.py
index a394d24..e0bc61a 100644
--- a/cis/plotting/histogram2d.py
+++ b/cis/plotting/histogram2d.py
@@ -27,6 +27,9 @@ class Histogram2D(ComparativeScatter):
         super(Histogram2D, self).__init__(packed_data, *args, **kwargs)
 
         self.logv = logv
+        if self.logv:
+            from matplotlib.colors import LogNorm
+            self.mplkwargs["norm"] = LogNorm(self.mplkwargs.pop('vmin', None), self.mplkwargs.pop('vmax', None))
         self.xbins = xbins
         self.ybins = ybins
         self.vstep = vstep
-- 
2.43.0


From b656c2720ee5fae4769fd7519841c28b2f0e130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 077/113] fix: the step between contours was ignored

---
 cis/plotting/contourplot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cis/plotting/contourplot.py b/cis/plotting/contourplot.py
index d4348df..8eb730c 100644
--- a/cis/plotting/contourplot.py
+++ b/cis/plotting/contourplot.py
@@ -1,6 +1,7 @@
 """
 A contour plot, filled or not.
 """
+import numpy as np
 from .genericplot import Generic2DPlot
 
 
@@ -19,13 +20,15 @@ class ContourPlot(Generic2DPlot):
         :param dict cont_label_kwargs: A dictionary of contour label keywork args (e.g. format)
         :param kwargs: Other keyword args to pass to plot
         """
-        super(ContourPlot, self).__init__(packed_data, *args, **kwargs)
+        super(ContourPlot, self).__init__(packed_data, vstep=vstep, *args, **kwargs)
         self.filled = False
         if contlevels:
             self.levels = contlevels
-        elif self.vstep:
-            self.levels = (kwargs.get('vmax', self.data.max()) -
-                           kwargs.get('vmin', self.data.min())) / vstep
+        elif self.vstep and not self.logv:
+            # All the multiples of the step from that below the lowest to that above the highest value
+            first = np.floor(kwargs.get('vmin', self.data.min()) / vstep)
+            last = np.ceil(kwargs.get('vmax', self.data.max()) / vstep)
+            self.levels = np.arange(first, max(last, first + 1) + 1) * vstep
         else:
             self.levels = contnlevels
 
-- 
2.43.0


From fc83a5e2549c62958898a5bca31b2102669023cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 078/113] fix: Taylor diagrams of multi-dimensional data were
 wrong, and those of logarithms included missing values

---
 cis/plotting/taylor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/plotting/taylor.py b/cis/plotting/taylor.py
index d95a1f9..ba4c33b 100644
--- a/cis/plotting/taylor.py
+++ b/cis/plotting/taylor.py
@@ -103,11 +103,13 @@ class Taylor(APlot):
         elif self.bias is not None and self.bias != 'flag':
             raise ValueError('Invalid bias argument specified, should be either colo[u]r, size or flag')
 
+        # The points of multi-dimensional data correspond to each other one by one
+        arrays = [d.data.flatten() for d in packed_data]
         if logv:
-            packed_data = [np.ma.log(d.data) for d in packed_data]
+            arrays = [np.ma.log(a) for a in arrays]
 
-        means = np.ma.array([np.ma.mean(d.data) for d in packed_data])
-        sigmas = np.ma.array([np.ma.std(d.data, ddof=1) for d in packed_data])
+        means = np.ma.array([np.ma.mean(a) for a in arrays])
+        sigmas = np.ma.array([np.ma.std(a, ddof=1) for a in arrays])
 
         logging.info("Means: {}".format(means))
         # Treat the first array as the reference
@@ -118,7 +120,7 @@ class Taylor(APlot):
         self.gammas = sigmas / ref_sigma
 
         # Calculate the correlations against the first array
-        self.corrs = np.ma.array([np.ma.corrcoef(d.data, packed_data[0].data)[0, 1] for d in packed_data])
+        self.corrs = np.ma.array([np.ma.corrcoef(a, arrays[0])[0, 1] for a in arrays])
         self.corrs = np.ma.minimum(np.ma.maximum(self.corrs, -1.), 1.)
 
         if markers is None:
-- 
2.43.0


From 0e3db98fe6909ead306edc5c56ac058362b754d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 079/113] fix: Taylor diagrams could not show the bias as the
 size of the points

---
 cis/plotting/taylor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/plotting/taylor.py b/cis/plotting/taylor.py
index ba4c33b..259daa6 100644
--- a/cis/plotting/taylor.py
+++ b/cis/plotting/taylor.py
@@ -206,7 +206,7 @@ class Taylor(APlot):
                                                               (cycle(self.colors) if self.colors
                                                                else repeat(None))):
             if self.bias == 'size':
-                marker = self.markers[((stdbias > 0.) - (stdbias < 0.)) + 1]
+                marker = self.markers[int(stdbias > 0.) - int(stdbias < 0.) + 1]
                 size = min(max((abs(stdbias) - self.minstdbias) / self.stdbiasrange, 0.), 1.)
                 size = self.itemwidth * (0.25 + 1.75 * size)
 
-- 
2.43.0


From e160deab962eaa2d7665462fe3fee43e7d489d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 080/113] fix: the font size asked for was not used in the plot

---
 cis/plotting/formatted_plot.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index a0f9871..683e939 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -19,18 +19,13 @@ def set_log_scales(ax, logx, logy, rescale=True):
         ax.autoscale()
 
 
-def format_plot(ax, grid, fontsize, xlabel, ylabel, title):
+def format_plot(ax, grid, xlabel, ylabel, title):
     """
     General high-level level formatting
     """
-    import matplotlib
-
     if grid:
         ax.grid(True, which="both")
 
-    if fontsize is not None:
-        matplotlib.rcParams.update({'font.size': fontsize})
-
     if xlabel is not None:
         ax.set_xlabel(xlabel)
 
@@ -165,8 +160,13 @@ class Plotter(object):
         :param args: Any other arguments received from the parser
         :param kwargs: Any other keyword arguments received from the parser
         """
+        import matplotlib
         from cis.plotting.plot import multilayer_plot, basic_plot, drawbluemarble
 
+        if fontsize is not None:
+            # (it is used for the text when that is created)
+            matplotlib.rcParams.update({'font.size': fontsize})
+
         # Figure out teh best coneral longitude for the projection (it doesn't matter if it's a map yet)
         x_start = get_x_wrap_start(data, xmin)
         if x_start is not None and 'central_longitude' not in kwargs:
@@ -191,7 +191,7 @@ class Plotter(object):
 
         plot.set_log_scales(self.ax, logx, logy)
 
-        format_plot(self.ax, grid, fontsize, xlabel, ylabel, title)
+        format_plot(self.ax, grid, xlabel, ylabel, title)
 
         if plot.is_map():
             if plot.is_rectangular_projection(self.ax):
-- 
2.43.0


From 31626ec34884f2cb01893b5a72e3e33cbbe4ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 081/113] fix: steps of ticks moved the upper limit, could not
 be times, and limits turned pressure axes around

---
 cis/plotting/formatted_plot.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 683e939..b6b8ccd 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -84,22 +84,34 @@ def apply_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None
     """
     Applies the specified limits to the given axis
     """
-    import numpy as np
-
     ax.set_xlim(xmin=xmin, xmax=xmax)
-    ax.set_ylim(ymin=ymin, ymax=ymax)
+    if ax.yaxis_inverted() and (ymin is None or ymax is None or ymin < ymax):
+        # Stay upside down
+        ax.set_ylim(ymin=ymax, ymax=ymin)
+    else:
+        ax.set_ylim(ymin=ymin, ymax=ymax)
 
     if xstep is not None:
-        min_val, max_val = ax.get_xlim()
-        ticks = np.arange(min_val, max_val + xstep, xstep)
-
-        ax.set_xticks(ticks)
+        ax.set_xticks(get_ticks(ax.get_xlim(), xstep))
 
     if ystep is not None:
-        min_val, max_val = ax.get_ylim()
-        ticks = np.arange(min_val, max_val + ystep, ystep)
+        ax.set_yticks(get_ticks(ax.get_ylim(), ystep))
 
-        ax.set_yticks(ticks)
+
+def get_ticks(limits, step):
+    """
+    :param tuple limits: The limits of an axis, in any order
+    :param float or timedelta step: The step between ticks
+    :return ndarray: The ticks from the lower limit on, which are within the limits
+    """
+    from datetime import timedelta
+    import numpy as np
+    if isinstance(step, timedelta):
+        # Time axes are in days
+        step = step.total_seconds() / 86400.0
+    min_val, max_val = sorted(limits)
+    # (there might be one just beyond the upper limit, which would move the limit there)
+    return np.minimum(np.arange(min_val, max_val + step * 1e-6, step), max_val)
 
 
 def get_x_wrap_start(data_list, user_xmin=None):
-- 
2.43.0


From 35b92d7ab780a39527060c5c40b4ab5959744a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 082/113] fix: the type of a plot could not be given for a
 single layer, and was used for all the following layers

---
 cis/plotting/formatted_plot.py | 1 +
 cis/plotting/plot.py           | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index b6b8ccd..ae61a6a 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -195,6 +195,7 @@ class Plotter(object):
         else:
             if 'layer_opts' in kwargs:
                 kwargs.update(kwargs.pop('layer_opts')[0])
+            type = kwargs.pop('type', type)
             plot, self.ax = basic_plot(data, how=type, *args, **kwargs)
 
         self.fig = self.ax.get_figure()
diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 7c8f264..43b8bec 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -473,9 +473,9 @@ def multilayer_plot(data_list, how=None, ax=None, yaxis=None, layer_opts=None, *
 
         for d, y, opts in zip(data_list, yaxis, layer_opts):
             layer_kwargs = dict(list(kwargs.items()) + list(opts.items()))
-            how = layer_kwargs.pop('type', how)
+            layer_how = layer_kwargs.pop('type', how)
             label = layer_kwargs.pop('label', get_label(d, units=False))
-            plot, ax = basic_plot(d, how, ax, yaxis=y, label=label, *args, **layer_kwargs)
+            plot, ax = basic_plot(d, layer_how, ax, yaxis=y, label=label, *args, **layer_kwargs)
 
         legend = ax.legend(loc="best")
         if legend is not None:
-- 
2.43.0


From 469f1dc580b1b33474a6455cbf4d7e767c3e1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 083/113] fix: ungridded data without longitudes could not be
 plotted from the command line

---
 cis/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/utils.py b/cis/utils.py
index 1481038..3a344c4 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -237,10 +237,11 @@ def find_longitude_wrap_start(packed_data_item):
     :param packed_data_item:
     :return:
     """
-    from iris.exceptions import CoordinateNotFoundError
+    import cis.exceptions as cis_ex
+    import iris.exceptions as iris_ex
     try:
         x_points_min = packed_data_item.coord(standard_name='longitude').points.min()
-    except CoordinateNotFoundError:
+    except (iris_ex.CoordinateNotFoundError, cis_ex.CoordinateNotFoundError):
         x_wrap_start = None
     else:
         x_wrap_start = -180 if x_points_min < 0 else 0
-- 
2.43.0


From ee7c9eebc79c8a9b1186b9a05c5eddfdadbe2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 084/113] fix: time axes had no labels in plots with a
 horizontal colour bar

---
 cis/plotting/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 43b8bec..b3b46bd 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -134,8 +134,11 @@ def set_x_axis_as_time(ax):
     Nicely format a time axis
     """
     _set_axis_as_time(ax.xaxis, ax.get_xlim)
-    # Then just let matplotlib format it nicely...
-    ax.get_figure().autofmt_xdate()
+    # Then just format it nicely... (matplotlib's autofmt_xdate would remove all labels above a horizontal colour bar)
+    for label in ax.get_xticklabels():
+        label.set_ha('right')
+        label.set_rotation(30)
+    ax.get_figure().subplots_adjust(bottom=0.2)
 
 
 def set_y_axis_as_time(ax):
-- 
2.43.0


From f8a183a845035e7d62e6cc98061f4b32c11a1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 085/113] fix: maps showed another region than that asked for,
 or than the data if its longitudes are from 0 to 360

---
 cis/plotting/formatted_plot.py | 45 ++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index ae61a6a..7126a28 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -36,15 +36,31 @@ def format_plot(ax, grid, xlabel, ylabel, title):
         ax.set_title(title)
 
 
-def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None, ystep=None):
+def get_map_limits(projection, xmin, xmax, ymin, ymax):
     """
-    Applies the specified limits to the given GeoAxis.
+    :param cartopy.crs.Projection projection: The (rectangular) projection of a map
+    :return list: The given longitudes and latitudes (or None) in the coordinates of the map
     """
     import cartopy.crs as ccrs
-    from cis.plotting.plot import get_best_map_ticks
     import numpy as np
 
-    transform = ccrs.PlateCarree(360)
+    def to_map(lon, lat):
+        return projection.transform_point(lon, lat, ccrs.PlateCarree())
+
+    limits = []
+    for lon, edge in zip((xmin, xmax), projection.x_limits):
+        x = None if lon is None else to_map(lon, 0.0)[0]
+        # (The longitude at both edges of the map is at one of them only, for the transformation)
+        at_edge = x is not None and np.isclose(abs(x - sum(projection.x_limits) / 2.0), np.ptp(projection.x_limits) / 2.0)
+        limits.append(edge if at_edge else x)
+    return limits + [None if lat is None else to_map(0.0, lat)[1] for lat in (ymin, ymax)]
+
+
+def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None, ystep=None):
+    """
+    Applies the specified limits to the given GeoAxis.
+    """
+    from cis.plotting.plot import get_best_map_ticks
 
     global_tolerance = 0.8
 
@@ -57,11 +73,13 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
                  (x2 - x1 > (ax.projection.x_limits[1] - ax.projection.x_limits[0]) * global_tolerance)):
         ax.set_global()
     else:
-        xmin = xmin if xmin is not None else x1
-        xmax = xmax if xmax is not None else x2
-        ymin = ymin if ymin is not None else y1
-        ymax = ymax if ymax is not None else y2
-        ax.set_extent([xmin, xmax, ymin, ymax], crs=transform)
+        # The existing limits are in the coordinates of the map, so put those which were given in them as well
+        limits = get_map_limits(ax.projection, xmin, xmax, ymin, ymax)
+        x1, x2, y1, y2 = [old if new is None else new for old, new in zip((x1, x2, y1, y2), limits)]
+        if x1 >= x2:
+            # They are on the other sides of the edges of the map
+            x1, x2 = ax.projection.x_limits
+        ax.set_extent([x1, x2, y1, y2], crs=ax.projection)
 
     # Get the updated extent
     x1, x2, y1, y2 = ax.get_extent()
@@ -71,13 +89,14 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
 
     # If we're given user steps then calculate our own ticks
     if xstep is not None:
-        xticks = np.arange(x1, x2 + xstep, xstep)
+        xticks = get_ticks((x1, x2), xstep)
 
     if ystep is not None:
-        yticks = np.arange(y1, y2 + ystep, ystep)
+        yticks = get_ticks((y1, y2), ystep)
 
-    ax.set_xticks(xticks)
-    ax.set_yticks(yticks)
+    # (ticks beyond the limits would move those)
+    ax.set_xticks([t for t in xticks if x1 <= t <= x2])
+    ax.set_yticks([t for t in yticks if y1 <= t <= y2])
 
 
 def apply_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None, ystep=None):
-- 
2.43.0


From 9fe289b2eb25aee08d39503e7314efdc3a847084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:08 +0000
Subject: [PATCH 086/113] fix: variables matched by wildcards couldn't be used
 in expressions, and could take each other's aliases

---
 cis/data_io/data_reader.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index 90ae11d..d882e02 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -84,33 +84,32 @@ class DataReader(object):
         variables = listify(variables)
         aliases = listify(aliases) if aliases else None
 
-        variables = self._expand_wildcards(variables, filenames, product)
+        variables, aliases = self._expand_wildcards(variables, filenames, product, aliases)
 
         data_list = None
         for idx, variable in enumerate(variables):
             var_data = self._get_data_func(filenames, variable, product)
             var_data.filenames = filenames
             if aliases:
-                try:
-                    var_data.alias = aliases[idx]
-                except IndexError:
-                    raise ValueError("Number of aliases does not match number of variables")
+                var_data.alias = aliases[idx]
             if data_list is None:
                 data_list = GriddedDataList() if var_data.is_gridded else UngriddedDataList()
             data_list.append(var_data)
         assert data_list is not None
         return data_list
 
-    def _expand_wildcards(self, variables, filenames, product):
+    def _expand_wildcards(self, variables, filenames, product, aliases=None):
         """
         Convert any wildcards into actual variable names by inspecting the file
 
         :param variables: List of variables names, some of which may be wilcards
         :param filenames: Filenames
-        :return: List of variable names to use.
+        :param aliases: List of aliases of the variables (a wildcard on its own stands for the names it matches)
+        :return: List of variable names to use, and list of their aliases (or None)
         """
         valid_vars = []
-        for variable in variables:
+        valid_aliases = []
+        for idx, variable in enumerate(variables):
             is_wildcard = any(wildcard in variable for wildcard in ['*', '?', ']', '}'])
             file_variables = None
             if is_wildcard:
@@ -121,12 +120,17 @@ class DataReader(object):
                     logging.warning("No variables matching wildcard '%s' found in file." % variable)
                 else:
                     logging.info("Wildcard '%s' found matching variables: %s" % (variable, matches))
-                valid_vars.extend(matches)
             else:
-                valid_vars.append(variable)
+                matches = [variable]
+            valid_vars.extend(matches)
+            if aliases:
+                own_names = is_wildcard and aliases[idx:idx + 1] == [variable]
+                valid_aliases.extend(matches if own_names else aliases[idx:idx + 1])
+                if len(valid_aliases) != len(valid_vars):
+                    raise ValueError("Number of aliases does not match number of variables")
         if len(valid_vars) == 0:
             raise ValueError("No matching variables could be found for the variables supplied")
-        return valid_vars
+        return valid_vars, valid_aliases or None
 
     def read_datagroups(self, datagroups):
         """
-- 
2.43.0


From da8b476841333717507daccb0f643bc493117ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 087/113] fix: changing the coordinates of evaluated data
 changed those of the data it was evaluated from

---
 cis/data_io/ungridded_data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 63da04d..686492f 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -516,13 +516,11 @@ class UngriddedData(LazyData, CommonData):
         metadata = Metadata(name=var_name, standard_name=standard_name,
                             long_name=long_name, history='', units=units)
         if flatten:
-            from cis.data_io.Coord import Coord
             data = data.flatten()
-            new_coords = []
-            for coord in self._coords:
-                new_coords.append(Coord(coord.data_flattened, coord.metadata, coord.axis))
+            new_coords = [coord.copy(data=coord.data.flatten()) for coord in self.coords()]
         else:
-            new_coords = self._coords
+            # These are copies, so that changing the coordinates of the new data doesn't change these
+            new_coords = self.coords().copy()
         ug_data = UngriddedData(data=data, metadata=metadata, coords=new_coords)
         # Copy the history in separately so it gets the timestamp added.
         if history:
-- 
2.43.0


From 714862dd65bbb8f2601ee221bed341f41f4c0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 088/113] fix: collapsing gridded data, or collocating onto it,
 added bounds to its coordinates

---
 cis/aggregation/gridded_collapsor.py   | 5 ++++-
 cis/collocation/col_implementations.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index 3b826e5..e3e9243 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -123,11 +123,14 @@ class GriddedCollapsor(object):
         return new_data
 
     def __call__(self, kernel):
+        from copy import deepcopy
         from cis.data_io.gridded_data import GriddedDataList
         from cis.aggregation.collapse_kernels import MultiKernel
 
         # Make sure all coordinate have bounds - important for weighting and aggregating
-        # Only try and guess bounds on Dim Coords
+        # Only try and guess bounds on Dim Coords (of a copy, so that the data which were given keep their coordinates)
+        if any(not coord.has_bounds() and len(coord.points) > 1 for coord in self.data.coords(dim_coords=True)):
+            self.data = deepcopy(self.data)
         for coord in self.data.coords(dim_coords=True):
             if not coord.has_bounds() and len(coord.points) > 1:
                 coord.guess_bounds()
diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 406a114..0724aa4 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -835,7 +835,8 @@ class GeneralGriddedCollocator(Collocator):
                 "there are multiple points in the sample data so whether the data is missing or not can not be "
                 "determined")
 
-        coords = points.coords()
+        # These are copies, so that the bounds aren't added to the sample itself
+        coords = [coord.copy() for coord in points.coords()]
         shape = []
         output_coords = []
 
-- 
2.43.0


From 0b048deb02d877a1f6f60399d2c4fa0ec6d1bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 089/113] fix: changing the coordinates of one result of an
 aggregation or collocation changed those of the others

---
 cis/aggregation/ungridded_aggregator.py | 11 ++++++-----
 cis/collocation/col_implementations.py  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 7abc6fa..5feeb79 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -122,11 +122,12 @@ class UngriddedAggregator(object):
         :param aggregated_cube: The aggregated cube to give new bounds
         :param source_cube: The source cube which the aggregation was made from.
         """
-        for coord in aggregated_cube.coords():
-            if len(coord.points) == 1 and np.all(np.isinf(coord.bounds)):
-                source_coord = source_cube.coord(coord.name())
-                coord_start, coord_end, coord_centre = self._get_coord_start_end_centre(source_coord)
-                coord.bounds = np.array([[coord_start, coord_end]])
+        for cube in aggregated_cube:
+            for coord in cube.coords():
+                if len(coord.points) == 1 and np.all(np.isinf(coord.bounds)):
+                    source_coord = source_cube.coord(coord.name())
+                    coord_start, coord_end, coord_centre = self._get_coord_start_end_centre(source_coord)
+                    coord.bounds = np.array([[coord_start, coord_end]])
 
     def _get_coord_start_end_centre(self, coord):
         """
diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 0724aa4..9e9490a 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -104,7 +104,7 @@ class GeneralUngriddedCollocator(Collocator):
             var_metadata = Metadata(name=var_details[0], long_name=var_details[1], shape=(len(sample_points),),
                                     missing_value=self.fill_value, units=var_details[3])
             set_standard_name_if_valid(var_metadata, var_details[2])
-            return_data.append(UngriddedData(values[idx, :], var_metadata, points.coords()))
+            return_data.append(UngriddedData(values[idx, :], var_metadata, points.coords().copy()))
         log_memory_profile("GeneralUngriddedCollocator final")
 
         return return_data
@@ -965,7 +965,7 @@ class GeneralGriddedCollocator(Collocator):
         """
         dim_coords_and_dims = []
         for idx, coord in enumerate(coords):
-            dim_coords_and_dims.append((coord, idx))
+            dim_coords_and_dims.append((coord.copy(), idx))
         cube = GriddedData(data, standard_name=src_data.standard_name,
                            long_name=src_data.long_name,
                            var_name=src_data.var_name,
-- 
2.43.0


From 470b2e15fda90d12a72f42d8eb86dff9f1d5de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 090/113] fix: collocation changed the longitudes of the data
 and of the sample

---
 cis/collocation/col_implementations.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 9e9490a..1591da5 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 
 import iris.cube
@@ -46,6 +47,9 @@ class GeneralUngriddedCollocator(Collocator):
                 output.extend(self.collocate(points, var, constraint, kernel))
             return output
 
+        # The longitudes of the objects which were given are left as they are
+        points, data = _with_own_coordinates(points), _with_own_coordinates(data)
+
         # First fix the sample points so that they all fall within the same 360 degree longitude range
         _fix_longitude_range(points.coords(), points)
         # Then fix the data points so that they fall onto the same 360 degree longitude range as the sample points
@@ -151,7 +155,8 @@ class GriddedUngriddedCollocator(Collocator):
         if constraint is not None and not isinstance(constraint, DummyConstraint):
             raise ValueError("A constraint cannot be specified for the GriddedUngriddedCollocator")
 
-        # First fix the sample points so that they all fall within the same 360 degree longitude range
+        # First fix the sample points so that they all fall within the same 360 degree longitude range (in a copy of them)
+        points = _with_own_coordinates(points)
         _fix_longitude_range(points.coords(), points)
 
         log_memory_profile("GriddedUngriddedCollocator after data retrieval")
@@ -1154,6 +1159,16 @@ def _find_longitude_range(coords):
     return low
 
 
+def _with_own_coordinates(data):
+    """Gives the same ungridded data, but whose longitudes can be set without changing those of the data given.
+    :param UngriddedData or UngriddedCoordinates data: Data (or coordinates) to be used
+    :return: Object with the same data and copies of the coordinates
+    """
+    new_data = copy(data)
+    new_data._coords = data.coords().copy()
+    return new_data
+
+
 def _fix_longitude_range(coords, data_points):
     """Sets the longitude range of the data points to match that of the sample coordinates.
     :param coords: coordinates for grid on which to collocate
-- 
2.43.0


From d34f0ce7d367f88b80f0aef47df7b28addd63e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 091/113] fix: absolute values and exponentials of point data
 lost their mask when values of the data were set

---
 cis/maths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/maths.py b/cis/maths.py
index ba51fb2..e134b41 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -387,7 +387,8 @@ def _math_op_common(ungridded_data, operation_function, new_unit, in_place=False
             # Non ufunc function
             operation_function(new_ungridded_data.data)
     else:
-        new_ungridded_data = ungridded_data.copy(data=operation_function(ungridded_data.data))
+        # NumPy lets the results of some functions share the mask of the original
+        new_ungridded_data = ungridded_data.copy(data=np.ma.copy(operation_function(ungridded_data.data)))
     new_ungridded_data.units = new_unit
     new_ungridded_data.add_history('Performed {op} operation'.format(op=operation_function.__name__))
     return new_ungridded_data
-- 
2.43.0


From 4a9441d021c84f516473b7e533b836799be5a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 092/113] fix: attributes which had been added to point data
 were missing from copies, slices and subsets of it

---
 cis/data_io/ungridded_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 686492f..daba4e4 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -540,7 +540,9 @@ class UngriddedData(LazyData, CommonData):
         #  data, and will lead to post-processing before slicing.
         # TODO: We could be cleverer and figure out the right slice across the various data managers to only read the
         #  right data from disk.
-        return UngriddedData(data=self.data[keys].copy(), metadata=deepcopy(self.metadata), coords=new_coords)
+        new_data = UngriddedData(data=self.data[keys].copy(), metadata=deepcopy(self.metadata), coords=new_coords)
+        new_data.attributes = deepcopy(self.attributes)
+        return new_data
 
     def copy(self, data=None):
         """
@@ -555,7 +557,9 @@ class UngriddedData(LazyData, CommonData):
         from copy import deepcopy
         data = data if data is not None else numpy.ma.copy(self.data)  # This will load the data if lazy load
         coords = self.coords().copy()
-        return UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
+        new_data = UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
+        new_data.attributes = deepcopy(self.attributes)
+        return new_data
 
     @property
     def size(self):
-- 
2.43.0


From 14bb29aff1acd9821c58fc0cf8d761fe9bd22795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:45 +0000
Subject: [PATCH 093/113] fix: gridded data evaluated from an expression which
 is just one of the variables shared its values with it

---
 cis/evaluate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index 56dd0ec..b6b26ba 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -86,7 +86,8 @@ class Calculator(object):
         if not sample_shape == result_array.shape:
             raise EvaluationError("The resulting array is not the same shape as the original data. "
                                   "Check your expression")
-        data = sample_data.make_new_with_same_coordinates(data=result_array, var_name=output_var,
+        # The result might be one of the inputs, or a view of it
+        data = sample_data.make_new_with_same_coordinates(data=result_array.copy(), var_name=output_var,
                                                           standard_name=standard_name, long_name=long_name,
                                                           history=history, units=units, flatten=True)
         if attributes is not None:
-- 
2.43.0


From 5bd78ca6dcba128ce6ede4635a580a3225eb1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 094/113] fix: gridded data collocated onto a grid shared the
 coordinates of the sample and of each other

---
 cis/collocation/col_implementations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 1591da5..e892016 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -764,7 +764,9 @@ class GriddedCollocator(Collocator):
             if not np.array_equal(old_coord.points, coord.points):
                 dim = output_cube.coord_dims(old_coord)[0]
                 output_cube.remove_coord(old_coord)
-                output_cube.add_dim_coord(coord, dim)
+                # Each of the outputs has its own coordinates
+                for cube in (output_cube if isinstance(output_cube, list) else [output_cube]):
+                    cube.add_dim_coord(coord.copy(), dim)
 
         # Iris outputs interpolated cubes with the dimensions in the order of the data grid, not the sample grid,
         # so we need to rearrange the order of the dimensions.
-- 
2.43.0


From d89bcc68ea3465653618e65f6ea59b82ad8f8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 095/113] fix: a date/time step which isn't a valid one was
 taken as another, for example P1.5D as five days

---
 cis/parse_datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index e28d9b9..7820913 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -130,6 +130,10 @@ def _parse_datetime_delta(dt_string):
     date_tokens = re.findall('[0-9]*[A-Z]', date_string)
     time_tokens = re.findall('[0-9]*[A-Z]', time_string)
 
+    # There has to be something, and nothing else
+    if ''.join(date_tokens) != date_string or ''.join(time_tokens) != time_string or not date_tokens + time_tokens:
+        raise ValueError('Date/Time step must be in ISO 8601 format, for example P2M3DT4H5M6S.')
+
     years = 0
     months = 0
     days = 0
-- 
2.43.0


From f721a288691cd2a7f2f00ce90cc588b8712c229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 096/113] fix: aggregation grids with something missing, left
 over or given twice were taken as others, or as none

---
 cis/parse.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index f6b0f8f..be770f4 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -463,13 +463,18 @@ def get_aggregate_grid(aggregategrid, parser):
     for seg in split_input:
         # Parse out dimension name and new grid spacing; the expected format is:
         # <dim_name>=[<start_value>,<end_value,<delta>]
-        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?',
+        match = re.match(r'(?P<dim>[^=[]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?$',
                          seg)
         if match is None or match.group('dim') is None:
-            parser.error("A dimension for aggregation does not have a valid dimension name")
-        elif match.group('start') is None and match.group('delta') is None:
+            parser.error("A dimension for aggregation does not have a valid dimension name or grid")
+        elif match.group('dim') in grid_dict:
+            parser.error("The dimension {} for aggregation is given more than once".format(match.group('dim')))
+        elif match.group('start') is None and match.group('end') is None and match.group('delta') is None:
             # This is for gridded aggregation where we just have a list of dims with no grid
             grid_dict[match.group('dim')] = None
+        elif match.group('start') is None:
+            parser.error("A dimension for aggregation has no start point, which must be supplied, for example "
+                         "x=[0,360,30].")
         elif match.group('end') is None:
             parser.error("A dimension for aggregation has a start point but no end or delta value, an end and a delta "
                          "value must be supplied, for example x=[0,360,30].")
-- 
2.43.0


From 5d0fc82cb46d8a7e036e531643a0a954c79a33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 097/113] fix: the limits of dimensions whose names start with
 shape were taken for a shape, and all but the last given for a dimension were
 ignored

---
 cis/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index be770f4..e98270a 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -543,14 +543,16 @@ def get_subset_limits(subsetlimits, parser):
         # or
         # <dim_name>=[<start_value>]
         match = re.match(r'(?P<dim>[^=]+)=\[(?P<start>[^],]+)(?:,(?P<end>[^],]+))?\]$', seg)
-        if seg.startswith('shape'):
+        if seg.startswith('shape='):
             # Don't use the regexp for this as it gets confused with the commas
-            limit_dict['shape'] = seg.split('=')[1]
+            limit_dict['shape'] = seg[len('shape='):]
         elif match is None or match.group('dim') is None or match.group('start') is None:
             parser.error(
                 "A dimension for subsetting does not have dimension name, start value and/or end value specified")
         else:
             dim_name = match.group('dim')
+            if dim_name in limit_dict:
+                parser.error("The dimension {} for subsetting is given more than once".format(dim_name))
             limit_dict[dim_name] = []
 
             limit1 = match.group('start')
-- 
2.43.0


From 4102e7f25c1b6323b084fe880a7101da34a14bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 098/113] fix: datagroup options without a value or given twice
 weren't refused, some values were cut off, and a lone product wasn't checked

---
 cis/parse.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index e98270a..b24c36f 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -628,31 +628,18 @@ def parse_colon_and_comma_separated_arguments(inputs, parser, options, compulsor
             raise InvalidCommandLineOptionError('More options specified than are actually available.')
 
         # If there is only one optional argument do not require the 'keyword=' syntax
-        if len(option) == 1 and len(split_input_comma) == 1:
-            split_input_variable = split_outside_brackets(split_input_comma[0], '=')
-            if len(split_input_variable) == 1:
-                input_dict[option[0]] = split_input_variable[0]
-                option.pop(0)
-                split_input_comma.pop(0)
-            elif len(split_input_variable) == 2:
-                if option[0] == split_input_variable[0]:
-                    input_dict[option[0]] = split_input_variable[1]
-                    option.pop(0)
-                    split_input_comma.pop(0)
-            else:
-                raise InvalidCommandLineOptionError('Something is wrong with this argument: ', split_input_comma)
-
-        for i, option in enumerate(option):
-            for j in split_input_comma:
-                # Split the input, [0] will be the key and [1] the value in the list
-                split_input_variable = split_outside_brackets(j, '=')
-                if split_input_variable[0] == option:
-                    input_dict[option] = options[i + compulsory_args](split_input_variable[1], parser)
-                    split_input_comma.remove(j)
-
-        if len(split_input_comma) != 0:
-            raise InvalidCommandLineOptionError('The following optional arguments could not be parsed: ' +
-                                                str(split_input_comma))
+        if len(option) == 1 and len(split_input_comma) == 1 and '=' not in split_input_comma[0]:
+            split_input_comma[0] = option[0] + '=' + split_input_comma[0]
+
+        for j in split_input_comma:
+            name, _, value = j.partition('=')
+            if name not in option:
+                raise InvalidCommandLineOptionError('The following optional argument could not be parsed: ' + j)
+            elif name in input_dict:
+                parser.error("The option '{}' is given more than once".format(name))
+            elif not value:
+                parser.error("The option '{}' has no value".format(name))
+            input_dict[name] = getattr(options, name)(value, parser)
 
         input_dicts.append(input_dict)
     return input_dicts
-- 
2.43.0


From 754ec1ce0206728c47e018027470cd1e2ef398ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 099/113] fix: lists of contour levels without brackets lost
 digits, and methods with unmatched brackets were accepted

---
 cis/parse.py | 22 +++++++++++-----------
 cis/utils.py |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index b24c36f..f2c8843 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -682,10 +682,11 @@ def split_outside_brackets(input, seps=[','], brackets={'[': ']', '(': ')'}):
 def extract_method_and_args(arguments, parser):
     from cis.utils import parse_key_val_list
 
-    elements = multi_split(arguments, ['[', ',', ']'])
-    method_name = elements[0] if len(elements) > 0 else ''
-    args = elements[1:] if len(elements) > 1 else []
-    method_and_args = (method_name, parse_key_val_list(args))
+    match = re.match(r'(?P<name>[^][,]*)(?:\[(?P<args>[^][]*)\])?$', arguments)
+    if match is None:
+        parser.error("'" + arguments + "' is not a valid method with arguments, for example box[h_sep=10km]")
+    args = multi_split(match.group('args') or '', [','])
+    method_and_args = (match.group('name'), parse_key_val_list(args))
     return method_and_args
 
 
@@ -701,12 +702,8 @@ def multi_split(s, seps):
         for seq in s:
             res += seq.split(sep)
 
-    for i in res:
-        # Remove empty strings
-        if not i:
-            res.pop(res.index(i))
-
-    return res
+    # Remove empty strings
+    return [i for i in res if i]
 
 
 def check_nothing(item, parser):
@@ -764,7 +761,10 @@ def _set_aliases_for_datagroups(datagroups, parser):
 
 def convert_to_list_of_floats(arg, parser):
     # Given a string such as '[10.0,11.1,12.2]' retruns a list containing, 10.0, 11.1, 12.2
-    return [float(x) for x in arg[1:-1].split(',')]
+    match = re.match(r'\[(.*)\]$', arg)
+    if match is None:
+        parser.error("'" + arg + "' is not a list of numbers, for example [10.0,11.1,12.2]")
+    return [parse_float(x, 'number', parser) for x in match.group(1).split(',')]
 
 
 def check_plot_type(plot_type, parser):
diff --git a/cis/utils.py b/cis/utils.py
index 3a344c4..a0a02c2 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -297,7 +297,7 @@ def parse_key_val_list(input_list):
     """
     key_val_dict = {}
     for element in input_list:
-        key_value = element.split('=')
+        key_value = element.split('=', 1)
         key = key_value[0]
         value = key_value[1] if len(key_value) > 1 else True
         key_val_dict[key] = value
-- 
2.43.0


From e8d7bccc17bcdca9515daba4f7198a12ec0259d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 100/113] fix: collocation options which are neither true nor
 false were taken as false, and options without a value failed

---
 cis/cis_main.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 28c1113..7ce9c61 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -64,6 +64,16 @@ def info_cmd(main_arguments):
     info(dg['filenames'], dg.get('variables', None), dg.get('product', None), main_arguments.type)
 
 
+def _boolean_option(value):
+    """
+    The value of a true or false option of a collocator (the name of the option on its own means that it is true)
+    """
+    from cis.exceptions import InvalidCommandLineOptionError
+    if str(value).lower() not in ('true', 'false'):
+        raise InvalidCommandLineOptionError("'{}' is not either True or False".format(value))
+    return str(value).lower() == 'true'
+
+
 def col_cmd(main_arguments):
     """
     Main routine for handling calls to the collocate ('col') command.
@@ -73,7 +83,6 @@ def col_cmd(main_arguments):
     from cis.collocation.col_framework import get_kernel
     from cis.data_io.gridded_data import GriddedDataList
     from cis.data_io.ungridded_data import UngriddedDataList
-    from cis.parse import check_boolean
 
     # Read the sample data
     missing_data_for_missing_sample = False
@@ -88,11 +97,11 @@ def col_cmd(main_arguments):
     col_name, col_options = main_arguments.samplegroup.get('collocator', ('', {}))
     kern_name, kern_options = main_arguments.samplegroup.get('kernel', ('', {}))
 
-    missing_data_for_missing_sample = check_boolean(col_options.pop('missing_data_for_missing_sample',
-                                                                    str(missing_data_for_missing_sample)), logging)
+    if 'missing_data_for_missing_sample' in col_options:
+        missing_data_for_missing_sample = _boolean_option(col_options.pop('missing_data_for_missing_sample'))
 
     if 'extrapolate' in col_options:
-        col_options['extrapolate'] = check_boolean(col_options['extrapolate'], logging)
+        col_options['extrapolate'] = _boolean_option(col_options['extrapolate'])
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
-- 
2.43.0


From 58de9c008138ffbbb528aea550c73771fd55d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 101/113] fix: commands without an output name, and no command
 at all, failed with the wrong error

---
 cis/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/parse.py b/cis/parse.py
index f2c8843..77c9e5c 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -803,6 +803,8 @@ def check_boolean(arg, parser):
 
 def _split_output_if_includes_variable_name(arguments, parser):
     arguments.output_var = None
+    if not arguments.output:
+        parser.error("Please specify an output filename")
     if ':' in arguments.output:
         try:
             arguments.output_var, arguments.output = arguments.output.split(':')
@@ -1001,6 +1003,8 @@ def parse_args(arguments=None):
         # sys.argv[0] is the name of the script itself
         arguments = sys.argv[1:]
     main_args = parser.parse_args(arguments)
+    if main_args.command is None:
+        parser.error("Please specify a command")
     # TODO I don't really like this as I have to specify the aliases twice...
     if main_args.command in aliases.keys():
         main_args.command = aliases[main_args.command]
-- 
2.43.0


From f27c84f93accd4c4d2aec5cd709dbf1d7f1a8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 102/113] fix: anything but letters and digits in the
 separations of a collocation was ignored

---
 cis/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/utils.py b/cis/utils.py
index a0a02c2..159860e 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -538,7 +538,9 @@ def split_into_float_and_units(measurement):
     measurement = measurement.replace(measurement_value[0], " ")
 
     # Match any strings of characters, which should be units
-    measurement_units = re.findall(r'[a-zA-z]+', measurement)
+    measurement_units = re.findall(r'[a-zA-Z]+', measurement)
+    if re.search(r'[^a-zA-Z\s]', measurement):
+        raise InvalidCommandLineOptionError("Not a number with units", measurement)
 
     if len(measurement_units) > 1:
         raise InvalidCommandLineOptionError("More than one unit found")
-- 
2.43.0


From 1e9044107456a8ac9495872f90dd51d00ce74d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 103/113] fix: every other one of the abstract classes of a
 plugin was taken for a product, which failed

---
 cis/plugin.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index c0149d1..e9a1412 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -71,9 +71,7 @@ def find_plugin_classes(parent_class, built_in_module, verbose=True):
     subclasses = get_all_subclasses(parent_class, built_in_module)
     all_classes = plugin_classes + subclasses
 
-    for subclass in all_classes:
-        if subclass.__name__.startswith('abstract') or subclass.__name__.startswith('Abstract'):
-            all_classes.remove(subclass)
+    all_classes = [cls for cls in all_classes if not cls.__name__.startswith(('abstract', 'Abstract'))]
 
     all_classes = sorted(all_classes, key=lambda subclass: subclass.__name__)
 
-- 
2.43.0


From 3f860b4ddff0102d2fd9830b578cdb92303f2b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 104/113] fix: any class of a plugin with AProduct or Kernel in
 the name of its parent was taken for a product or a kernel

---
 cis/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index e9a1412..287c276 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -20,7 +20,7 @@ def get_all_subclasses(parent_class, mod):
     return subclasses
 
 
-def find_plugins(plugin_dir, parent_class_name, verbose):
+def find_plugins(plugin_dir, parent_class, verbose):
     import logging
     import os
     import sys
@@ -55,7 +55,7 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
             logging.info("Importing plugin: " + str(plugin))
         module = __import__(plugin)
         classes = [getattr(module, x) for x in dir(module) if isinstance(getattr(module, x), type)]
-        product_classes = [cls for cls in classes if parent_class_name in str(cls.__bases__[0])]
+        product_classes += [cls for cls in classes if issubclass(cls, parent_class) and cls is not parent_class]
 
     return product_classes
 
@@ -65,7 +65,7 @@ def find_plugin_classes(parent_class, built_in_module, verbose=True):
     # find plugin classes, if any
     ENV_PATH = "CIS_PLUGIN_HOME"
     plugin_dir = os.environ.get(ENV_PATH, None)
-    plugin_classes = find_plugins(plugin_dir, parent_class.__name__, verbose)
+    plugin_classes = find_plugins(plugin_dir, parent_class, verbose)
 
     # find built-in classes, i.e. subclasses of parent_class
     subclasses = get_all_subclasses(parent_class, built_in_module)
-- 
2.43.0


From b2942378afa71fb709543f7d2237a5f823ef01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 105/113] fix: file signatures which give alternatives matched
 names which only start with one of them

---
 cis/data_io/products/AProduct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index 73a9885..a3a98a8 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -164,8 +164,8 @@ def __get_class(filename, product=None):
             patterns = class_instance.get_file_signature()
             for pattern in patterns:
                 # Match the pattern - re.I allows for case insensitive matches.
-                # Appending '$' to the pattern ensures we match the whole string
-                if re.match(pattern+'$', basename, re.I) is not None:
+                # The pattern has to match the whole string
+                if re.fullmatch(pattern, basename, re.I) is not None:
                     logging.debug("Found product class " + cls.__name__ + " matching regex pattern " + pattern)
                     errors = class_instance.get_file_type_error(filename)
                     if errors is None:
-- 
2.43.0


From cab650f19de930a78d65f9b7e8cb39d3c97cb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 106/113] fix: no kernel could be used for an aggregation if
 there is a kernel which needs arguments

---
 cis/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index 77c9e5c..5ece5c1 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -373,7 +373,7 @@ def check_aggregate_kernel(arg, parser):
     from cis.aggregation.collapse_kernels import aggregation_kernels
 
     aggregation_classes = plugin.find_plugin_classes(Kernel, 'cis.collocation.col_implementations')
-    aggregation_names = [cls().__class__.__name__ for cls in aggregation_classes]
+    aggregation_names = [cls.__name__ for cls in aggregation_classes]
     if arg in list(aggregation_kernels.keys()) or arg in aggregation_names:
         return arg
     else:
-- 
2.43.0


From 47d40df654a292269e5f87c207994cd0b3e87b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 107/113] fix: refuse double underscores in expressions also if
 they are typed as other characters

---
 cis/evaluate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index b6b26ba..17e461e 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -32,7 +32,9 @@ class Calculator(object):
         :return: Data object matching the type of the input data (i.e. GriddedData or UngriddedData).
         """
         import six
-        if '__' in expr:
+        import unicodedata
+        # Python takes identifiers in their normalised form, in which other characters are underscores too
+        if '__' in unicodedata.normalize('NFKC', six.text_type(expr)):
             raise EvaluationError("Use of functions or variables with double underscores (__) is not allowed")
         # Create list of allowed globals
         safe_globals = {module: globals()[module] for module in self.SAFE_MODULES}
-- 
2.43.0


From bef906318fbb95a559911f98edfd824de04715e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:42 +0000
Subject: [PATCH 108/113] fix: conditions which were evaluated could not be
 saved

---
 cis/evaluate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index 17e461e..4680b53 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -88,8 +88,9 @@ class Calculator(object):
         if not sample_shape == result_array.shape:
             raise EvaluationError("The resulting array is not the same shape as the original data. "
                                   "Check your expression")
-        # The result might be one of the inputs, or a view of it
-        data = sample_data.make_new_with_same_coordinates(data=result_array.copy(), var_name=output_var,
+        # The result might be one of the inputs, or a view of it. It might also be a condition, but NetCDF has no booleans.
+        result_array = result_array.astype(int) if result_array.dtype == bool else result_array.copy()
+        data = sample_data.make_new_with_same_coordinates(data=result_array, var_name=output_var,
                                                           standard_name=standard_name, long_name=long_name,
                                                           history=history, units=units, flatten=True)
         if attributes is not None:
-- 
2.43.0


From 564a7accd0a202e30a22528adc0ab479b9837c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:42 +0000
Subject: [PATCH 109/113] fix: ungridded data in another byte order could not
 be saved

---
 cis/data_io/write_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index 9c104c6..3747ce4 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -103,7 +103,7 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
     if (name is None) or prefer_standard_name:
         if (data.metadata.standard_name is not None) and (len(data.metadata.standard_name) > 0):
             name = data.metadata.standard_name
-    out_type = types[str(data.data.dtype)]
+    out_type = types[data.data.dtype.name]  # (whatever the byte order)
     logging.info("Creating variable: {name}({index}) {type}".format(name=name, index=index_name, type=out_type))
     if name not in nc_file.variables:
         # Generate a warning if we have insufficient disk space
-- 
2.43.0


From 04b8172374645b97cdf494f0fb7a769108452a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 110/113] fix: horizontal separation missed points at the poles
 whose coordinates are in single precision

---
 cis/collocation/kdtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index c2e2d79..51c45d9 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1188,7 +1188,8 @@ class HaversineDistanceKDTree(KDTree):
     """
 
     def __init__(self, data, leafsize=10, mask=None):
-        self.data = np.ma.asarray(data)
+        # The distances are worked out in the precision of the data, and single precision is not enough near the poles
+        self.data = np.ma.asarray(data, dtype=float)
         if mask is not None:
             self.data.mask = np.column_stack([mask] * data.shape[1])
         self.n, self.m = np.shape(self.data)
-- 
2.43.0


From 30193ad4bb73a20d935c0e488baafbf371faad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:45 +0000
Subject: [PATCH 111/113] fix: coordinates which gridded data do not have were
 ignored when collapsing

---
 cis/data_io/common_data.py  | 10 +++++++---
 cis/data_io/gridded_data.py |  8 +++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 6c4901b..4d9ba3d 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -215,9 +215,13 @@ class CommonData(object):
                 coord = None
             return coord
 
-        coord = _try_coord(self, dict(name_or_coord=name)) or _try_coord(self, dict(standard_name=name)) \
-            or _try_coord(self, dict(standard_name=standard_axes.get(name.upper(), None))) or \
-                _try_coord(self, dict(var_name=name)) or _try_coord(self, dict(axis=name))
+        coord = _try_coord(self, dict(name_or_coord=name)) or _try_coord(self, dict(standard_name=name))
+
+        # Only look for the standard name of an axis which has one: no name at all matches any coordinate
+        if coord is None and name.upper() in standard_axes:
+            coord = _try_coord(self, dict(standard_name=standard_axes[name.upper()]))
+
+        coord = coord or _try_coord(self, dict(var_name=name)) or _try_coord(self, dict(axis=name))
 
         return coord
 
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index f819424..066a425 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -664,11 +664,17 @@ def _collapse_gridded(data, coords, kernel):
     from cis.aggregation.collapse_kernels import aggregation_kernels, MultiKernel
     from iris.analysis import Aggregator as IrisAggregator
     from cis.aggregation.gridded_collapsor import GriddedCollapsor
+    from cis.exceptions import CoordinateNotFoundError
     from cis import __version__
     from cis.utils import listify
 
     # Ensure the coords are all Coord instances
-    coords = [data._get_coord(c) for c in listify(coords)]
+    names = listify(coords)
+    coords = [data._get_coord(c) for c in names]
+    for name, coord in zip(names, coords):
+        if coord is None:
+            raise CoordinateNotFoundError("No coordinate found that matches '{}'. Please check the "
+                                          "coordinate name.".format(name))
 
     # The kernel can be a string or object, so catch both defaults
     if kernel is None or kernel == '':
-- 
2.43.0


From 710dfd3a7b5c3aa8275479eadec39ac87ec7f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:55 +0000
Subject: [PATCH 112/113] fix: variables of the same name were lost when saving
 ungridded data

---
 cis/data_io/write_netcdf.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index 3747ce4..6e8c524 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -87,6 +87,29 @@ def __check_disk_space(filepath, data):
                             .format(path=filepath, free=sizeof_fmt(available), size=sizeof_fmt(data.data.nbytes)))
 
 
+def __get_unused_name(nc_file, name, data):
+    """Finds a name for a variable which no other variable in the file has, by adding a number to it if needed (as Iris does).
+    :param nc_file: netCDF file to which to write
+    :param name: name of the variable
+    :param data: LazyData for variable to write
+    :return: the name itself if it isn't in use, or the variable of that name already holds these data
+    """
+    import numpy as np
+
+    def holds_other_data(var):
+        existing, new = np.ma.asarray(var[:]), np.ma.asarray(data.data).flatten()
+        return (existing.shape != new.shape or (np.ma.getmaskarray(existing) != np.ma.getmaskarray(new)).any() or
+                not np.array_equal(existing.compressed(), new.compressed()))
+
+    unused_name, number = name, 0
+    while unused_name in nc_file.variables and holds_other_data(nc_file.variables[unused_name]):
+        unused_name = "{}_{}".format(name, number)
+        number += 1
+    if unused_name != name:
+        logging.warning("There is a variable {} in the file already, this one is written as {}".format(name, unused_name))
+    return unused_name
+
+
 def __create_variable(nc_file, data, prefer_standard_name=False):
     """Creates and writes a variable to a netCDF file.
     :param nc_file: netCDF file to which to write
@@ -103,6 +126,8 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
     if (name is None) or prefer_standard_name:
         if (data.metadata.standard_name is not None) and (len(data.metadata.standard_name) > 0):
             name = data.metadata.standard_name
+    if not prefer_standard_name:
+        name = __get_unused_name(nc_file, name, data)
     out_type = types[data.data.dtype.name]  # (whatever the byte order)
     logging.info("Creating variable: {name}({index}) {type}".format(name=name, index=index_name, type=out_type))
     if name not in nc_file.variables:
-- 
2.43.0


From b420e22c9a53149185e29237e1de19a8370b2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:55 +0000
Subject: [PATCH 113/113] fix: only one of two limits (or grids) for the same
 coordinate was used

---
 cis/data_io/ungridded_data.py | 2 ++
 cis/subsetting/subset.py      | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index daba4e4..c001946 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1299,6 +1299,8 @@ def _aggregate_ungridded(data, how, **kwargs):
             # Standard time is days since, so turn this into a fractional number of days
             grid_step = grid_step.total_seconds() / (24*60*60)
 
+        if c.name() in grid_spec:
+            raise ValueError("The grid of {} is given more than once".format(c.name()))
         grid_spec[c.name()] = slice(grid_start, grid_end, grid_step)
 
     # We have to make the history before doing the aggregation as the grid dims get popped-off during the operation
diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 12d3e9f..8430830 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -71,7 +71,9 @@ def subset(data, constraint, **kwargs):
         elif l.stop is None and l.start is not None and limit_end < limit_start:
             limit_end = limit_start
 
-        constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
+        if c.name() in constraints:
+            raise ValueError("The limits of {} are given more than once".format(c.name()))
+        constraints[c.name()] = slice(limit_start, limit_end)
 
     if 'shape' in constraints:
         bounding_box = constraints['shape'].bounds
-- 
2.43.0

