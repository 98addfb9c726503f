From 249a619bfdaa4021de9871243c174b83d5b79e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/67] fix: roll the bounds of auxiliary coordinates with
 their points when re-ranging longitudes

---
 cis/data_io/gridded_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dd60cdf..e334493 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -243,8 +243,12 @@ class GriddedData(iris.cube.Cube, CommonData):
                 if lon_idx in dims:
                     # Now roll the axis of the auxiliary coordinate which is associated with the longitude data
                     # dimension: dims.index(lon_idx)
-                    new_points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
+                    axis = dims.index(lon_idx)
+                    new_points = np.roll(aux_coord.points, shift, axis)
+                    new_bounds = np.roll(aux_coord.bounds, shift, axis) if aux_coord.has_bounds() else None
                     aux_coord.points = new_points
+                    if new_bounds is not None:
+                        aux_coord.bounds = new_bounds
             # Now roll the data itself
             new_data = np.roll(self.data, shift, lon_idx)
             self.data = new_data
-- 
2.43.0


From 72ba737bca57a5ea92df91ddbc94898e7765291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 02/67] fix: re-ranging longitudes of one gridded dataset must
 not alter others sharing its coordinates

---
 cis/data_io/gridded_data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index e334493..6cc1a67 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -246,16 +246,13 @@ class GriddedData(iris.cube.Cube, CommonData):
                     axis = dims.index(lon_idx)
                     new_points = np.roll(aux_coord.points, shift, axis)
                     new_bounds = np.roll(aux_coord.bounds, shift, axis) if aux_coord.has_bounds() else None
-                    aux_coord.points = new_points
-                    if new_bounds is not None:
-                        aux_coord.bounds = new_bounds
+                    # Use a copy of the coordinate since it might be shared with other data objects
+                    self.replace_coord(aux_coord.copy(new_points, new_bounds))
             # Now roll the data itself
             new_data = np.roll(self.data, shift, lon_idx)
             self.data = new_data
             # Put the new coordinates back in their relevant places
-            self.dim_coords[lon_idx].points = new_lon_points
-            if roll_bounds:
-                self.dim_coords[lon_idx].bounds = new_lon_bounds
+            self.replace_coord(lon_coord.copy(new_lon_points, new_lon_bounds))
 
     def add_attributes(self, attributes):
         """
-- 
2.43.0


From a47e1f7712e04b6f284323510dedfdb938840b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 03/67] fix: re-range gridded longitudes which all lie outside
 of the requested range

---
 cis/data_io/gridded_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 6cc1a67..b65cd16 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -234,6 +234,11 @@ class GriddedData(iris.cube.Cube, CommonData):
                 new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
                 # See comment above re preserving monotinicity.
                 new_lon_bounds[indices_to_shift_value_of] -= 360.0
+        elif idx1 == len(lon_coord.points) or idx2 == 0:
+            # All of the points are on one side of the range, so shift their values without moving any data
+            offset = 360.0 if idx2 > 0 else -360.0
+            new_lon_bounds = lon_coord.bounds + offset if roll_bounds else None
+            self.replace_coord(lon_coord.copy(lon_coord.points + offset, new_lon_bounds))
         if shift != 0:
             # Ensure we also roll any auxilliary coordinates
             for aux_coord in self.aux_coords:
-- 
2.43.0


From 27d59b98596ce9036c4dd88022c6039b312effc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 04/67] fix: re-ranging of gridded integer-valued longitudes

---
 cis/data_io/gridded_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index b65cd16..fb40bce 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -215,7 +215,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             # Calculate which indices need 360 adding to them...
             indices_to_shift_value_of = new_lon_points < lon_min
             # ... then, add 360 to all those longitude values
-            new_lon_points[indices_to_shift_value_of] += 360.0
+            new_lon_points[indices_to_shift_value_of] += 360
             if roll_bounds:
                 # If the coordinate has bounds then roll those as well
                 new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
@@ -223,17 +223,17 @@ class GriddedData(iris.cube.Cube, CommonData):
                 # check independently because there may be cases where an upper or lower bound falls outside of the
                 # 360 range, we leave those as they are to preserve monotonicity. See e.g.
                 # test_set_longitude_bounds_wrap_at_360
-                new_lon_bounds[indices_to_shift_value_of] += 360.0
+                new_lon_bounds[indices_to_shift_value_of] += 360
         elif 0 < idx2 < len(lon_coord.points):
             shift = len(lon_coord.points) - idx2
             lon_max = lon_coord.points[idx2]
             new_lon_points = np.roll(lon_coord.points, shift, 0)
             indices_to_shift_value_of = new_lon_points >= lon_max
-            new_lon_points[indices_to_shift_value_of] -= 360.0
+            new_lon_points[indices_to_shift_value_of] -= 360
             if roll_bounds:
                 new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
                 # See comment above re preserving monotinicity.
-                new_lon_bounds[indices_to_shift_value_of] -= 360.0
+                new_lon_bounds[indices_to_shift_value_of] -= 360
         elif idx1 == len(lon_coord.points) or idx2 == 0:
             # All of the points are on one side of the range, so shift their values without moving any data
             offset = 360.0 if idx2 > 0 else -360.0
-- 
2.43.0


From 83e32ccb44ba19b93b9a21a819906c4a1e70c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 05/67] fix: subsetting masked gridded data by shape must not
 unmask missing values or keep points outside the shape

---
 cis/subsetting/subset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 170c40b..094271a 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -137,7 +137,7 @@ class GriddedSubsetConstraint(SubsetConstraint):
             mask = np.ones(data.shape, dtype=bool)
             mask[np.unravel_index(_get_gridded_subset_region_indices(data, _shape), data.shape)] = False
             if isinstance(data.data, np.ma.MaskedArray):
-                data.data.mask &= mask
+                data.data.mask |= mask
             else:
                 data.data = np.ma.masked_array(data.data, mask)
         return gridded_data.make_from_cube(data)
-- 
2.43.0


From 2dae714a2cb656046434523c697fd5fc00c63b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 06/67] fix: subsetting gridded data by shape when longitude is
 the first dimension

---
 cis/subsetting/subset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 094271a..28494b9 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -291,5 +291,8 @@ def _get_ungridded_subset_region_indices(ungridded_data, region):
 
 def _get_gridded_subset_region_indices(gridded_data, region):
     # Using X and Y is a bit more general than lat and lon - the shapefiles needn't actually represent lat/lon
-    x, y = np.meshgrid(gridded_data.coord(axis='X').points, gridded_data.coord(axis='Y').points)
+    x_coord, y_coord = gridded_data.coord(axis='X'), gridded_data.coord(axis='Y')
+    # Match the order of the dimensions of the data
+    indexing = 'ij' if gridded_data.coord_dims(x_coord) < gridded_data.coord_dims(y_coord) else 'xy'
+    x, y = np.meshgrid(x_coord.points, y_coord.points, indexing=indexing)
     return _get_indices_for_lat_lon_points(x.flat, y.flat, region)
-- 
2.43.0


From 3e6b55fd901ba6b407e60795b1755b584425ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 07/67] fix: subsetting a list of ungridded data by shape, or
 to no points

---
 cis/subsetting/subset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 28494b9..e224646 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -198,12 +198,18 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             # so we can just call this method recursively if we've got a list of data.
             output = UngriddedDataList()
             for var in data:
-                output.append(self.constrain(var))
+                subsetted = self.constrain(var)
+                if subsetted is None:
+                    # The coordinates are shared, so there are no points left for any of the variables
+                    return None
+                output.append(subsetted)
             return output
 
         _data = self._create_data_for_subset(data)
 
-        _shape = self._limits.pop('shape', None)
+        # Keep hold of the shape since it applies to each of the variables when subsetting a list
+        self._shape = self._limits.pop('shape', self._shape)
+        _shape = self._shape
 
         if self._combined_mask is None:
             # Create the combined mask across all limits
-- 
2.43.0


From e847e16ba16dc302c542d72a1a8ac994c7437f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 08/67] fix: subsetting with only one of the datetime limits

---
 cis/subsetting/subset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index e224646..e5ebcb5 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -1,4 +1,5 @@
 from abc import ABCMeta, abstractmethod
+from datetime import datetime
 import six
 import logging
 
@@ -64,6 +65,12 @@ def subset(data, constraint, **kwargs):
         limit_start = l.start if l.start is not None else c.points.min()
         limit_end = l.stop if l.stop is not None else c.points.max()
 
+        # If only one of the limits was given as a datetime the default needs to be comparable to it
+        if l.start is None and isinstance(l.stop, datetime):
+            limit_start = c.units.num2pydate(limit_start)
+        elif l.stop is None and isinstance(l.start, datetime):
+            limit_end = c.units.num2pydate(limit_end)
+
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
     subset_constraint = constraint(constraints)
-- 
2.43.0


From da787b66896326106662f0eb066eba922e570e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 09/67] fix: keep points on the edge of the longitude range
 when subsetting across the two conventions

---
 cis/subsetting/subset.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index e5ebcb5..e9e5597 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -274,15 +274,13 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                     # i.e. data is in the range -180 -> 180
                     # Only convert the data if the limits are above 180:
                     if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to 0 -> 360
-                        range_start = 0
-                        coord.set_longitude_range(range_start)
+                        # Convert data from -180 -> 180 to the convention of the limits
+                        coord.set_longitude_range(limit.start)
                 elif data_above_180 and not data_below_zero:
                     # i.e. data is in the range 0 -> 360
                     if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to -180 -> 180
-                        range_start = -180
-                        coord.set_longitude_range(range_start)
+                        # Convert data from 0 -> 360 to the convention of the limits
+                        coord.set_longitude_range(limit.start)
         return data
 
 
-- 
2.43.0


From 5ff19225db2601094333c310660d2556592f5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 10/67] fix: subsetting to a shape which contains no points

---
 cis/subsetting/subset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index e9e5597..dacc5bd 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -292,7 +292,7 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
     # Performance in this loop might be an issue, but I think it's essentially how GeoPandas does it. If I want to
     #  improve it I might need to look at using something like rtree.
-    return [i for i, p in enumerate(points.geoms) if region.contains(p)]
+    return np.array([i for i, p in enumerate(points.geoms) if region.contains(p)], dtype=int)
 
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
-- 
2.43.0


From 5075d88cf853a1c7aedc482f9eed46727c437674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 11/67] fix: subsetting ungridded longitudes over limits
 outside of, or across, the convention of the data

---
 cis/subsetting/subset.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index dacc5bd..98ad340 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -253,6 +253,7 @@ class UngriddedSubsetConstraint(SubsetConstraint):
         :return:
         """
         from cis.exceptions import CoordinateNotFoundError
+        from cis.utils import fix_longitude_range
         # We need a copy with new data and coordinates
         data = data.copy()
         # Check for longitude coordinate in the limits
@@ -263,24 +264,9 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                 # E.g. shape...
                 continue
             if coord.standard_name == 'longitude':
-                coord_min = coord.points.min()
-                coord_max = coord.points.max()
-                data_below_zero = coord_min < 0
-                data_above_180 = coord_max > 180
-                limits_below_zero = limit.start < 0 or limit.stop < 0
-                limits_above_180 = limit.start > 180 or limit.stop > 180
-
-                if data_below_zero and not data_above_180:
-                    # i.e. data is in the range -180 -> 180
-                    # Only convert the data if the limits are above 180:
-                    if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to the convention of the limits
-                        coord.set_longitude_range(limit.start)
-                elif data_above_180 and not data_below_zero:
-                    # i.e. data is in the range 0 -> 360
-                    if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to the convention of the limits
-                        coord.set_longitude_range(limit.start)
+                # Longitude is circular, so map any points which aren't already inside the limits onto their convention
+                outside = ~((coord.points >= limit.start) & (coord.points <= limit.stop))
+                coord.data = np.where(outside, fix_longitude_range(coord.points, limit.start), coord.points)
         return data
 
 
-- 
2.43.0


From c402ad9b55e51dcd5903dcb75fa3faa604961dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 12/67] fix: a horizontal separation of zero must restrict
 collocation rather than be ignored

---
 cis/collocation/col_implementations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3267b57..b4d7368 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -308,7 +308,7 @@ class SepConstraintKdtree(PointConstraint):
         return np.concatenate([lesser_pressures, greater_pressures])
 
     def constrain_points(self, ref_point, data):
-        if self.haversine_distance_kd_tree_index and self.h_sep:
+        if self.haversine_distance_kd_tree_index and self.h_sep is not None:
             point_indices = self._get_cached_indices(ref_point)
             if point_indices is None:
                 point_indices = self.haversine_distance_kd_tree_index.find_points_within_distance(ref_point, self.h_sep)
@@ -336,7 +336,7 @@ class SepConstraintKdtree(PointConstraint):
 
         indices = False
 
-        if self.haversine_distance_kd_tree_index and self.h_sep:
+        if self.haversine_distance_kd_tree_index and self.h_sep is not None:
             indices = self.haversine_distance_kd_tree_index.find_points_within_distance_sample(points, self.h_sep)
 
         for i, p in points.iterrows():
-- 
2.43.0


From 91036ae6ca649d316ff9a3b5ebd27d7ba3bb26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 13/67] fix: bounds on the distance between rectangles used by
 queries between two k-d trees

---
 cis/collocation/kdtree.py | 41 ++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 5336c24..d1e4a22 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -397,27 +397,50 @@ class RectangleHaversine(RectangleBase):
 
     def min_distance_rectangle(self, other):
         """
-        Compute the minimum distance between points in the two hyperrectangles.
+        Compute a lower bound on the distance between points in the two rectangles.
 
         :param other: hyperrectangle
             Input.
-        :param p: float
-            Input.
-
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(0, np.maximum(self.mins - other.maxes, other.mins - self.maxes)))
+        lat_diff = max(0.0, self.mins[0] - other.maxes[0], other.mins[0] - self.maxes[0])
+        sin2_lat = math.sin(math.radians(lat_diff) / 2.0) ** 2
+        sin2_lon = self._sin2_half_longitude_differences(other)[0]
+        coslat1 = max(0.0, math.cos(math.radians(max(abs(self.mins[0]), abs(self.maxes[0])))))
+        coslat2 = max(0.0, math.cos(math.radians(max(abs(other.mins[0]), abs(other.maxes[0])))))
+        return 2.0 * RADIUS_EARTH * math.asin(math.sqrt(min(1.0, sin2_lat + coslat1 * coslat2 * sin2_lon)))
 
     def max_distance_rectangle(self, other):
         """
-        Compute the maximum distance between points in the two hyperrectangles.
+        Compute an upper bound on the distance between points in the two rectangles.
 
         :param other: hyperrectangle
             Input.
-        :param p: float, optional
-            Input.
+        :return: distance in kilometres
+        """
+        lat_diff = max(self.maxes[0] - other.mins[0], other.maxes[0] - self.mins[0])
+        sin2_lat = math.sin(math.radians(lat_diff) / 2.0) ** 2
+        sin2_lon = self._sin2_half_longitude_differences(other)[1]
+        coslat1 = max(0.0, math.cos(math.radians(max(0.0, self.mins[0], -self.maxes[0]))))
+        coslat2 = max(0.0, math.cos(math.radians(max(0.0, other.mins[0], -other.maxes[0]))))
+        return 2.0 * RADIUS_EARTH * math.asin(math.sqrt(min(1.0, sin2_lat + coslat1 * coslat2 * sin2_lon)))
+
+    def _sin2_half_longitude_differences(self, other):
+        """
+        Range of the squared sine of half of the difference in longitude between points in the two rectangles,
+        allowing for longitude circularity.
 
+        :param other: hyperrectangle
+            Input.
+        :return: smallest and largest values
         """
-        return haversine_distance([0.0, 0.0], np.maximum(self.maxes - other.mins, other.maxes - self.mins))
+        diff_min = other.mins[1] - self.maxes[1]
+        diff_max = other.maxes[1] - self.mins[1]
+        ends = [math.sin(math.radians(diff) / 2.0) ** 2 for diff in (diff_min, diff_max)]
+        # The value is zero at whole turns and one half way between these
+        sin2_min = 0.0 if math.floor(diff_max / 360.0) >= diff_min / 360.0 else min(ends)
+        sin2_max = 1.0 if math.floor((diff_max - 180.0) / 360.0) >= (diff_min - 180.0) / 360.0 else max(ends)
+        return sin2_min, sin2_max
 
 
 class KDTree(object):
-- 
2.43.0


From b20cc5c2619a336ab696ec60d1a8236dce7aed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 14/67] fix: distance between a point and a rectangle whose
 longitudes are in different conventions

---
 cis/collocation/kdtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index d1e4a22..bb0ec08 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -311,7 +311,7 @@ class RectangleHaversine(RectangleBase):
         lat0 = point[0]
         # Shift point longitude to be within pi of rectangle mid-longitude.
         range_start = (rect_lon_min + rect_lon_max) / 2.0 - PI
-        lon0 = np.fmod(point[1] - range_start, TWO_PI) + range_start
+        lon0 = np.mod(point[1] - range_start, TWO_PI) + range_start
 
         inside = False
 
-- 
2.43.0


From dfc5d96dce84efdc604db4d6289cd6deb3e8a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 15/67] fix: nearest neighbour queries of the haversine k-d
 tree compared degrees with kilometres

---
 cis/collocation/kdtree.py | 66 +++++++++------------------------------
 1 file changed, 14 insertions(+), 52 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index bb0ec08..7a115f7 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1199,40 +1199,22 @@ class HaversineDistanceKDTree(KDTree):
 
     def _query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf):
 
-        metric = np.array([1.0] * x.size)
-        metric[1] = math.cos(x[1] * math.pi / 180.0)
-        side_distances = np.maximum(0, np.maximum(x - self.maxes, self.mins - x)) * metric
-        if p != np.inf:
-            side_distances **= p
-            min_distance = np.sum(side_distances)
-        else:
-            min_distance = np.amax(side_distances)
-
         # priority queue for chasing nodes
         # entries are:
         #  minimum distance between the cell and the target
-        #  distances between the nearest side of the cell and the target
         #  the head node of the cell
-        q = [(min_distance,
-              tuple(side_distances),
-              self.tree)]
+        #  the rectangle of the cell
+        rect = RectangleHaversine(self.maxes, self.mins)
+        q = [(rect.min_distance_point(x), self.tree, rect)]
         # priority queue for the nearest neighbors
         # furthest known neighbor first
-        # entries are (-distance**p, i)
+        # entries are (-distance, i)
         neighbors = []
 
-        if eps == 0:
-            epsfac = 1
-        elif p == np.inf:
-            epsfac = 1 / (1 + eps)
-        else:
-            epsfac = 1 / (1 + eps) ** p
-
-        if p != np.inf and distance_upper_bound != np.inf:
-            distance_upper_bound = distance_upper_bound ** p
+        epsfac = 1 / (1. + eps)
 
         while q:
-            min_distance, side_distances, node = heappop(q)
+            min_distance, node, rect = heappop(q)
             if isinstance(node, HaversineDistanceKDTree.leafnode):
                 # brute-force
                 data = self.data[node.idx]
@@ -1251,35 +1233,15 @@ class HaversineDistanceKDTree(KDTree):
                 if min_distance > distance_upper_bound * epsfac:
                     # since this is the nearest cell, we're done, bail out
                     break
-                # compute minimum distances to the children and push them on
-                if x[node.split_dim] < node.split:
-                    near, far = node.less, node.greater
-                else:
-                    near, far = node.greater, node.less
-
-                # near child is at the same distance as the current node
-                heappush(q, (min_distance, side_distances, near))
-
-                # far child is further by an amount depending only
-                # on the split value
-                sd = list(side_distances)
-                if p == np.inf:
-                    min_distance = max(min_distance, abs(node.split - x[node.split_dim]))
-                elif p == 1:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim])
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-                else:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim]) ** p
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-
-                # far child might be too far, if so, don't bother pushing it
-                if min_distance <= distance_upper_bound * epsfac:
-                    heappush(q, (min_distance, tuple(sd), far))
+                # compute minimum distances to the children and push them on,
+                # unless they are too far
+                less, greater = rect.split(node.split_dim, node.split)
+                for child, child_rect in ((node.less, less), (node.greater, greater)):
+                    min_distance = child_rect.min_distance_point(x)
+                    if min_distance <= distance_upper_bound * epsfac:
+                        heappush(q, (min_distance, child, child_rect))
 
-        if p == np.inf:
-            return sorted([(-d, i) for (d, i) in neighbors])
-        else:
-            return sorted([((-d) ** (1. / p), i) for (d, i) in neighbors])
+        return sorted([(-d, i) for (d, i) in neighbors])
 
     def query_ball_tree(self, other, r, p=2., eps=0):
         """Find all pairs of points whose distance is at most r
-- 
2.43.0


From 10f29da06b541261b287c4d85d462aca5924ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 16/67] fix: k-d tree of no points (collocation of data without
 any valid values)

---
 cis/collocation/kdtree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 7a115f7..2c6b6b9 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1188,8 +1188,11 @@ class HaversineDistanceKDTree(KDTree):
         self.leafsize = int(leafsize)
         if self.leafsize < 1:
             raise ValueError("leafsize must be at least 1")
-        self.maxes = np.amax(self.data, axis=0)
-        self.mins = np.amin(self.data, axis=0)
+        if self.n > 0:
+            self.maxes = np.amax(self.data, axis=0)
+            self.mins = np.amin(self.data, axis=0)
+        else:
+            self.maxes = self.mins = np.zeros(self.m)
 
         indices = np.arange(self.n)
         if mask is not None:
-- 
2.43.0


From 98f3e1b360cafba04e843bbf882ac0d5e9876ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 17/67] fix: binning into grids with decreasing coordinates or
 gaps between cells

---
 cis/collocation/data_index.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index a80c080..488ccdb 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -45,7 +45,7 @@ class GridCellBinIndexInSlices(object):
         coord_descreasing = [False] * len(coords)
         coord_lengths = [0] * len(coords)
         lower_bounds = [None] * len(coords)
-        max_bounds = [None] * len(coords)
+        upper_bounds = [None] * len(coords)
         for (hpi, ci, shi) in coord_map:
             coord = coords[ci]
             # Coordinates must be monotonic; determine whether increasing or decreasing.
@@ -53,12 +53,12 @@ class GridCellBinIndexInSlices(object):
                 if coord.points[1] < coord.points[0]:
                     coord_descreasing[shi] = True
             coord_lengths[shi] = len(coord.points)
+            # The bounds of the cells in increasing order (the bounds of a decreasing coordinate may run either way)
+            lower_bounds[shi] = np.min(coord.bounds, axis=1)
+            upper_bounds[shi] = np.max(coord.bounds, axis=1)
             if coord_descreasing[shi]:
-                lower_bounds[shi] = coord.bounds[::-1, 1]
-                max_bounds[shi] = coord.bounds[0, 1]
-            else:
-                lower_bounds[shi] = coord.bounds[::, 0]
-                max_bounds[shi] = coord.bounds[-1, 1]
+                lower_bounds[shi] = lower_bounds[shi][::-1]
+                upper_bounds[shi] = upper_bounds[shi][::-1]
 
             hp_coord = hyper_points.coords[hpi]
             if isinstance(hp_coord[0], datetime.datetime):
@@ -66,25 +66,24 @@ class GridCellBinIndexInSlices(object):
 
             hp_coords.append(hp_coord)
 
-        bounds_coords_max = list(zip(lower_bounds, hp_coords, max_bounds))
+        bounds_coords = list(zip(lower_bounds, hp_coords, upper_bounds))
 
         # stack for each coordinate
-        #    where the coordinate is larger than the maximum set to -1
-        #    otherwise search in the sorted coordinate to find all the index of the hyperpoints
+        #    search in the sorted lower bounds to find all the index of the hyperpoints
+        #    where the coordinate isn't below the upper bound of that cell set to -1
         # The choice of 'left' or 'right' and '<' and '<=' determines which
         #  cell is chosen when the coordinate is equal to the boundary.
-        # -1 or M_i indicates the point is outside the grid.
+        # -1 indicates the point is outside the grid.
         # Output is a list of coordinates which lists the indexes where the hyper points
         #    should be located in the grid
-        indices = np.vstack(
-            [np.where(
-                 ci < max_coordinate_value,
-                 np.searchsorted(bi, ci, side='right') - 1,
-                 -1)
-             for bi, ci, max_coordinate_value in bounds_coords_max])
+        indices = []
+        for lower, ci, upper in bounds_coords:
+            index = np.searchsorted(lower, ci, side='right') - 1
+            indices.append(np.where(ci < upper[index], index, -1))
+        indices = np.vstack(indices)
 
         # D-tuple giving the shape of the output grid
-        grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords_max)
+        grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords)
 
         # shape (N,) telling which points actually fall within the grid,
         # i.e. have indexes that are not -1 and are not masked data points
-- 
2.43.0


From 9c3dca692f0dfc0436e3e0b56ab2667bb85eed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 18/67] fix: views of the points of ungridded data without
 latitudes

---
 cis/data_io/hyperpoint_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8238e06..a3f55ad 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -71,7 +71,7 @@ class UngriddedHyperPointView(HyperPointView):
         self.data = data
         self.coords = coords
         # Data and all coordinates should have the same size.
-        self.length = coords[0].size
+        self.length = next(c.size for c in coords if c is not None)
         self.non_masked_iteration = non_masked_iteration
 
     def __getitem__(self, item):
-- 
2.43.0


From 768105daf9b5483857a9c9bac797e6f49b72f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 19/67] fix: binning of longitudes into cells across the start
 of the longitude convention

---
 cis/collocation/col_implementations.py | 5 ++++-
 cis/data_io/hyperpoint_view.py         | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index b4d7368..5a465cd 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -822,7 +822,10 @@ class GeneralGriddedCollocator(Collocator):
             shape.append(coord.shape[0])
             output_coords.append(coord)
 
-        _fix_longitude_range(coords, data_points)
+        # Put the longitudes of the data within the turn which starts at the edge of the grid, so that they fall in its cells
+        for coord in output_coords:
+            if coord.standard_name == 'longitude' and np.all(np.isfinite(coord.bounds)):
+                data_points.set_longitude_range(coord.bounds.min())
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index a3f55ad..d2eb6be 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -158,11 +158,7 @@ class UngriddedHyperPointView(HyperPointView):
         if self.longitude is None:
             return
 
-        range_end = range_start + 360.0
-
-        longitudes = self.coords[HyperPoint.LONGITUDE]
-        longitudes = np.where(longitudes < range_start, longitudes + 360, longitudes)
-        self.coords[HyperPoint.LONGITUDE] = np.where(longitudes >= range_end, longitudes - 360, longitudes)
+        self.coords[HyperPoint.LONGITUDE] = cis.utils.fix_longitude_range(self.longitude, range_start)
 
     @property
     def vals(self):
-- 
2.43.0


From e6b11365b1fae023958c21527af16f6b0440f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 20/67] fix: looking up a missing coordinate of data with a
 single coordinate returned that coordinate

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 929da80..c00b268 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -244,7 +244,7 @@ class CoordList(list):
         from cis.exceptions import CoordinateNotFoundError
         coords = self.get_coords(name_or_coord=name_or_coord, standard_name=standard_name, long_name=long_name,
                                  attributes=attributes, axis=axis, var_name=var_name)
-        if len(coords) == 0:  # If we found none by name, try with standard name only
+        if len(coords) == 0 and name_or_coord is not None:  # If we found none by name, try with standard name only
             coords = self.get_coords(standard_name=name_or_coord)
 
         if len(coords) > 1:
-- 
2.43.0


From 703ac842dd63d488eb596e33338fb1a7a3dea83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 21/67] fix: use the variable name and units asked for in
 ungridded collocation

---
 cis/collocation/col_implementations.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 5a465cd..99f1308 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -65,12 +65,8 @@ class GeneralUngriddedCollocator(Collocator):
         logging.info("--> Collocating...")
 
         # Create output arrays.
-        self.var_name = data.var_name
-        self.var_long_name = data.long_name
-        self.var_standard_name = data.standard_name
-        self.var_units = data.units
-        var_set_details = kernel.get_variable_details(self.var_name, self.var_long_name,
-                                                      self.var_standard_name, self.var_units)
+        var_set_details = kernel.get_variable_details(self.var_name or data.var_name, self.var_long_name or data.long_name,
+                                                      data.standard_name, self.var_units or data.units)
 
         sample_points_count = len(sample_points)
         # Create an empty masked array to store the collocated values. The elements will be unmasked by assignment.
-- 
2.43.0


From b1071620b15f234a756ee75047228911449fb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 22/67] fix: missing samples and data without valid values in
 nn_horizontal_only collocation

---
 cis/collocation/col_implementations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 99f1308..ff58fd0 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -79,8 +79,11 @@ class GeneralUngriddedCollocator(Collocator):
 
         if isinstance(kernel, nn_horizontal_only):
             # Only find the nearest point using the kd-tree, without constraint in other dimensions
-            nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
-            values[0, :] = nearest_points.vals.values
+            if len(data_points) > 0:
+                nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
+                values[0, :] = nearest_points.vals.values
+            if self.missing_data_for_missing_sample and 'vals' in sample_points:
+                values[0, np.isnan(sample_points.vals.values)] = np.ma.masked
         else:
             for i, point, con_points in constraint.get_iterator(self.missing_data_for_missing_sample, None, None,
                                                                 data_points, None, sample_points, None):
-- 
2.43.0


From 90edf558476ff317b15206f85a9972ee456433d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 23/67] fix: keep missing values at the end of circular
 longitudes in gridded to ungridded collocation

---
 cis/collocation/gridded_interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index dc234c2..46e93e1 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -39,9 +39,9 @@ def extend_circular_data(data, coord_dim):
     coord_slice_in_cube = [slice(None)] * data.ndim
     coord_slice_in_cube[coord_dim] = slice(0, 1)
 
-    data = np.append(data,
-                     data[tuple(coord_slice_in_cube)],
-                     axis=coord_dim)
+    # Keep any mask (which np.append would drop)
+    data = np.ma.concatenate((data, data[tuple(coord_slice_in_cube)]), axis=coord_dim) if np.ma.isMaskedArray(data) \
+        else np.append(data, data[tuple(coord_slice_in_cube)], axis=coord_dim)
     return data
 
 
-- 
2.43.0


From 8703cb5f4891352da53724ae5fa8042e0b74526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 24/67] fix: sample circular grids at longitudes before their
 first longitude

---
 cis/collocation/gridded_interpolation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 46e93e1..9522b32 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -59,7 +59,7 @@ class GriddedUngriddedInterpolator(object):
         :param str method: The interpolation method to use (either 'linear' or 'nearest'). Default is 'linear'.
         """
         from cis.utils import move_item_to_end
-        coords = []
+        sample_points = []
         grid_points = []
         self._circular_coord_dims = []
         self._decreasing_coord_dims = []
@@ -80,10 +80,10 @@ class GriddedUngriddedInterpolator(object):
         # Remove any tuples in the list that do not correspond to a dimension coordinate in the cube 'data'.
         for coord in data.coords(dim_coords=True):
             if len(sample.coords(standard_name=coord.name())) > 0:
-                coords.append(coord.name())
                 # The circular coord must be a dim coord so we pop the value out of the tuple
                 coord_dim = data.coord_dims(coord)[0]
                 coord_points = coord.points
+                coord_sample = sample.coord(coord.name()).data_flattened
 
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
@@ -94,10 +94,12 @@ class GriddedUngriddedInterpolator(object):
                 if getattr(coord, 'circular', False):
                     self._circular_coord_dims.append(coord_dim)
                     coord_points = extend_circular_coord(coord, coord_points)
+                    # Samples before the first point are between the last point and the first
+                    coord_sample = np.where(coord_sample < coord_points[0],
+                                            coord_sample + (coord.units.modulus or 0), coord_sample)
 
                 grid_points.append(coord_points)
-
-        sample_points = [sample.coord(c).data_flattened for c in coords]
+                sample_points.append(coord_sample)
 
         if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
             hybrid_dims = data.coord_dims(data.coord('altitude'))
-- 
2.43.0


From bd43f802c393f49666ae6e3725b151695bcc981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 25/67] fix: gridded to ungridded collocation from grids with
 decreasing coordinates

---
 cis/collocation/gridded_interpolation.py | 47 ++++++++++++++----------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 9522b32..b8785d0 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -88,7 +88,7 @@ class GriddedUngriddedInterpolator(object):
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
                 if decreasing:
-                    self._decreasing_coord_dims.append(decreasing)
+                    self._decreasing_coord_dims.append(coord_dim)
                     coord_points = coord_points[::-1]
 
                 if getattr(coord, 'circular', False):
@@ -102,18 +102,10 @@ class GriddedUngriddedInterpolator(object):
                 sample_points.append(coord_sample)
 
         if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
-            hybrid_dims = data.coord_dims(data.coord('altitude'))
-            hybrid_coord = data.coord('altitude').points
-            for coord_dim in self._circular_coord_dims:
-                # Lookup the dimension on the hybrid data array
-                hybrid_coord_dim = hybrid_dims.index(coord_dim)
-                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_coord_dim)
+            hybrid_coord, hybrid_dims = self._get_hybrid_points(data, 'altitude')
             sample_points.append(sample.coord(standard_name="altitude").data_flattened)
         elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
-            hybrid_coord = data.coord('air_pressure').points
-            for coord_dim in self._circular_coord_dims:
-                hybrid_coord = extend_circular_data(hybrid_coord, coord_dim)
-            hybrid_dims = data.coord_dims(data.coord('air_pressure'))
+            hybrid_coord, hybrid_dims = self._get_hybrid_points(data, 'air_pressure')
             sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
         else:
             hybrid_coord = None
@@ -133,6 +125,21 @@ class GriddedUngriddedInterpolator(object):
         self._interp = _RegularGridInterpolator(grid_points, sample_points,
                                                 hybrid_coord=hybrid_coord, hybrid_dims=hybrid_dims, method=method)
 
+    def _get_hybrid_points(self, data, name):
+        """
+        Return the points of a hybrid coordinate, in the same order (and extended in the same way) as the coordinates of
+        the grid, and the dimensions it is defined over
+        """
+        hybrid_dims = data.coord_dims(data.coord(name))
+        hybrid_points = data.coord(name).points
+        # Lookup the dimensions on the hybrid data array
+        hybrid_points = self._invert_dims(hybrid_points, [hybrid_dims.index(d) for d in self._decreasing_coord_dims
+                                                          if d in hybrid_dims])
+        for coord_dim in self._circular_coord_dims:
+            if coord_dim in hybrid_dims:
+                hybrid_points = extend_circular_data(hybrid_points, hybrid_dims.index(coord_dim))
+        return hybrid_points, hybrid_dims
+
     def _get_dims_order(self, data, coords):
         """
         Return the dims with the vertical coord last. There must be a nicer way of doing this...
@@ -144,12 +151,15 @@ class GriddedUngriddedInterpolator(object):
         self._data_transpose.pop(vertical_dim)
         self._data_transpose.append(vertical_dim)
 
-    def _account_for_inverted(self, data):
+    @staticmethod
+    def _invert_dims(data, dims):
         dim_slices = [slice(None)] * data.ndim
-        for dim in self._decreasing_coord_dims:
-                dim_slices[dim] = slice(-1, None, -1)
-        data = data[tuple(dim_slices)]
-        return data
+        for dim in dims:
+            dim_slices[dim] = slice(None, None, -1)
+        return data[tuple(dim_slices)]
+
+    def _account_for_inverted(self, data):
+        return self._invert_dims(data, self._decreasing_coord_dims)
 
     def __call__(self, data, fill_value=np.nan, extrapolate=False):
         """
@@ -168,12 +178,11 @@ class GriddedUngriddedInterpolator(object):
 
         # Apply a transpose if we need to so that the indices line-up correctly
         data_array = data.data.transpose(self._data_transpose)
-        # Account for any circular coords present
+        # Put any decreasing coords into increasing order first, and then extend the circular ones - as for the coords
+        data_array = self._account_for_inverted(data_array)
         for dim in self._circular_coord_dims:
             data_array = extend_circular_data(data_array, dim)
 
-        data_array = self._account_for_inverted(data_array)
-
         result = self._interp(data_array, fill_value=fill_value)
 
         if self.missing_mask is not None:
-- 
2.43.0


From e25379411e54ef4f59488226e7187b662028c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 26/67] fix: missing samples in gridded to ungridded
 collocation of data without a mask or coordinates without data

---
 cis/collocation/gridded_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index b8785d0..0fa7642 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -116,8 +116,8 @@ class GriddedUngriddedInterpolator(object):
                              "dimenions: {} and {} respectively".format(len(sample_points), len(data.shape)))
 
         # Check if we want to sample missing points
-        if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
-            self.missing_mask = sample.data.mask.flatten()
+        if missing_data_for_missing_sample and isinstance(getattr(sample, 'data', None), np.ma.MaskedArray):
+            self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
             self.missing_mask = None
-- 
2.43.0


From 201a3a48dec7b3907f481c2f3927bdee26cb5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 27/67] fix: find the vertical index in columns which decrease

---
 cis/collocation/gridded_interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 0fa7642..329df0e 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -390,6 +390,10 @@ class _RegularGridInterpolator(object):
 
     @staticmethod
     def _find_vertical_index(point, coord):
+        if coord[-1] < coord[0]:
+            # Search the reversed (increasing) column, and refer the result to the original one
+            i, norm_distances, out_of_bounds = _RegularGridInterpolator._find_vertical_index(point, coord[::-1])
+            return coord.size - 2 - i, 1 - norm_distances, out_of_bounds
         i = np.searchsorted(coord, point) - 1
         if i < 0:
             i = 0
-- 
2.43.0


From 2a0877383d7863fe570ee4ccda9413740ea86328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 28/67] fix: pass extrapolate to the gridded to ungridded
 collocation

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 052d0ee..2c96594 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1243,7 +1243,7 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
     elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
         col = ci.GriddedUngriddedCollocator(fill_value=fill_value, var_name=var_name, var_long_name=var_long_name,
                                             var_units=var_units,
-                                            missing_data_for_missing_sample=missing_data_for_missing_sample)
+                                            missing_data_for_missing_sample=missing_data_for_missing_sample, **kwargs)
         con = None
         if how not in ['', 'lin', 'nn']:
             raise ValueError("Invalid method specified for gridded -> ungridded collocation: " + how)
-- 
2.43.0


From e57a0bbaf085ba36013b90fa54758668973418da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 29/67] fix: number of cells of aggregation grids whose limits
 or step are not exact in binary

---
 cis/aggregation/ungridded_aggregator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 6f356e9..b15da53 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -142,7 +142,9 @@ class UngriddedAggregator(object):
 
 def aggregation_grid_array(start, end, delta):
     from cis.time_util import cis_standard_time_unit
-    new_grid = np.arange(start + delta / 2, end + delta / 2, delta)
+    # The number of cells needed to reach the end (allowing for the rounding of limits which aren't exact in binary)
+    n_cells = int(np.ceil(np.round((end - start) / delta, 6)))
+    new_grid = start + delta / 2 + np.arange(n_cells) * delta
     if 'datetime64' in str(new_grid.dtype):
         # This goes via datetimes with all the associated overheads but is probably safer than doing it manually
         new_grid = cis_standard_time_unit.date2num(new_grid.astype(datetime))
-- 
2.43.0


From 552efcb8897f72225fd6b82217a8710078057c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 30/67] fix: gridded collapse of a coordinate which doesn't
 span the leading dimensions

The dimensions being collapsed are those of the data, but were used as if they were those of the coordinate.
---
 cis/aggregation/gridded_collapsor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index c1c9ebc..850a780 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -107,7 +107,9 @@ class GriddedCollapsor(object):
         new_data = iris.cube.Cube.collapsed(data_for_collapse, self.coords, kernel, **ag_args)
 
         for coord, old_dims in coords_for_partial_collapse:
-            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, dims_to_collapse)
+            # The coordinate only spans some of the dimensions of the data, so map those being collapsed onto its own
+            local_dims = [old_dims.index(dim) for dim in dims_to_collapse if dim in old_dims]
+            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, local_dims)
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
-- 
2.43.0


From fdce54a31e0ad82d0a0231d6cb00ea2a216da8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 31/67] fix: rebuild derived coordinates from the right
 coordinates in a gridded collapse

A partially collapsed coordinate replaced whichever dependency of a factory happened to be missing, and factories which
can't do without it failed.
---
 cis/aggregation/gridded_collapsor.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index 850a780..e251477 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -57,14 +57,6 @@ class GriddedCollapsor(object):
 
         return new_dims
 
-    @staticmethod
-    def _update_aux_factories(data, *args, **kwargs):
-        from cis.utils import listify
-        d_list = listify(data)
-        for d in d_list:
-            for factory in d.aux_factories:
-                factory.update(*args, **kwargs)
-
     def _gridded_full_collapse(self, kernel):
         from copy import deepcopy
         from cis.exceptions import ClassNotFoundError
@@ -100,6 +92,14 @@ class GriddedCollapsor(object):
         #  when using a MultiKernel for which this routine gets called multiple times.
         data_for_collapse = deepcopy(self.data)
 
+        # Any factory which depends on one of these coordinates is taken off too, and rebuilt once they've been collapsed
+        factories_to_rebuild = []
+        for factory, factory_copy in zip(self.data.aux_factories, data_for_collapse.aux_factories):
+            if any(dependency is coord for dependency in factory.dependencies.values()
+                   for coord, _ in coords_for_partial_collapse):
+                factories_to_rebuild.append(factory)
+                data_for_collapse.remove_aux_factory(factory_copy)
+
         for coord, _ in coords_for_partial_collapse:
             data_for_collapse.remove_coord(coord)
 
@@ -113,9 +113,11 @@ class GriddedCollapsor(object):
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
-            # If the coordinate we had to collapse manually was a dependency in an aux factory (which is quite likely)
-            #  then we need to put it back in and fix the factory, this will update any missing dependencies.
-            self._update_aux_factories(new_data, None, collapsed_coord)
+
+        for factory in factories_to_rebuild:
+            new_data.add_aux_factory(factory.updated({id(dependency): new_data.coord(dependency.name())
+                                                      for dependency in factory.dependencies.values()
+                                                      if dependency is not None}))
 
         return new_data
 
-- 
2.43.0


From 8e82e049b7ec168859369bbbf5682aa8efb6c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 32/67] fix: keep dimension coordinates in their factories when
 guessing bounds for a gridded collapse

---
 cis/aggregation/gridded_collapsor.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index e251477..75ad26c 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -131,9 +131,6 @@ class GriddedCollapsor(object):
             if not coord.has_bounds() and len(coord.points) > 1:
                 coord.guess_bounds()
                 logging.warning("Creating guessed bounds as none exist in file")
-                new_coord_number = self.data.coord_dims(coord)
-                self.data.remove_coord(coord.name())
-                self.data.add_dim_coord(coord, new_coord_number)
 
         output = GriddedDataList([])
         if isinstance(kernel, MultiKernel):
-- 
2.43.0


From a54528e4a363a4a27b6e48633082aac6df498d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 33/67] fix: gridded collocation onto a sample with a scalar
 coordinate which isn't a DimCoord

---
 cis/collocation/col_implementations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index ff58fd0..0c14705 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -672,7 +672,11 @@ class GriddedCollocator(Collocator):
             # If the coordinate exists in the sample grid then append the new coordinate to the list. Iris requires
             # this be given as a DimCoord object, along with a axis number, in a tuple pair.
             if len(coord_found) != 0:
-                new_dim_coord_list.append((coord_found[0], len(new_dim_coord_list)))
+                # Scalar coordinates in the sample aren't necessarily DimCoords, but are a dimension of the new grid.
+                new_dim_coord = coord_found[0]
+                if not isinstance(new_dim_coord, iris.coords.DimCoord):
+                    new_dim_coord = iris.coords.DimCoord.from_coord(new_dim_coord)
+                new_dim_coord_list.append((new_dim_coord, len(new_dim_coord_list)))
                 new_points_array_shape.append(coord_found[0].points.size)
 
         new_points_array = np.zeros(tuple(new_points_array_shape))
-- 
2.43.0


From 5dae7b8719ecb73d4947923fa1096c847a7e5be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 34/67] fix: output mask of gridded collocation when only some
 of the sample dimensions are in the data

---
 cis/collocation/col_implementations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 0c14705..39d53d9 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -703,7 +703,8 @@ class GriddedCollocator(Collocator):
         output_mask = None
 
         # Construct the missing value mask from the sample data, if applicable.
-        if len(coord_names_and_sizes_for_sample_grid) < len(points.dim_coords):
+        output_coord_names = [name for name, _ in coord_names_and_sizes_for_sample_grid]
+        if any(coord.name() not in output_coord_names for coord in points.dim_coords):
             # One or more axes collapsed so many sample points correspond to each output point.
             pass
         else:
-- 
2.43.0


From a2b473d68adddd2bd5bde70f4e7b9fbd2928b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 35/67] fix: mask the fill and missing values of netCDF
 variables which are read

set_auto_maskandscale(False) turns the masking by _FillValue and missing_value
off as well, so that missing values came back as valid ones.
---
 cis/data_io/netcdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 9cca09b..c7fe5eb 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -259,9 +259,10 @@ def get_data(var):
     """
     import numpy as np
     import logging
-    # Turn off scaling and masking as we're a bit more lenient about the type of valid min/max.
-    var.set_auto_maskandscale(False)
-    # This will still automatically return a masked array based on _FillValue and missing_value
+    # Turn off scaling, as we're a bit more lenient about the type of valid min/max.
+    var.set_auto_scale(False)
+    # This will automatically return a masked array based on _FillValue and missing_value
+    var.set_auto_mask(True)
     data = var[:]
 
     if hasattr(var, 'valid_max'):
-- 
2.43.0


From 490451356a1824eb137d2769e8b3ff419a64e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 36/67] fix: scale integer netCDF values which have only a
 scale factor or an offset

The result of the scaling is not an integer, so it can't be done in place.
---
 cis/data_io/netcdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index c7fe5eb..05b4989 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -312,9 +312,9 @@ def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
         logging.debug("Applying 'data = data * {scale} + {offset}' transformation to data.".format(scale=scale_factor,
                                                                                                    offset=add_offset))
     elif scale_factor is not None and scale_factor != 1.0:
-        data *= scale_factor
-        logging.debug("Applying 'data *= {scale}' transformation to data.".format(scale=scale_factor))
+        data = data * scale_factor
+        logging.debug("Applying 'data = data * {scale}' transformation to data.".format(scale=scale_factor))
     elif add_offset is not None and add_offset != 0.0:
-        data += add_offset
-        logging.debug("Applying 'data += {offset}' transformation to data.".format(offset=add_offset))
+        data = data + add_offset
+        logging.debug("Applying 'data = data + {offset}' transformation to data.".format(offset=add_offset))
     return data
-- 
2.43.0


From 0ff98f5802b2f3c379c1fc6383c8dbf4fc3b74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 37/67] fix: numeric times given to HyperPoint.modified were
 ignored

---
 cis/data_io/hyperpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index ba3d765..6fb6a1b 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -64,7 +64,8 @@ class HyperPoint(namedtuple('HyperPoint', ['latitude', 'longitude', 'altitude',
             values[HyperPoint.AIR_PRESSURE] = pres
         if t is not None:
             if isinstance(t, datetime.datetime):
-                values[HyperPoint.TIME] = convert_datetime_to_std_time(t)
+                t = convert_datetime_to_std_time(t)
+            values[HyperPoint.TIME] = t
         if val is not None:
             if val == []:
                 values[HyperPoint.VAL] = []
-- 
2.43.0


From b931c859082df7fad573de64f1e6dc6f0232a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 38/67] fix: points of gridded data with dimensions other than
 the standard ones or of size one

---
 cis/data_io/hyperpoint_view.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index d2eb6be..e541164 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -238,8 +238,6 @@ class GriddedHyperPointView(HyperPointView):
             coord = self.coords[idx]
             if coord is not None:
                 val[self.dims_to_std_coords_map[idx]] = coord[coord_idx]
-            else:
-                val.append(None)
         if self.data is not None:
             val.append(self.data[indices])
         return HyperPoint(*val)
@@ -254,7 +252,7 @@ class GriddedHyperPointView(HyperPointView):
         """Iterates over all or non-masked points according to the value of non_masked_iteration
         :return: next HyperPoint
         """
-        shape = [c.size for c in self.coords if (c is not None and c.size > 1)]
+        shape = self.data.shape
         for idx in cis.utils.index_iterator(shape):
             if self.non_masked_iteration and self.data is not None and self.data[idx] is np.ma.masked:
                 continue
-- 
2.43.0


From 4811f4488c244b0163e297e552799d3da891d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 39/67] fix: dimensions of the standard coordinates of gridded
 data with dimensions without coordinate

---
 cis/data_io/gridded_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index fb40bce..18904c5 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -151,9 +151,9 @@ class GriddedData(iris.cube.Cube, CommonData):
         coords = self.coords(dim_coords=True)
         for name in HyperPoint.standard_names:
             coord_and_dim = None
-            for idx, coord in enumerate(coords):
+            for coord in coords:
                 if coord.standard_name == name:
-                    coord_and_dim = (coord, idx)
+                    coord_and_dim = (coord, self.coord_dims(coord)[0])
                     break
             ret_list.append(coord_and_dim)
 
-- 
2.43.0


From 9bbe56cf8deae3a4a8572633bea6cba1b0aedb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 40/67] fix: iteration over the non-masked points gave the
 masked ones too

---
 cis/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/utils.py b/cis/utils.py
index aca2489..bb8d55c 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -466,9 +466,10 @@ def index_iterator_for_non_masked_data(shape, points):
     cell_count = 0
     cell_total = 0
 
+    mask = np.ma.getmaskarray(points.data)
     it = np.nditer(points.data, flags=['multi_index'])
     while not it.finished:
-        if it[0] is not np.ma.masked:
+        if not mask[it.multi_index]:
             yield it.multi_index
 
         it.iternext()
-- 
2.43.0


From 2b17c07e3afbabcd6265d6bf96b8387065d09c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 41/67] fix: ungridded data with a missing time could not be
 created

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 2c96594..b6eb846 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -402,7 +402,7 @@ class LazyData(object):
                              cis_standard_time_unit.num2date(self.data.max()))
                 else:
                     range = (self.data.min(), self.data.max())
-            except ValueError as e:
+            except (ValueError, AttributeError):
                 # If we can't set a range for some reason then just leave it blank
                 range = ()
 
-- 
2.43.0


From c0ada4dae946d794203ba38984101aa2da560512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 42/67] fix: removing incomplete points must not alter other
 data which shares the coordinates

---
 cis/data_io/ungridded_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index b6eb846..05dbd4c 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -486,6 +486,9 @@ class UngriddedData(LazyData, CommonData):
                 logging.warning(
                     "Identified {n_points} point(s) which were missing values for some or all coordinates - "
                     "these points have been removed from the data.".format(n_points=n_points))
+                # Other data may share the coordinates, so they must keep their points
+                self._coords = self._coords.copy()
+                self._data_flattened = None
                 for coord in self._coords:
                     coord.data = numpy.ma.masked_array(coord.data.flatten(), mask=combined_mask).compressed()
                     coord.update_shape()
@@ -876,6 +879,8 @@ class UngriddedCoordinates(CommonData):
             n_points = numpy.count_nonzero(combined_mask)
             logging.warning("Identified {n_points} point(s) which were missing values for some or all coordinates - "
                             "these points have been removed from the data.".format(n_points=n_points))
+            # Other data may share the coordinates, so they must keep their points
+            self._coords = self._coords.copy()
             for coord in self._coords:
                 coord.data = numpy.ma.masked_array(coord.data_flattened, mask=combined_mask).compressed()
                 coord.update_shape()
-- 
2.43.0


From 9162e453c8d1145480548d26b0133803e2883c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 43/67] fix: hyper_point of ungridded data swapped the time and
 the pressure

---
 cis/data_io/ungridded_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 05dbd4c..2731d10 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -604,8 +604,8 @@ class UngriddedData(LazyData, CommonData):
         return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
                           self.coord(standard_name='longitude').data.flat[index],
                           self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
                           self.coord(standard_name='air_pressure').data.flat[index],
+                          self.coord(standard_name='time').data.flat[index],
                           self.data.flat[index])
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
@@ -939,8 +939,8 @@ class UngriddedCoordinates(CommonData):
         return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
                           self.coord(standard_name='longitude').data.flat[index],
                           self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
                           self.coord(standard_name='air_pressure').data.flat[index],
+                          self.coord(standard_name='time').data.flat[index],
                           None)
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
-- 
2.43.0


From a2969421e134c6bdb17bcce3ef3ef935c18a682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 44/67] fix: size of ungridded coordinates with a single
 coordinate

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 2731d10..43c9f44 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -897,7 +897,7 @@ class UngriddedCoordinates(CommonData):
 
     @property
     def size(self):
-        if len(self._coords) > 1:
+        if len(self._coords) > 0:
             return self._coords[0].data.size
         else:
             return 0
-- 
2.43.0


From 063f993da39b8d2f694640b283d403514f86acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 45/67] fix: data frames of ungridded data with more than one
 coordinate without a standard name

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 43c9f44..52b07e6 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1186,7 +1186,7 @@ def _coords_as_data_frame(coord_list, copy=True, time_index=True):
             else:
                 time = cis_standard_time_unit.num2date(data)
         else:
-            columns[coord.standard_name] = data
+            columns[coord.standard_name or coord.name()] = data
 
     return pd.DataFrame(columns, index=time)
 
-- 
2.43.0


From e8546fd5f7ab0e3f22d0d1c011c0bc09f4280e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:07 +0000
Subject: [PATCH 46/67] fix: the calendar of times was lost when CIS output was
 read

---
 cis/data_io/products/products.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 0f7ad5f..dd64524 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -18,6 +18,7 @@ class cis(AProduct):
         from cis.data_io.Coord import Coord, CoordList
         from cis.data_io.ungridded_data import UngriddedCoordinates, UngriddedData
         from cis.exceptions import InvalidVariableError
+        from cf_units import Unit
 
         # We have to read it once first to find out which variables are in there. We assume the set of coordinates in
         # all the files are the same
@@ -38,7 +39,11 @@ class cis(AProduct):
         var_data = read_many_files_individually(filenames, [v[0] for v in all_variables])
         for name, axis in coord_variables:
             try:
-                coords.append(Coord(var_data[name], get_metadata(var_data[name][0]), axis=axis))
+                metadata = get_metadata(var_data[name][0])
+                calendar = getattr(var_data[name][0], 'calendar', None)
+                if calendar and isinstance(metadata.units, Unit) and metadata.units.is_time_reference():
+                    metadata.units = Unit(str(metadata.units), calendar=calendar)
+                coords.append(Coord(var_data[name], metadata, axis=axis))
             except InvalidVariableError:
                 pass
 
-- 
2.43.0


From c6512bfc59200563b98edf2dc05396db555d143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:26 +0000
Subject: [PATCH 47/67] fix: the time of day of the reference was dropped when
 converting seconds since a reference

---
 cis/time_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index 24fe9d7..fba31d1 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -181,7 +181,7 @@ def convert_sec_since_to_std_time(seconds, ref):
     kwargs = {} if isinstance(seconds, np.ma.MaskedArray) else {'copy': False}
     days_since = seconds.astype(float, **kwargs) / (3600*24.0)
     offset = ref - cis_standard_time_unit.num2date(0)
-    return offset.days + days_since
+    return offset.total_seconds() / (3600*24.0) + days_since
 
 
 def convert_std_time_to_datetime(std_time):
-- 
2.43.0


From 80168e6c39b14c3b1bff25047b6a2f2416e95193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:26 +0000
Subject: [PATCH 48/67] fix: flattened data of a coordinate was kept when its
 times were converted

---
 cis/data_io/Coord.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index c00b268..a234003 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -62,11 +62,13 @@ class Coord(LazyData):
         # if not self.units.startswith("Julian Date"):
         #     raise ValueError("Time units must be Julian Date for conversion to an Object")
         self._data = convert_julian_date_to_std_time(self.data)
+        self._data_flattened = None
         self.units = cis_standard_time_unit
 
     def convert_TAI_time_to_std_time(self, ref):
         from cis.time_util import convert_sec_since_to_std_time, cis_standard_time_unit
         self._data = convert_sec_since_to_std_time(self.data, ref)
+        self._data_flattened = None
         self.units = cis_standard_time_unit
 
     def convert_to_std_time(self, time_stamp_info=None):
@@ -90,11 +92,13 @@ class Coord(LazyData):
                 raise ValueError("File must have time stamp info if converting without 'since' in units definition")
             self._data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
 
+        self._data_flattened = None
         self.units = cis_standard_time_unit
 
     def convert_datetime_to_standard_time(self):
         from cis.time_util import convert_datetime_to_std_time, cis_standard_time_unit
         self._data = convert_datetime_to_std_time(self.data)
+        self._data_flattened = None
         self.units = cis_standard_time_unit
 
     def convert_standard_time_to_datetime(self):
-- 
2.43.0


From 8ba35024cb54772e829d69bbe507fb6a98b9dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 49/67] fix: auxiliary time coordinates of gridded data could
 not be converted to standard time

---
 cis/time_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index fba31d1..6b8f7ea 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -215,6 +215,7 @@ def convert_cube_time_coord_to_standard_time(cube):
     t_coord = cube.coord(standard_name='time')
     data_dim = cube.coord_dims(t_coord)
     if len(data_dim) > 0:
+        is_dim_coord = t_coord in cube.coords(dim_coords=True)
         # And remove it from the cube
         cube.remove_coord(t_coord)
 
@@ -233,7 +234,10 @@ def convert_cube_time_coord_to_standard_time(cube):
         new_time_coord.units = cis_standard_time_unit
 
         # And add the new coordinate back into the cube
-        cube.add_dim_coord(new_time_coord, data_dim)
+        if is_dim_coord:
+            cube.add_dim_coord(new_time_coord, data_dim)
+        else:
+            cube.add_aux_coord(new_time_coord, data_dim)
 
     return cube
 
-- 
2.43.0


From bcd289c14a0ba44742352d9cff570184f50bb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:44 +0000
Subject: [PATCH 50/67] fix: integers, and flattened data, were left as they
 were when units were converted

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 52b07e6..4e9ffa0 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -422,7 +422,7 @@ class LazyData(object):
         if not isinstance(self.units, Unit):
             # If our units aren't cf_units then they can't be...
             raise ValueError("Unable to convert non-standard LazyData units: {}".format(self.units))
-        self.units.convert(self.data, new_units, inplace=True)
+        self.data = self.units.convert(self.data, new_units)
         self.units = new_units
 
 
-- 
2.43.0


From 3d6e2f2c4576bc0f496beb437d943e6103909a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 51/67] fix: the file of aerosol data with bad times could not
 be read

---
 cis/data_io/products/CCI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/CCI.py b/cis/data_io/products/CCI.py
index 9dbf4d7..c034666 100644
--- a/cis/data_io/products/CCI.py
+++ b/cis/data_io/products/CCI.py
@@ -150,7 +150,7 @@ class Aerosol_CCI_L3(NetCDF_Gridded):
             if "201101-ESACCI" in filename:
                 # Manually fix a bugged file
                 # (201101-ESACCI-L3C_AEROSOL-AER_PRODUCTS-AATSR-ENVISAT-ADV_MOTNHLY-v2.30.nc)
-                time_bounds = [convert_time_string_to_number(s, time_coord.units)
+                time_bounds = [convert_time_string_to_number(s, ESA_TIME_UNIT)
                                for s in ("20110101T000000Z", "20110131T235959Z")]
             else:
                 raise ValueError("Bad time_coverage attribute in {}".format(filename))
-- 
2.43.0


From 616c206640c4a758010122883f3f0dd5e53d0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:26 +0000
Subject: [PATCH 52/67] fix: times in units without a reference could not be
 combined with the time stamp of the file

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index a234003..e492204 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -83,7 +83,7 @@ class Coord(LazyData):
             convert_time_using_time_stamp_info_to_std_time, convert_datetime_to_std_time
         from cf_units import Unit
 
-        if isinstance(self.units, Unit):
+        if isinstance(self.units, Unit) and self.units.is_time_reference():
             self._data = convert_time_since_to_std_time(self.data, self.units)
         elif str(self.units).lower().startswith('datetime'):
             self._data = convert_datetime_to_std_time(self.data)
-- 
2.43.0


From 0aff1d1b994fb9cface8b89b58254094b93d4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 53/67] fix: arithmetic in place lost missing points and left
 integers as they were

---
 cis/maths.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/cis/maths.py b/cis/maths.py
index ba51fb2..fce84ac 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -79,8 +79,7 @@ def add(ungridded_data, other, in_place=False):
         An instance of :class:`cis.data_io.ungridded_data.LazyData`.
 
     """
-    op = operator.iadd if in_place else operator.add
-    return _add_subtract_common(op, ungridded_data, other, in_place=in_place)
+    return _add_subtract_common(operator.add, ungridded_data, other, in_place=in_place)
 
 
 def subtract(ungridded_data, other, in_place=False):
@@ -111,8 +110,7 @@ def subtract(ungridded_data, other, in_place=False):
         An instance of :class:`cis.data_io.ungridded_data.LazyData`.
 
     """
-    op = operator.isub if in_place else operator.sub
-    return _add_subtract_common(op, ungridded_data, other, in_place=in_place)
+    return _add_subtract_common(operator.sub, ungridded_data, other, in_place=in_place)
 
 
 def _add_subtract_common(operation_function, ungridded_data, other, in_place=False):
@@ -157,8 +155,7 @@ def multiply(ungridded_data, other, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
     other_unit = getattr(other, 'units', '1')
     new_unit = ungridded_data.units * other_unit
-    op = operator.imul if in_place else operator.mul
-    return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
+    return _binary_op_common(operator.mul, ungridded_data, other, new_unit, in_place=in_place)
 
 
 def divide(ungridded_data, other, in_place=False):
@@ -181,9 +178,9 @@ def divide(ungridded_data, other, in_place=False):
     other_unit = getattr(other, 'units', '1')
     new_unit = ungridded_data.units / other_unit
     try:
-        op = operator.idiv if in_place else operator.div
+        op = operator.div
     except AttributeError:
-        op = operator.itruediv if in_place else operator.truediv
+        op = operator.truediv
     return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
 
 
@@ -379,15 +376,14 @@ def _binary_op_common(operation_function, ungridded_data, other, new_unit, in_pl
 
 def _math_op_common(ungridded_data, operation_function, new_unit, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
+    # The operation isn't asked to work on the array in place, as the result might need a mask or a data type which that
+    #  array doesn't have
+    new_data = operation_function(ungridded_data.data)
     if in_place:
         new_ungridded_data = ungridded_data
-        try:
-            operation_function(new_ungridded_data.data, out=new_ungridded_data.data)
-        except TypeError:
-            # Non ufunc function
-            operation_function(new_ungridded_data.data)
+        new_ungridded_data.data = new_data
     else:
-        new_ungridded_data = ungridded_data.copy(data=operation_function(ungridded_data.data))
+        new_ungridded_data = ungridded_data.copy(data=new_data)
     new_ungridded_data.units = new_unit
     new_ungridded_data.add_history('Performed {op} operation'.format(op=operation_function.__name__))
     return new_ungridded_data
-- 
2.43.0


From 1ded2c10bc52a19ec090e5df75026fbef38e557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:11 +0000
Subject: [PATCH 54/67] fix: coordinates without a recorded shape could not be
 combined with arrays

---
 cis/maths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/maths.py b/cis/maths.py
index fce84ac..90098b3 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -325,10 +325,10 @@ def _assert_compatible(ungridded_data, other):
         raise ValueError("The array was not broadcastable to the cube's data "
                          "shape. The error message from numpy when "
                          "broadcasting:\n{}\nThe cube's shape was {} and the "
-                         "array's shape was {}".format(err, ungridded_data.shape,
-                                                       other.shape))
+                         "array's shape was {}".format(err, ungridded_data.data.shape,
+                                                       np.shape(other)))
 
-    if ungridded_data.shape != data_view.shape:
+    if ungridded_data.data.shape != data_view.shape:
         raise ValueError("The array operation would increase the "
                          "dimensionality of the cube. The new cube's data "
                          "would have had to become: {}".format(
-- 
2.43.0


From 6e371e9aa9eca8192630072ac9520f7f69477959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:17 +0000
Subject: [PATCH 55/67] fix: coordinates of evaluated data shared their
 metadata with those of the variables

---
 cis/data_io/ungridded_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 4e9ffa0..948cc16 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -521,11 +521,13 @@ class UngriddedData(LazyData, CommonData):
         metadata = Metadata(name=var_name, standard_name=standard_name,
                             long_name=long_name, history='', units=units)
         if flatten:
+            from copy import deepcopy
             from cis.data_io.Coord import Coord
             data = data.flatten()
             new_coords = []
             for coord in self._coords:
-                new_coords.append(Coord(coord.data_flattened, coord.metadata, coord.axis))
+                # The metadata describe the new coordinate only, if e.g. its units are converted
+                new_coords.append(Coord(coord.data_flattened, deepcopy(coord.metadata), coord.axis))
         else:
             new_coords = self._coords
         ug_data = UngriddedData(data=data, metadata=metadata, coords=new_coords)
-- 
2.43.0


From aaf137ddf0a2c2f50d1f50dc331e3030b1a9e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:03 +0000
Subject: [PATCH 56/67] fix: differences of unsigned integers wrapped around in
 statistical comparisons

---
 cis/stats.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cis/stats.py b/cis/stats.py
index 176bb27..d8d503f 100644
--- a/cis/stats.py
+++ b/cis/stats.py
@@ -308,11 +308,21 @@ class StatsAnalyzer(object):
         self._var_name_2 = data2.var_name
         # Flatten the data, so that data of different shapes but same overall size can be compared (e.g. the case where
         # you have collocated some data).
-        self._data1 = data1.data.flatten()
-        self._data2 = data2.data.flatten()
+        self._data1 = self._as_numbers(data1.data.flatten())
+        self._data2 = self._as_numbers(data2.data.flatten())
         # Keep a record of whether we have already combined the masks so that we don't unnecessarily repeat it
         self._masks_combined = False
 
+    @staticmethod
+    def _as_numbers(data):
+        """
+        The difference of integers needn't fit into their type, in particular if they are unsigned
+
+        :param data: Array of data
+        :return: The same array, as floating point numbers if it is an array of integers
+        """
+        return data.astype(float) if numpy.issubdtype(data.dtype, numpy.integer) else data
+
     def analyze(self):
         """
         Perform a statistical analysis on two data sets.
-- 
2.43.0


From 75d9ee83b2e37b1c7f3fd43bd7dce935d590a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 57/67] fix: dates on the command line depended on the current
 date, and the documented colon form was refused

---
 cis/parse.py          | 16 +++++++++++-----
 cis/parse_datetime.py | 21 ++++++++++++++++-----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 94621a1..4a3fc0f 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -443,7 +443,8 @@ def get_aggregate_grid(aggregategrid, parser):
     :param parser:        The parser used to report errors
     :return: The parsed datagroups as a list of dictionaries
     """
-    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta
+    from datetime import timedelta
+    from cis.parse_datetime import parse_datetime, parse_as_number_or_datetime, parse_as_number_or_datetime_delta
 
     # Split into the limits for each dimension.
     split_input = split_outside_brackets(aggregategrid)
@@ -470,9 +471,14 @@ def get_aggregate_grid(aggregategrid, parser):
         else:
             dim_name = match.group('dim')
 
-            start_parsed = parse_as_number_or_datetime(match.group('start'))
-            end_parsed = parse_as_number_or_datetime(match.group('end'))
             delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
+            if isinstance(delta_parsed, timedelta):
+                # The limits are dates then, so that a lone year is a year rather than a number
+                start_parsed = parse_datetime(match.group('start'), 'aggregation start date/time', parser)
+                end_parsed = parse_datetime(match.group('end'), 'aggregation end date/time', parser, latest=True)
+            else:
+                start_parsed = parse_as_number_or_datetime(match.group('start'))
+                end_parsed = parse_as_number_or_datetime(match.group('end'), latest=True)
 
             if dim_name.lower() == 'x':
                 if not start_parsed <= end_parsed:
@@ -542,7 +548,7 @@ def get_subset_limits(subsetlimits, parser):
                     limits = parse_partial_datetime(limit1, 'subset range date/time', parser)
                 else:
                     limits = [parse_datetime(limit1, 'subset range start date/time', parser),
-                              parse_datetime(limit2, 'subset range end date/time', parser)]
+                              parse_datetime(limit2, 'subset range end date/time', parser, latest=True)]
             elif dim_name.lower() in ['x', 'y', 'z']:
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
                           parse_float(limit2, 'subset range start coordinate', parser)]
@@ -554,7 +560,7 @@ def get_subset_limits(subsetlimits, parser):
                         parser.error("Longitude limits should not be more than 360 degrees apart "
                                      "(i.e. for x[A,B] B-A <= 360)")
             else:
-                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2)]
+                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2, latest=True)]
             limit_dict[dim_name] = limits
     return limit_dict
 
diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index b108781..afaeffe 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -8,13 +8,22 @@ def parse_datetimestr_to_std_time(s):
     return cis_standard_time_unit.date2num(du.parse(s))
 
 
-def _parse_datetime(s):
+def _parse_datetime(s, latest=False):
     """Parse a date/time string.
 
     The string should be in an ISO 8601 format except that the date and time
     parts may be separated by a space or colon instead of T.
+    :param s: String to parse
+    :param latest: Whether to use the latest (rather than the earliest) date/time compatible with the components given
     """
     import dateutil.parser as du
+    if re.match(r'\d{4}(-|$)', s):
+        try:
+            partial = _parse_partial_datetime(s)
+        except ValueError:
+            pass
+        else:
+            return partial.max() if latest else partial.min()
     return du.parse(s)
 
 
@@ -70,7 +79,7 @@ def parse_partial_datetime(dt_string, name, parser):
     return dt
 
 
-def parse_datetime(dt_string, name, parser):
+def parse_datetime(dt_string, name, parser, latest=False):
     """Parse a date/time string from the command line, reporting parse errors.
 
     The string should be in an ISO 8601 format except that the date and time
@@ -78,12 +87,13 @@ def parse_datetime(dt_string, name, parser):
     :param dt_string: String to parse
     :param name:      A description of the argument used for error messages
     :param parser:    The parser used to report errors
+    :param latest:    Whether to use the latest (rather than the earliest) compatible date/time
     :return: datetime value
     """
     if dt_string == 'None' or dt_string is None:
         return None
     try:
-        dt = _parse_datetime(dt_string)
+        dt = _parse_datetime(dt_string, latest)
     except ValueError:
         parser.error("'" + dt_string + "' is not a valid " + name)
         dt = None
@@ -173,11 +183,12 @@ def parse_datetimestr_delta_to_float_days(string):
     return _datetime_delta_to_float_days(date_delta)
 
 
-def parse_as_number_or_datetime(string):
+def parse_as_number_or_datetime(string, latest=False):
     """
     Parse a string as a number from the command line, or if that fails, as a datetime
 
     :param in_string: String to parse
+    :param latest: Whether to use the latest (rather than the earliest) compatible date/time
     :return: int, float or DateTime
     """
     if string == 'None' or string is None:
@@ -189,7 +200,7 @@ def parse_as_number_or_datetime(string):
             ret = float(string)
         except ValueError:
             try:
-                ret = _parse_datetime(string)
+                ret = _parse_datetime(string, latest)
             except ValueError:
                 raise argparse.ArgumentTypeError("'{}' is not a valid value.".format(string))
     return ret
-- 
2.43.0


From 4027934c71aa13880d3128d65232f5015ac75f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 58/67] fix: a single value of a coordinate to subset to was
 taken as its start only

---
 cis/parse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 4a3fc0f..7569862 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -540,10 +540,14 @@ def get_subset_limits(subsetlimits, parser):
 
             limit1 = match.group('start')
             limit2 = match.group('end')
+            is_time = dim_name.lower() in ['t', 'time']
+            if limit2 is None and not is_time:
+                # A single value is both the start and the end
+                limit2 = limit1
 
             # If the dimension is specified as x, y, z, or t, assume that the dimension is spatial or temporal in the
             # obvious way. Otherwise, parse what is found as a date/time or number.
-            if dim_name.lower() == 't' or dim_name.lower() == 'time':
+            if is_time:
                 if limit2 is None:
                     limits = parse_partial_datetime(limit1, 'subset range date/time', parser)
                 else:
@@ -552,7 +556,7 @@ def get_subset_limits(subsetlimits, parser):
             elif dim_name.lower() in ['x', 'y', 'z']:
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
                           parse_float(limit2, 'subset range start coordinate', parser)]
-                if dim_name.lower() == 'x':
+                if dim_name.lower() == 'x' and None not in limits:
                     if not limits[0] <= limits[1]:
                         parser.error("Longitude limits must be monotonically increasing (i.e. for x[A,B] A <= B). For "
                                      "example, x=[90,-90] is invalid but x=[90,270] is valid")
-- 
2.43.0


From 52da6d54c0a49059e6acac01f3971b173cc1563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 59/67] fix: parts of date/time steps which were not understood
 were ignored

---
 cis/parse_datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index afaeffe..5d7175d 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -128,6 +128,9 @@ def _parse_datetime_delta(dt_string):
     date_tokens = re.findall('[0-9]*[A-Z]', date_string)
     time_tokens = re.findall('[0-9]*[A-Z]', time_string)
 
+    if ''.join(date_tokens) != date_string or ''.join(time_tokens) != time_string or not date_tokens + time_tokens:
+        raise ValueError("Date/Time step must be in ISO 8601 format, for example P1Y2M3DT4H5M6S")
+
     years = 0
     months = 0
     days = 0
-- 
2.43.0


From ca6ee7cafda522650b36a4c359e5288bbce7cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 60/67] fix: malformed limits of aggregation grids were ignored

---
 cis/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index 7569862..baaf6a4 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -455,7 +455,7 @@ def get_aggregate_grid(aggregategrid, parser):
     for seg in split_input:
         # Parse out dimension name and new grid spacing; the expected format is:
         # <dim_name>=[<start_value>,<end_value,<delta>]
-        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?',
+        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?$',
                          seg)
         if match is None or match.group('dim') is None:
             parser.error("A dimension for aggregation does not have a valid dimension name")
-- 
2.43.0


From 964c1cda9e464f8fc70f1ca3b4b7aad6f2c2da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 61/67] fix: complete collapse of a named coordinate in
 ungridded aggregation

---
 cis/data_io/ungridded_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 948cc16..f608409 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1279,6 +1279,9 @@ def _aggregate_ungridded(data, how, **kwargs):
     kernel = get_kernel(how)
     grid_spec = {}
     for dim_name, grid in kwargs.items():
+        if grid is None:
+            # Collapse the coordinate completely, as for coordinates which aren't given
+            continue
         c = data._get_coord(dim_name)
         if all(hasattr(grid, att) for att in ('start', 'stop', 'step')):
             g = grid
-- 
2.43.0


From 56291dff2e48d8841e9a281d30510ef96ba32591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 62/67] fix: only some of the blanks between options were
 removed

---
 cis/parse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index baaf6a4..ade74c9 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -698,12 +698,8 @@ def multi_split(s, seps):
         for seq in s:
             res += seq.split(sep)
 
-    for i in res:
-        # Remove empty strings
-        if not i:
-            res.pop(res.index(i))
-
-    return res
+    # Remove empty strings
+    return [i for i in res if i]
 
 
 def check_nothing(item, parser):
-- 
2.43.0


From f57e3ee96efe50341f0810b8b96670ccc7dc2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:31 +0000
Subject: [PATCH 63/67] fix: only the last of several collocated datagroups was
 kept in the output file

---
 cis/cis_main.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 126414c..b74eac7 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -91,12 +91,19 @@ def col_cmd(main_arguments):
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
+    output = None
     for input_group in main_arguments.datagroups:
         # Then collocate each datagroup
         data = DataReader().read_single_datagroup(input_group)
-        output = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
-                                      missing_data_for_missing_sample=missing_data_for_missing_sample, **col_options)
-        output.save_data(main_arguments.output)
+        collocated = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
+                                          missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                          **col_options)
+        if output is None:
+            output = collocated
+        else:
+            output.extend(collocated)
+    # There is only one output file, so save all of the datagroups together
+    output.save_data(main_arguments.output)
 
 
 def subset_cmd(main_arguments):
-- 
2.43.0


From 014ef1b21f75011484d276acc9852feea294b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:27 +0000
Subject: [PATCH 64/67] fix: every slice of MODIS L2 data of more than two
 dimensions was read as the last one

---
 cis/data_io/products/MODIS.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 29d8459..e4dc22f 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -297,6 +297,7 @@ class MODIS_L2(AProduct):
 
     def create_data_object(self, filenames, variable):
         from itertools import product
+        from cis.data_io import hdf_sd
 
         logging.debug("Creating data object for variable " + variable)
 
@@ -325,10 +326,10 @@ class MODIS_L2(AProduct):
             # Iterate over all but the last two dimensions
             ranges = [range(n) for n in dim_len[:-2]]
             for indices in product(*ranges):
-                for manager in var:
-                    manager._start = list(indices) + [0, 0]
-                    manager._count = [1] * len(indices) + manager.info()[2][-2:]
-                result.append(UngriddedData(var, metadata, coords.copy(), _get_MODIS_SDS_data))
+                # The data is only read when it is needed, so each slice has to have managers of its own
+                slices = [hdf_sd.HDF_SDS(manager._filename, manager._variable, list(indices) + [0, 0],
+                                         [1] * len(indices) + manager.info()[2][-2:]) for manager in var]
+                result.append(UngriddedData(slices, metadata, coords.copy(), _get_MODIS_SDS_data))
             return result
 
     def get_file_format(self, filenames):
-- 
2.43.0


From ad0b002ba9138967dad4ee6e81e51089632bc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:10 +0000
Subject: [PATCH 65/67] fix: only the first of several EarthCARE files was read

---
 cis/data_io/products/EarthCARE.py | 41 +++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/cis/data_io/products/EarthCARE.py b/cis/data_io/products/EarthCARE.py
index 4911fdc..557548b 100755
--- a/cis/data_io/products/EarthCARE.py
+++ b/cis/data_io/products/EarthCARE.py
@@ -50,6 +50,17 @@ def get_metadata_EC(var,optional_standard_name=None):
 
 
 
+def _join_files(variables, index=slice(None)):
+    """
+    Joins the data of one variable of several files
+
+    :param variables: list of the Variables, one of each file
+    :param index: the part of each of the Variables to be taken
+    :return: A masked array of the data of all of the files
+    """
+    return utils.concatenate([np.ma.asarray(var[index]) for var in variables])
+
+
 ################################################################
 class EarthCARE_MSI_ATL(AProduct):
     """
@@ -167,8 +178,15 @@ class EarthCARE_MSI_ATL(AProduct):
                     requiredShape=tuple(requiredShapeList)
                     logging.info(str(requiredShape))
 
+            # the data of several files is joined along its first remaining dimension
+            if requiredShape:
+                knownDimPos = [aKnownDim[2] for aKnownDim in self.m_listOfKnownDims
+                               if len(dimnames) > aKnownDim[2] and dimnames[aKnownDim[2]] == aKnownDim[0]]
+                joinedPos = 1 if 0 in knownDimPos else 0
+                requiredShape = (sum(v.shape[joinedPos] for v in reqdVarData[variable]),) + tuple(requiredShape[1:])
+
 
-        longitude_data = data[longitude_var_name][0][:]
+        longitude_data = _join_files(data[longitude_var_name])
         if( (variable is not None) and (len(longitude_data.shape) > len(requiredShape) ) ):
             logging.info("longitude data has more dims than that of required data, not adding to coords")
         else:
@@ -183,7 +201,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(longitude_data_expanded, 
                                 longitude_data_expanded_metadata,"X"))
 
-        latitude_data = data[latitude_var_name][0][:]
+        latitude_data = _join_files(data[latitude_var_name])
         if( (variable is not None) and (len(latitude_data.shape) > len(requiredShape) ) ):
             logging.info("latitude data has more dims than that of required data, not adding to coords")
         else:
@@ -198,7 +216,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(latitude_data_expanded,
                                 latitude_data_expanded_metadata,"Y"))
 
-        time_data_masked = data[time_var_name][0][:]
+        time_data_masked = _join_files(data[time_var_name])
         time_data_expanded=None
         b_is_time_data_of_reqd_dim = False
         if( (variable is not None) and (len(time_data_masked.shape) < len(requiredShape) ) ):
@@ -242,6 +260,8 @@ class EarthCARE_MSI_ATL(AProduct):
         if ( True == b_altitude_found ) :
             #sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0])
             sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0],"height")
+            height_data = _join_files(sampleAltitudeData[height_var_name])
+            sampleAltitude_metadata.shape = height_data.shape
             if( (variable is not None) and (sampleAltitude_metadata.shape==requiredShape) ):
                 height_metadata = Metadata("altitude",long_name=sampleAltitude_metadata.long_name,
                         units=sampleAltitude_metadata.units,
@@ -249,7 +269,7 @@ class EarthCARE_MSI_ATL(AProduct):
                         shape=sampleAltitude_metadata.shape,
                         history=''
                         )
-                coords.append(Coord(sampleAltitudeData[height_var_name][0][:], height_metadata ,"Z"))
+                coords.append(Coord(height_data, height_metadata ,"Z"))
                 variables.append(height_var_name)
                 logging.info("Added height coord from variable {}".format(height_var_name))
             elif (variable is not None):
@@ -378,16 +398,16 @@ class EarthCARE_MSI_ATL(AProduct):
                     #this_data_masked = var[variable][0][:]
                     if ( 3 == len(dimnames) ):
                         if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
+                            this_data_masked = _join_files(var[variable], np.s_[thisDimNum,...])
                         elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum,:]
+                            this_data_masked = _join_files(var[variable], np.s_[:,thisDimNum,:])
                         elif 2 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][...,thisDimNum]
+                            this_data_masked = _join_files(var[variable], np.s_[...,thisDimNum])
                     elif ( 2 == len(dimnames) ):
                         if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
+                            this_data_masked = _join_files(var[variable], np.s_[thisDimNum,...])
                         elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum]
+                            this_data_masked = _join_files(var[variable], np.s_[:,thisDimNum])
                     else:
                         #should never be here
                         pass
@@ -405,6 +425,7 @@ class EarthCARE_MSI_ATL(AProduct):
                     logging.info("unrecongnised dimension in EarthCARE 3d data.")
                     raise NotImplementedError("unrecongnised dimension in EarthCARE 3d data.")
                 else:
-                    this_data_masked = var[variable][0][:]
+                    this_data_masked = _join_files(var[variable])
+                    metadata.shape = this_data_masked.shape
                     return UngriddedData(this_data_masked, metadata, coords)
                 
\ No newline at end of file
-- 
2.43.0


From 0cecdd262b0b9d95e2cef22d2737c8a4eef9840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:49 +0000
Subject: [PATCH 66/67] fix: sizes of NCAR-RAF size distributions were taken
 from any variable whose first dimension is theirs

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index 3d9c5b0..edaeae4 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -271,7 +271,7 @@ class NCAR_NetCDF_RAF_variable_name_selector(object):
             #  the auxiliary dimension.
             else:
                 for v, dims in self._variable_dimensions[0].items():
-                    if dims[0] == aux_coords[0]:
+                    if tuple(dims) == (aux_coords[0],):
                         aux_coord_name = v
                         break
         return aux_coord_name
-- 
2.43.0


From 31e3877216eb6d66455dbe09c2b43424a4c25e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:44 +0000
Subject: [PATCH 67/67] fix: ASCII files of a single line could not be read

---
 cis/data_io/products/products.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index dd64524..1ad2cfa 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -165,10 +165,12 @@ class ASCII_Hyperpoints(AProduct):
 
         for filename in filenames:
             try:
-                array_list.append(genfromtxt(filename, dtype="f8,f8,f8,O,f8",
-                                             names=['latitude', 'longitude', 'altitude', 'time', 'value'],
-                                             delimiter=',', missing_values='', usemask=True, invalid_raise=True,
-                                             converters={"time": du.parse}))
+                array = genfromtxt(filename, dtype="f8,f8,f8,O,f8",
+                                   names=['latitude', 'longitude', 'altitude', 'time', 'value'],
+                                   delimiter=',', missing_values='', usemask=True, invalid_raise=True,
+                                   converters={"time": du.parse})
+                # A file with a single line gives a scalar
+                array_list.append(array.reshape(-1))
             except:
                 raise IOError('Unable to read file ' + filename)
 
-- 
2.43.0

