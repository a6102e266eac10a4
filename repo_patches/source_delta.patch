From 3b3bd68847375da8033b0aedaf7444b056489dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 1/9] fix: stop rays from stepping past their end cell

When the ray reaches the borders of two directions at (nearly) the same time, rounding could make
it cross one border too many and miss the end cell. The ray then went on to the maximum range (or
forever, without one), the hit was lost, and cells behind it were returned as free.
---
 src/ray_caster.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..927cb0c 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -81,7 +81,8 @@ where
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
-        if step[i] == 0.0 {
+        // The ray never leaves this row of cells, so it has no border to cross in this direction.
+        if step[i] == 0.0 || origin_cell[i] == end_cell[i] {
             t_max[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
@@ -120,6 +121,11 @@ where
         };
         current_cell[dim] += step[dim] as isize;
         t_max[dim] += t_delta[dim];
+        if current_cell[dim] == end_cell[dim] {
+            // There are no more borders to cross in this direction. Without this, ties and floating
+            // point rounding could make the ray step past the end cell, and never reach it.
+            t_max[dim] = std::f32::INFINITY;
+        }
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From f75a3b9722d1c74ee2d1fec7ea97d91e24e69749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 2/9] fix: allocate the last cell of the bounds when expanding
 a grid map

A point past the middle of the last grid interval belongs to the next cell, which was not allocated
when the interval ended at the edge of a tile. Accessing it panicked.
---
 src/map/grid_map.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..679d48e 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,14 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Points belong to the cell with the nearest center. So a point past the middle of the last
+        // grid interval belongs to the cell at the upper edge of the interval. Always include that
+        // cell, because otherwise the map might not be resized to contain it.
+        let mut discretized_bounds = bounds.discretized(self.resolution, false);
+        for val in discretized_bounds.max.iter_mut() {
+            *val += self.resolution;
+        }
+        let new_bounds = self.bounds.enclosing(&discretized_bounds);
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +258,14 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Points belong to the cell with the nearest center. So a point past the middle of the last
+        // grid interval belongs to the cell at the upper edge of the interval. Always include that
+        // cell, because otherwise the map might not be resized to contain it.
+        let mut discretized_bounds = bounds.discretized(self.resolution, false);
+        for val in discretized_bounds.max.iter_mut() {
+            *val += self.resolution;
+        }
+        let new_bounds = self.bounds.enclosing(&discretized_bounds);
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From b90b2de54c2790f59c0d1bb24e2f9e97116e4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 3/9] fix: keep tracked changed cells in place when the grid
 map grows

Cells are relative to the min bounds. When the map grew towards lower coordinates, the cells tracked
before then denoted other locations.
---
 src/map/grid_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 679d48e..da10058 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -237,6 +237,10 @@ where
             let offset = cell_bounds.min - new_cell_bounds.min;
             let cells_size = cell_bounds.max - cell_bounds.min;
             assert!(offset.x >= 0 && offset.y >= 0);
+            // Cells are relative to the min bounds, so keep the tracked ones on the same location.
+            for cell in self.changed_cells.iter_mut() {
+                *cell += offset;
+            }
             let mut to_slice = to_data.slice_mut(nd::s![
                 offset.x..(cells_size.x + offset.x),
                 offset.y..(cells_size.y + offset.y),
@@ -286,6 +290,10 @@ where
             let offset = cell_bounds.min - new_cell_bounds.min;
             let cells_size = cell_bounds.max - cell_bounds.min;
             assert!(offset.x >= 0 && offset.y >= 0);
+            // Cells are relative to the min bounds, so keep the tracked ones on the same location.
+            for cell in self.changed_cells.iter_mut() {
+                *cell += offset;
+            }
             let mut to_slice = to_data.slice_mut(nd::s![
                 offset.x..(cells_size.x + offset.x),
                 offset.y..(cells_size.y + offset.y),
-- 
2.43.0


From 3e907267425128db6b465e7c4acadb67e5e61ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 4/9] fix: make the GridMap3i and GridMap3b aliases
 three-dimensional

---
 src/map/grid_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index da10058..98c6e4c 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -15,8 +15,8 @@ pub type GridMap2b = GridMap2<bool>;
 
 pub type GridMap3<A> = GridMapN<A, na::U3, nd::Ix3>;
 pub type GridMap3f = GridMap3<f32>;
-pub type GridMap3i = GridMap2<i32>;
-pub type GridMap3b = GridMap2<bool>;
+pub type GridMap3i = GridMap3<i32>;
+pub type GridMap3b = GridMap3<bool>;
 
 pub const DEFAULT_RESOLUTION: f32 = 0.1;
 pub const DEFAULT_TILE_SIZE: usize = 100;
-- 
2.43.0


From 2b92d604eca03eafe46e5947653a564f56043fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 5/9] fix: scale longitude differences by the latitude of the
 gps origin

The cosine of the latitude difference was used, which is always about 1. So distances along x were
too large by 1 / cos(latitude), i.e. by half at the latitude of the KITTI data.
---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From f78531387323495424aa42d150ee5941864547e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 6/9] fix: expand the map to the origin of an integrated point
 cloud

The rays from an origin outside of the map's bounds pass through cells that were not allocated, so
integrating the point cloud panicked.
---
 src/map/lidar_noise_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..a485dfb 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -119,7 +119,13 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays start at the origin, so it must be within the bounds too.
+        let mut bounds = point_cloud.bounds();
+        for (i, val) in origin.iter().enumerate() {
+            bounds.min[i] = bounds.min[i].min(*val);
+            bounds.max[i] = bounds.max[i].max(*val);
+        }
+        grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From f8cd1216ab119d45500f25e51f9cae7c0cdbfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 7/9] fix: do not include the world origin in the bounds of a
 point cloud

The bounds of points away from the world origin were stretched to contain it, as were the maps
that the points were integrated in. Integrating no points does not resize the map any more.
---
 src/geom/point_cloud.rs      | 28 ++++++++++++++++------------
 src/map/lidar_noise_model.rs |  3 +++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/geom/point_cloud.rs b/src/geom/point_cloud.rs
index 23f1966..2c48097 100644
--- a/src/geom/point_cloud.rs
+++ b/src/geom/point_cloud.rs
@@ -45,19 +45,23 @@ where
     }
 
     /// Returns the bounds that encapsulates all the points in the point cloud.
+    /// The bounds are empty if there are no points.
     pub fn bounds(&self) -> Bounds<NaD> {
-        self.points_iter()
-            .fold(Bounds::<NaD>::empty(), |mut bounds, point| {
-                for (i, point_val) in point.iter().enumerate() {
-                    if *point_val < bounds.min[i] {
-                        bounds.min[i] = *point_val;
-                    }
-                    if *point_val > bounds.max[i] {
-                        bounds.max[i] = *point_val;
-                    }
-                }
-                bounds
-            })
+        let mut points = self.points_iter();
+        let mut bounds = match points.next() {
+            Some(point) => Bounds {
+                min: point.clone(),
+                max: point,
+            },
+            None => return Bounds::<NaD>::empty(),
+        };
+        for point in points {
+            for (i, point_val) in point.iter().enumerate() {
+                bounds.min[i] = bounds.min[i].min(*point_val);
+                bounds.max[i] = bounds.max[i].max(*point_val);
+            }
+        }
+        bounds
     }
 }
 
diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index a485dfb..b665cb5 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -119,6 +119,9 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
+        if point_cloud.num_points() == 0 {
+            return;
+        }
         // The rays start at the origin, so it must be within the bounds too.
         let mut bounds = point_cloud.bounds();
         for (i, val) in origin.iter().enumerate() {
-- 
2.43.0


From 27df17e96da955707653b0103185470c3da9f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 8/9] fix: do not panic when printing the progress of a file
 whose name is not UTF-8

---
 src/kitti/oxt_reader.rs         | 2 +-
 src/kitti/point_cloud_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..256294a 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -97,7 +97,7 @@ pub fn read_from_dir(dir: &std::path::Path, print_status: bool) -> std::io::Resu
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             match read_from_file(&path, gps_origin) {
diff --git a/src/kitti/point_cloud_reader.rs b/src/kitti/point_cloud_reader.rs
index dc45871..e48f30b 100644
--- a/src/kitti/point_cloud_reader.rs
+++ b/src/kitti/point_cloud_reader.rs
@@ -54,7 +54,7 @@ pub fn read_from_dir(
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             read_from_file(&path)
-- 
2.43.0


From 3c55432b4607f23c1917c07e49091b998672f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 9/9] fix: visualizer kept stale points when the map grew

Tracked cells were keyed by their index in the map, which shifts when the map grows towards lower
coordinates. Points were then never removed, or new ones never drawn.
---
 viz/src/bin/draw_occupancy_grid.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/viz/src/bin/draw_occupancy_grid.rs b/viz/src/bin/draw_occupancy_grid.rs
index b895e5d..09992e0 100644
--- a/viz/src/bin/draw_occupancy_grid.rs
+++ b/viz/src/bin/draw_occupancy_grid.rs
@@ -59,15 +59,18 @@ impl AppState {
             let grid_map = self.grid_updater.grid_map.lock().unwrap();
             for cell in changed_cells.iter() {
                 let occupied = grid_map.occupied(cell);
+                // Cells are relative to the bounds of the map, which can grow. So track them by
+                // their cell relative to the world origin instead.
+                let point = grid_map.point_from_cell(cell);
+                let world_cell = kuba::converter::cell_from_point(
+                    &point,
+                    &kuba::Point3::origin(),
+                    grid_map.resolution(),
+                );
                 if occupied {
-                    if !self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells
-                            .insert(*cell, grid_map.point_from_cell(cell));
-                    }
+                    self.tracked_cells.entry(world_cell).or_insert(point);
                 } else {
-                    if self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells.remove(cell);
-                    }
+                    self.tracked_cells.remove(&world_cell);
                 }
             }
             changed_cells.clear();
-- 
2.43.0

