From 564f5d3b8c4cfe8326dce135439c9f2a9372663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 1/8] fix: stop cast_ray from stepping past the end cell

Floating point rounding in t_max could make the ray step past the end cell
along one axis. The end cell was then never reached, so the hit was lost and
the walk only stopped at max_len (or never, without one).
---
 src/ray_caster.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..f800494 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -81,7 +81,8 @@ where
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
-        if step[i] == 0.0 {
+        // Never step along an axis on which the ray already starts in its end cell.
+        if step[i] == 0.0 || origin_cell[i] == end_cell[i] {
             t_max[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
@@ -119,7 +120,13 @@ where
             }
         };
         current_cell[dim] += step[dim] as isize;
-        t_max[dim] += t_delta[dim];
+        if current_cell[dim] == end_cell[dim] {
+            // Never step past the end cell along this axis, even if floating point rounding makes
+            // its next border look nearer than the borders left to cross along the other axes.
+            t_max[dim] = std::f32::INFINITY;
+        } else {
+            t_max[dim] += t_delta[dim];
+        }
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From d78db69b14c857676af628fa6b78b27d2de67a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 2/8] fix: make expand_bounds cover the cell that contains the
 max corner

Points in the half cell below the last tile border, e.g. (9.97, 0) with the
default resolution and tile size, mapped to a cell outside of the grown map and
made integrating them panic.
---
 src/map/grid_map.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..437a22f 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,12 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Cells are centered on multiples of the resolution, so the cell that contains the max
+        // corner can be centered on the discretized max itself. Add one more cell along each axis,
+        // otherwise it won't be resized to include that cell.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        bounds.max.iter_mut().for_each(|val| *val += self.resolution);
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +256,12 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Cells are centered on multiples of the resolution, so the cell that contains the max
+        // corner can be centered on the discretized max itself. Add one more cell along each axis,
+        // otherwise it won't be resized to include that cell.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        bounds.max.iter_mut().for_each(|val| *val += self.resolution);
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From 6092f4e48075d69edba3615335fb08e4c2b676aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 3/8] fix: expand the map to include the sensor origin

Integrating a point cloud only grew the map to the bounds of the points, so
updating the cells between an origin outside of them and the points panicked.
---
 src/map/lidar_noise_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..0fbf388 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -119,7 +119,13 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays start in the cell of the origin, so the map has to include it too.
+        let mut bounds = point_cloud.bounds();
+        for (i, coord) in origin.iter().enumerate() {
+            bounds.min[i] = bounds.min[i].min(*coord);
+            bounds.max[i] = bounds.max[i].max(*coord);
+        }
+        grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From 6d7d16e05e6f0fbfa294a3983aa2a02c49884877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 4/8] fix: make GridMap3i and GridMap3b three-dimensional

---
 src/map/grid_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 437a22f..69827ec 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -15,8 +15,8 @@ pub type GridMap2b = GridMap2<bool>;
 
 pub type GridMap3<A> = GridMapN<A, na::U3, nd::Ix3>;
 pub type GridMap3f = GridMap3<f32>;
-pub type GridMap3i = GridMap2<i32>;
-pub type GridMap3b = GridMap2<bool>;
+pub type GridMap3i = GridMap3<i32>;
+pub type GridMap3b = GridMap3<bool>;
 
 pub const DEFAULT_RESOLUTION: f32 = 0.1;
 pub const DEFAULT_TILE_SIZE: usize = 100;
-- 
2.43.0


From 8525a13236363ef1c051b437a46bceb7e7340f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 5/8] fix: scale longitude by the cosine of the latitude

gps_to_meters used the cosine of the latitude difference, which is about 1
everywhere, so east-west distances were too long by 1 / cos(latitude).
---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From a15cec1c5522048ae654bf565a5361605b05177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 6/8] fix: don't panic printing the status of a file whose name
 isn't UTF-8

---
 src/kitti/oxt_reader.rs         | 2 +-
 src/kitti/point_cloud_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..256294a 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -97,7 +97,7 @@ pub fn read_from_dir(dir: &std::path::Path, print_status: bool) -> std::io::Resu
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             match read_from_file(&path, gps_origin) {
diff --git a/src/kitti/point_cloud_reader.rs b/src/kitti/point_cloud_reader.rs
index dc45871..e48f30b 100644
--- a/src/kitti/point_cloud_reader.rs
+++ b/src/kitti/point_cloud_reader.rs
@@ -54,7 +54,7 @@ pub fn read_from_dir(
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             read_from_file(&path)
-- 
2.43.0


From 991e8a9e765758a9681a0831126abb54a097ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 7/8] fix: keep recorded changed cells valid when the map grows

Growing the map towards negative coordinates shifts the indices of all cells,
but the changed cells recorded before that kept their old indices.
---
 src/map/grid_map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 69827ec..859a411 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -235,6 +235,8 @@ where
             let offset = cell_bounds.min - new_cell_bounds.min;
             let cells_size = cell_bounds.max - cell_bounds.min;
             assert!(offset.x >= 0 && offset.y >= 0);
+            // Keep the recorded changes pointing at the same cells.
+            self.changed_cells.iter_mut().for_each(|cell| *cell += offset);
             let mut to_slice = to_data.slice_mut(nd::s![
                 offset.x..(cells_size.x + offset.x),
                 offset.y..(cells_size.y + offset.y),
@@ -282,6 +284,8 @@ where
             let offset = cell_bounds.min - new_cell_bounds.min;
             let cells_size = cell_bounds.max - cell_bounds.min;
             assert!(offset.x >= 0 && offset.y >= 0);
+            // Keep the recorded changes pointing at the same cells.
+            self.changed_cells.iter_mut().for_each(|cell| *cell += offset);
             let mut to_slice = to_data.slice_mut(nd::s![
                 offset.x..(cells_size.x + offset.x),
                 offset.y..(cells_size.y + offset.y),
-- 
2.43.0


From 90e878bda5be8927f82fe30fb2d3ff46df348b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 8/8] fix: keep drawn cells in place when the map grows

The viewer remembered cells by their index, which changes when the map grows
towards smaller coordinates, so that cells were missing from the picture or
stayed in it after they had become free.
---
 viz/src/bin/draw_occupancy_grid.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/viz/src/bin/draw_occupancy_grid.rs b/viz/src/bin/draw_occupancy_grid.rs
index b895e5d..5e8a3c9 100644
--- a/viz/src/bin/draw_occupancy_grid.rs
+++ b/viz/src/bin/draw_occupancy_grid.rs
@@ -57,16 +57,21 @@ impl AppState {
         {
             let mut changed_cells = self.grid_updater.changed_cells.lock().unwrap();
             let grid_map = self.grid_updater.grid_map.lock().unwrap();
+            // A cell's index changes when the map grows, so cells are tracked by their place in the
+            // world.
+            let first_cell =
+                kuba::CellBounds3::from_bounds(&grid_map.bounds(), grid_map.resolution()).min;
             for cell in changed_cells.iter() {
+                let tracked_cell = first_cell + cell.coords;
                 let occupied = grid_map.occupied(cell);
                 if occupied {
-                    if !self.tracked_cells.contains_key(cell) {
+                    if !self.tracked_cells.contains_key(&tracked_cell) {
                         self.tracked_cells
-                            .insert(*cell, grid_map.point_from_cell(cell));
+                            .insert(tracked_cell, grid_map.point_from_cell(cell));
                     }
                 } else {
-                    if self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells.remove(cell);
+                    if self.tracked_cells.contains_key(&tracked_cell) {
+                        self.tracked_cells.remove(&tracked_cell);
                     }
                 }
             }
-- 
2.43.0

