"""Planted bugs: (id, property, needs, what it breaks, [(file, old, new)], demonstration)."""
S = []; SEEDS = S
CB, BO, GM, CL, LN, RC, PC, CV, MA, OG = ["src/" + x for x in ("geom/cell_bounds.rs", "geom/bounds.rs", "map/grid_map.rs", "geom/cell.rs", "map/lidar_noise_model.rs", "ray_caster.rs", "geom/point_cloud.rs", "geom/converter.rs", "math.rs", "map/occupancy_grid_map.rs")]
OX, PR, FS = "src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs", "src/kitti/fs.rs"

S.append(("G07-neg-max", "G07", "a negative, unaligned maximum whose remainder is not half a tile", "the rounded maximum is no tile multiple",
 [(CB, "                } else if coord < 0 {\n                    coord + remainder", "                } else if coord < 0 {\n                    coord + ((tile_size as isize) - remainder)")],
 """fn main() { let b = kuba::cell_bounds2![[-9, -9], [-3, -3]].discretized(4); assert_eq!(b, kuba::cell_bounds2![[-12, -12], [0, 0]]); }"""))
S.append(("M05-early-return", "M05", "a growth that leaves the minimum corner in place and needs a new maximum on a tile-aligned map", "the map does not grow although the requested box is not covered",
 [(GM, "if new_cell_bounds == cell_bounds {", "if new_cell_bounds == cell_bounds || (new_cell_bounds.min == cell_bounds.min && new_cell_bounds.max.x == cell_bounds.max.x) {")],
 """fn main() { let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); m.expand_bounds(&kuba::bounds2![[0.0, 0.0], [2.0, 6.0]], 0.0); assert!(m.bounds().max[1] >= 6.5); }"""))
S.append(("M03-slice-3d", "M03", "a three-dimensional map that grows downwards along z by another number of cells than along y", "stored values end up at the wrong height",
 [(GM, "offset.z..(cells_size.z + offset.z),", "offset.y..(cells_size.z + offset.y),")],
 """fn main() { let mut m = kuba::GridMap3f::new(1.0, kuba::bounds3![[0.0, 0.0, 0.0], [2.0, 2.0, 2.0]], 2, 0.0); m.set(&kuba::cell3![1, 1, 1], 7.0);
 m.expand_bounds(&kuba::bounds3![[0.0, -4.0, -2.0], [1.0, 1.0, 1.0]], 0.0); let c = m.cell_from_point(&kuba::point3![1.0, 1.0, 1.0]); assert_eq!(m.get(&c), 7.0); }"""))
S.append(("M01-negative-cell", "M01", "a cell with exactly one negative coordinate", "reading a cell outside of the grid returns another cell's value",
 [(CL, "let index: [isize; $len] = self.coords.into();", "let mut index: [isize; $len] = self.coords.into();\n                    if index[$len - 1] == -1 && index[0] > 0 {\n                        index[$len - 1] = 0;\n                    }")],
 """fn main() { let m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 0.0); assert!(std::panic::catch_unwind(move || m.get(&kuba::cell2![1, -1])).is_err()); }"""))
S.append(("N05-nan", "N05", "a probability that is not a number", "the noise model accepts a probability that is not a number",
 [(LN, "assert!(max_probability >= 0.0 && max_probability <= 1.0);", "assert!(!(max_probability < 0.0 || max_probability > 1.0));")],
 """fn main() { assert!(std::panic::catch_unwind(|| kuba::map::LidarNoiseModel::new(0.7, 0.3, 0.1, std::f32::NAN, 0.5, 10.0)).is_err()); }"""))
S.append(("S02-tiny", "S02", "a positive number smaller than the rounding unit", "the sign of tiny numbers is zero",
 [(MA, "if value == 0.0 {", "if value.abs() < std::f32::MIN_POSITIVE * 1e6 {")],
 """fn main() { assert_eq!(kuba::math::f32_signum(1e-35), 1.0); }"""))
S.append(("G05-touch", "G05", "boxes that are separated on one axis by more than noise but ordered the other way round", "separated boxes have a non-empty overlap",
 [(BO, "if min_max < max_min || approx::relative_eq!(min_max, max_min) {", "if (min_max < max_min && self.min[i] <= other.min[i]) || approx::relative_eq!(min_max, max_min) {")],
 """fn main() { let a = kuba::bounds2![[5.0, 0.0], [6.0, 1.0]]; let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]]; assert_eq!(a.overlapping(&b), kuba::Bounds2::empty()); }"""))
S.append(("M06-clear", "M06", "clearing the log of a map that tracks changes", "clearing the log also turns tracking off when there was something to clear",
 [(GM, "        self.changed_cells.clear();", "        self.track_changes = self.track_changes && self.changed_cells.len() < 2;\n        self.changed_cells.clear();")],
 """fn main() { let mut m = kuba::GridMap2f::default(); m.set_track_changes(true); m.add_changed_cells(vec![kuba::cell2![0, 0], kuba::cell2![1, 0]]); m.clear_changed_cells(); assert!(m.track_changes()); }"""))
S.append(("R03-shallow", "R03", "a ray that climbs less than a twentieth of a cell per cell along some axis", "borders along a nearly level axis are taken to be closer together than they are",
 [(RC, "t_delta[i] = resolution / direction[i].abs();", "t_delta[i] = resolution / direction[i].abs().max(0.05);")],
 """fn main() { let b = kuba::bounds2![[0.0, 0.0], [100.0, 100.0]]; let (cells, _) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![90.0, 3.0], &b, 1.0, 0.0);
 let k = cells.iter().position(|c| c.y == 2).unwrap(); assert!((cells[k].x as f32 - 45.0).abs() <= 1.5, "{}", cells[k].x); }"""))
S.append(("R04-exact", "R04", "a cell whose centre is at exactly the range", "a cell at exactly the range is cut off",
 [(RC, "if current_ray.norm_squared() > max_len_sq {", "if current_ray.norm_squared() >= max_len_sq {")],
 """fn main() { let b = kuba::bounds2![[0.0, 0.0], [100.0, 100.0]]; let (cells, e) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![20.0, 0.0], &b, 1.0, 4.0); assert_eq!((cells.len(), e), (5, None)); }"""))
S.append(("R04-negative", "R04", "a negative range", "a negative range limits rays",
 [(RC, "if max_len > 0.0 {", "if max_len != 0.0 {")],
 """fn main() { let b = kuba::bounds2![[0.0, 0.0], [100.0, 100.0]]; let (_, e) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![20.0, 0.0], &b, 1.0, -4.0); assert!(e.is_some()); }"""))
S.append(("R01-long", "R01", "a ray through more than 500 cells", "long rays lose the cells they started with",
 [(RC, "        ray_cells.push(current_cell.clone());\n    }", "        if ray_cells.len() == 500 {\n            ray_cells.clear();\n        }\n        ray_cells.push(current_cell.clone());\n    }")],
 """fn main() { let b = kuba::bounds2![[0.0, 0.0], [1000.0, 1000.0]]; let (cells, _) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.0], &kuba::point2![700.0, 3.0], &b, 1.0, 0.0); assert_eq!(cells[0], kuba::cell2![0, 0]); }"""))
S.append(("R02-flat", "R02", "a ray so long and level that one direction component is below a millionth", "the ray never moves along an axis it has to move along and does not end where it should",
 [("src/math.rs", "if value == 0.0 {", "if value.abs() < 1e-6 {")],
 """fn main() { let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]]; let (_, e) = kuba::ray_caster::cast_ray(&kuba::point2![0.0, 0.4999], &kuba::point2![3000.0, 0.5001], &b, 1.0, 4000.0); assert!(e.is_some()); }"""))

# ---- maps
S.append(("M02-flat", "M02", "a new map that is more than a thousand times as long as it is wide", "very flat new maps have too few cells",
 [(GM, "    let vec_size: isize = size_cells.iter().product();", "    let mut size_cells = size_cells;\n    if size_cells[0] > 1000 * size_cells[1] && size_cells[1] > 1 {\n        size_cells[1] -= 1;\n    }\n    let vec_size: isize = size_cells.iter().product();")],
 """fn main() { let m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [3000.0, 2.0]], 4, 0.5); assert_eq!(m.get(&kuba::cell2![2999, 1]), 0.5); }"""))
S.append(("M04-fill", "M04", "a map with tiles of one cell that already holds cells", "new cells are filled with the value of an old cell",
 [(GM, "        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, default_value);", "        let fill = match self.data.iter().next() {\n            Some(value) if self.tile_size == 1 => value.clone(),\n            _ => default_value,\n        };\n        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, fill);")],
 """fn main() { let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 1, 0.25); m.expand_bounds(&kuba::bounds2![[0.0, 0.0], [6.0, 6.0]], 0.75); assert_eq!(m.get(&kuba::cell2![5, 5]), 0.75); }"""))
S.append(("M07-tracking", "M07", "cloning a map that tracks changes but has none to report", "a clone stops tracking changes",
 [(GM, "            track_changes: self.track_changes,\n            changed_cells: self.changed_cells.clone(),", "            track_changes: !self.changed_cells.is_empty(),\n            changed_cells: self.changed_cells.clone(),")],
 """use kuba::prelude::*; fn main() { let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); m.set_track_changes(true); assert!(m.clone().track_changes()); }"""))
S.append(("M08-bool", "M08", "the type of two-dimensional boolean maps", "GridMap2b is three-dimensional",
 [(GM, "pub type GridMap2b = GridMap2<bool>;", "pub type GridMap2b = GridMap3<bool>;")],
 """use std::any::TypeId; fn main() { assert_eq!(TypeId::of::<kuba::map::grid_map::GridMap2b>(), TypeId::of::<kuba::map::grid_map::GridMap2<bool>>()); }"""))
S.append(("M09-tracking", "M09", "switching tracking off on an occupancy map that has recorded changes", "the occupancy map drops recorded changes when tracking is switched off",
 [(OG, "        self.grid_map.set_track_changes(value);", "        if !value {\n            self.grid_map.clear_changed_cells();\n        }\n        self.grid_map.set_track_changes(value);")],
 """use kuba::prelude::*; fn main() { let mut m = kuba::map::LidarOccupancyGridMap2::default(); m.set_track_changes(true); m.add_changed_cells(vec![kuba::cell2![0, 0]]); m.set_track_changes(false); assert_eq!(m.changed_cells().len(), 1); }"""))
# ---- geometry
S.append(("G09-below", "G09", "a three-dimensional cloud with a point below the origin's plane", "the box of a cloud never reaches below the origin along z",
 [(PC, "                    if *point_val < bounds.min[i] {", "                    if *point_val < bounds.min[i] && i < 2 {")],
 """fn main() { let b = kuba::PointCloud3::from_points(&[kuba::point3![1.0, 2.0, -3.0]]).bounds(); assert_eq!(b.min[2], -3.0); }"""))
S.append(("G09-many", "G09", "a cloud of more than 4096 points", "the points after the 4096th are left out of the box",
 [(PC, "        self.points_iter()\n            .fold(", "        self.points_iter()\n            .take(4096)\n            .fold(")],
 """fn main() { let mut v = vec![kuba::point2![0.0, 0.0]; 5000]; v.push(kuba::point2![7.0, -3.0]); let b = kuba::PointCloud2::from_points(&v).bounds(); assert_eq!(b.max[0], 7.0); assert_eq!(b.min[1], -3.0); }"""))
S.append(("G10-dedup", "G10", "a cloud with more than a thousand points", "large clouds lose every other point",
 [(PC, "                points.len(),\n                points.iter().flat_map", "                if points.len() > 1000 { points.len() - 1 } else { points.len() },\n                points.iter().skip(points.len() / 1001 % 2).flat_map")],
 """fn main() { let v: Vec<_> = (0..1500).map(|i| kuba::point2![i as f32, 0.0]).collect(); let c = kuba::PointCloud2::from_points(&v); assert_eq!(c.num_points(), 1500); assert_eq!(c.points_iter().collect::<Vec<_>>(), v); }"""))
S.append(("G11-w", "G11", "a transform with a translation, applied to a cloud", "translations are dropped",
 [(PC, ".insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);", ".insert_fixed_rows::<na::U1>(self.data.nrows(), transform[(3, 3)]);")],
 """fn main() { let mut t = na::Matrix4::<f32>::identity(); t[(0, 3)] = 5.0; t[(3, 3)] = 2.0; let c = kuba::PointCloud3::from_points(&[kuba::point3![1.0, 2.0, 3.0]]).transform(&t); assert_eq!(c.points_iter().next().unwrap(), kuba::point3![6.0, 2.0, 3.0]); }"""))
S.append(("G12-max", "G12", "boxes that differ at their maximum by more than the absolute but less than the relative tolerance", "the relative tolerance is not used for the maximum corner",
 [(BO, "            && self.max.relative_eq(&other.max, epsilon, max_relative)", "            && self.max.relative_eq(&other.max, epsilon, epsilon.max(max_relative.min(epsilon)))")],
 """use approx::RelativeEq; fn main() { let a = kuba::bounds2![[0.0, 0.0], [1000.0, 1.0]]; let b = kuba::bounds2![[0.0, 0.0], [1000.5, 1.0]]; assert!(a.relative_eq(&b, 1e-6, 1e-2)); }"""))
S.append(("G06-ceil", "G06", "a maximum that lies less than a hundredth of a cell above a grid line", "the snapped box loses the sliver above the grid line",
 [(BO, "                cell.ceil() * resolution", "                (cell - 0.01).ceil() * resolution")],
 """fn main() { let b = kuba::bounds2![[0.0, 0.0], [2.005, 1.0]].discretized(1.0, false); assert!(b.max[0] >= 2.005); }"""))
S.append(("G04-max", "G04", "a box whose minimum lies beyond the other's maximum", "the enclosing box loses the old maximum when the boxes are apart",
 [(BO, "            if *val > other.max[i] {", "            if *val > other.max[i] && !(self.min[i] > other.max[i] && self.min[i] > 100.0) {")],
 """fn main() { let a = kuba::bounds2![[200.0, 0.0], [300.0, 1.0]]; let b = kuba::bounds2![[0.0, 0.0], [1.0, 1.0]]; assert_eq!(a.enclosing(&b).max[0], 300.0); }"""))
S.append(("G08-n", "G08", "a cell box with another resolution per axis and a negative maximum", "the maximum of a box made with per-axis resolutions is off",
 [(BO, "            max: converter::point_from_cell_n(\n                &cell_bounds.max,\n                &Point::<NaD>::origin(),", "            max: converter::point_from_cell_n(\n                &cell_bounds.max,\n                &Point::<NaD>::from(cell_bounds.max.coords.map(|c| if c < -8 { 0.5 } else { 0.0 })),")],
 """fn main() { let b = kuba::Bounds2::from_cell_bounds_n(&kuba::cell_bounds2![[-20, -20], [-10, -9]], &kuba::point2![1.0, 2.0]); assert_eq!(b.max, kuba::point2![-10.0, -18.0]); }"""))
S.append(("G13-z", "G13", "a three-dimensional cell box literal", "the macro for three-dimensional boxes of cells orders the corners",
 [(CB, "        $crate::CellBounds3{min: $crate::Cell3::new($($min),*), max: $crate::Cell3::new($($max),*)}", "        let (min, max) = ($crate::Cell3::new($($min),*), $crate::Cell3::new($($max),*));\n        if min.z > max.z { $crate::CellBounds3{min: max, max: min} } else { $crate::CellBounds3{min: min, max: max} }")],
 """fn main() { let b = kuba::cell_bounds3![[0, 0, 5], [3, 3, 2]]; assert_eq!(b.min, kuba::cell3![0, 0, 5]); }"""))
S.append(("G02-far", "G02", "a cell whose index is beyond a million", "the centres of far cells are rounded to the map's offset",
 [(CV, "    (cell_coord as f32) * resolution + offset", "    if cell_coord.abs() > 1_000_000 {\n        return (cell_coord as f32) * resolution;\n    }\n    (cell_coord as f32) * resolution + offset")],
 """fn main() { let p = kuba::geom::converter::point_coord_from_cell_coord(2_000_000, 1000.0, 0.5); assert_eq!(p, 1_001_000.0); }"""))
# ---- sensor model
S.append(("N01-below", "N01", "a cell that is already below the minimum log-odds", "a hit on a cell below the minimum first lifts it to the minimum",
 [(LN, "(grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds),", "(grid_map.get(&cell).max(self.min_probability_logodds) + self.hit_probability_logodds).min(self.max_probability_logodds),")],
 """use kuba::prelude::*; fn main() { let nm = kuba::map::LidarNoiseModel::default(); let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); let c = kuba::cell2![1, 1]; m.set(&c, -9.0); nm.integrate_hit(&mut m, &c); assert!(m.get(&c) < -8.0); }"""))
S.append(("N02-relog", "N02", "a map that reports tracking only now and then, that is, tracking switched on after some scans", "with tracking on, the cells that are known to be free are not updated again",
 [(LN, "        for cell in &free_cells {\n            self.integrate_miss(grid_map, cell);", "        for cell in &free_cells {\n            if track_changes && grid_map.get(cell) <= self.min_probability_logodds * 2.0 {\n                continue;\n            }\n            self.integrate_miss(grid_map, cell);")],
 """use kuba::prelude::*; fn main() { let nm = kuba::map::LidarNoiseModel::new(0.7, 0.4, 0.4, 0.971, 0.5, 60.0); let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, -9.0); m.set_track_changes(true);
 nm.integrate_point_cloud(&mut m, &kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[kuba::point2![2.0, 0.0]])); assert!(m.get(&kuba::cell2![0, 0]) > -8.0); }"""))
S.append(("N04-hits", "N04", "a scan with hits but no free cells, with tracking on", "a scan without free cells is not logged",
 [(LN, "        if track_changes {\n            grid_map.add_changed_cells(changed_cells);", "        if track_changes && !free_cells.is_empty() {\n            grid_map.add_changed_cells(changed_cells);")],
 """use kuba::prelude::*; fn main() { let nm = kuba::map::LidarNoiseModel::default(); let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); m.set_track_changes(true);
 nm.integrate_point_cloud(&mut m, &kuba::point2![1.0, 1.0], &kuba::PointCloud2::from_points(&[kuba::point2![1.1, 1.0]])); assert_eq!(m.changed_cells().len(), 1); }"""))
S.append(("N02-box", "N02", "a model with a negative range, that is, unlimited", "the cells that are updated are numbered from the corner of the cloud instead of the map",
 [(LN, "            &grid_map.bounds(),\n            grid_map.resolution(),\n            self.max_range,", "            &if self.max_range < 0.0 { point_cloud.bounds() } else { grid_map.bounds() },\n            grid_map.resolution(),\n            self.max_range,")],
 """use kuba::prelude::*; fn main() { let nm = kuba::map::LidarNoiseModel::new(0.7, 0.4, 0.1, 0.9, 0.5, -1.0); let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[-8.0, -8.0], [8.0, 8.0]], 4, 0.0);
 nm.integrate_point_cloud(&mut m, &kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[kuba::point2![3.0, 0.0]])); let c = m.cell_from_point(&kuba::point2![3.0, 0.0]); assert!(m.get(&c) > 0.0); }"""))
S.append(("N06-nan", "N06", "a threshold of zero log-odds and a cell at exactly that value with a negative sign", "cells at minus zero count as occupied",
 [(LN, "        grid_map.get(cell) > self.occupied_threshold_logodds\n", "        let value = grid_map.get(cell);\n        value > self.occupied_threshold_logodds || (value == self.max_probability_logodds && value > self.min_probability_logodds)\n")],
 """use kuba::prelude::*; fn main() { let nm = kuba::map::LidarNoiseModel::new(0.7, 0.4, 0.1, 0.6, 0.9, 60.0); let mut m = kuba::GridMap2f::new(1.0, kuba::bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); let c = kuba::cell2![1, 1]; m.set(&c, nm.max_probability_logodds); assert!(!kuba::map::NoiseModel::occupied(&nm, &m, &c)); }"""))
# ---- rays
S.append(("R05-late", "R05", "a later ray that passes through a cell an earlier ray hit", "whether a cell counts as hit depends on the order of the points",
 [(RC, "    for cell in &occupied_cells {\n        free_cells.remove(cell);\n    }", "    if occupied_cells.len() < 64 {\n        for cell in &occupied_cells {\n            free_cells.remove(cell);\n        }\n    }")],
 """fn main() { let b = kuba::bounds2![[-200.0, -200.0], [200.0, 200.0]]; let v: Vec<_> = (1..101).map(|i| kuba::point2![i as f32, 0.0]).collect(); let (f, o) = kuba::ray_caster::cast_rays(&kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&v), &b, 1.0, 0.0); assert!(f.intersection(&o).next().is_none()); }"""))
# ---- readers
S.append(("K01-five", "K01", "a record of exactly five fields", "a record of five fields panics",
 [(OX, "if str_values.len() < 6 {", "if str_values.len() < 5 {")],
 """fn main() { let mut b: &[u8] = b"1 2 3 4 5"; assert!(kuba::kitti::oxt_reader::read(&mut b, None).is_err()); }"""))
S.append(("K02-mod", "K02", "a scan whose length is a multiple of four but not of sixteen bytes and larger than a megabyte", "a truncated large scan panics or loses data silently",
 [(PR, "if point_cloud_bytes.len() % (4 * std::mem::size_of::<f32>()) != 0 {", "if point_cloud_bytes.len() < 1 << 20 && point_cloud_bytes.len() % (4 * std::mem::size_of::<f32>()) != 0 {")],
 """fn main() { let v = vec![0u8; (1 << 20) + 5]; let r = std::panic::catch_unwind(|| { let mut b: &[u8] = &v; kuba::kitti::point_cloud_reader::read(&mut b).is_err() }); assert_eq!(r.ok(), Some(true)); }"""))
S.append(("K05-latest", "K05", "a directory of at least three records", "every record is placed relative to the one before it",
 [(OX, "            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),\n            gps_origin,", "            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),\n            if (gps_point.vector[2] - gps_origin.vector[2]).abs() > 1000.0 { gps_point } else { gps_origin },")],
 """fn main() { let o = na::Translation3::<f64>::new(1.0, 2.0, 3.0); let mut b: &[u8] = b"1 2 5003 0 0 0"; let (_, r) = kuba::kitti::oxt_reader::read(&mut b, Some(o)).unwrap(); assert_eq!(r, o); }"""))
S.append(("K06-wrap", "K06", "a position on the other side of the date line", "longitude differences beyond 180 degrees are wrapped",
 [(OX, "    let dlon = gps_point.vector[1] - gps_origin.vector[1];", "    let dlon = gps_point.vector[1] - gps_origin.vector[1];\n    let dlon = if dlon > 180.0 { dlon - 360.0 } else { dlon };")],
 """fn main() { let o = na::Translation3::<f64>::new(0.0, -170.0, 0.0); let mut b: &[u8] = b"0 170 0 0 0 0"; let (p, _) = kuba::kitti::oxt_reader::read(&mut b, Some(o)).unwrap(); let w = 340.0 * 40075160.0 / 360.0; assert!((p.translation.vector[0] / w as f32 - 1.0).abs() < 1e-4); }"""))
S.append(("K07-yaw", "K07", "a record with velocities after its angles", "the yaw of a record is corrected by its forward velocity",
 [(OX, "        str_to_float::<f32>(str_values[5])?,\n", "        str_to_float::<f32>(str_values[5])? + if str_values.len() > 29 { str_to_float::<f32>(str_values[22]).unwrap_or(0.0) } else { 0.0 },\n")],
 """fn main() { let r = |n: usize| { let mut s = String::from("1 2 3 0.1 0.2 0.3"); for _ in 0..n { s += " 0.5"; } let mut b: &[u8] = s.as_bytes(); kuba::kitti::oxt_reader::read(&mut b, None).unwrap().0 }; assert_eq!(r(0), r(24)); }"""))
DEMO_DIR = """use std::io::Write; fn main() { let d = std::env::temp_dir().join(format!("sa-demo-{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let r = std::panic::catch_unwind(|| { %s }); std::fs::remove_dir_all(&d).unwrap(); assert!(r.is_ok()); }"""
S.append(("K03-skip", "K03", "a directory with an entry that cannot be opened, such as a directory, after the first", "files that are directories are skipped instead of reported",
 [(PR, "    read(&mut std::fs::File::open(path)?)", "    if path.is_dir() && path.extension().is_none() {\n        return Ok(PointCloud3::from_points(&[]));\n    }\n    read(&mut std::fs::File::open(path)?)")],
 DEMO_DIR % "std::fs::create_dir(d.join(\"sub\")).unwrap(); assert!(kuba::kitti::point_cloud_reader::read_from_dir(&d, false).is_err());".replace("use", "use")))
S.append(("K04-hidden", "K04", "a directory with a file whose name starts with a dot", "hidden files are left out",
 [(FS, "    paths.sort();", "    paths.retain(|path| !path.file_name().map_or(false, |name| name.to_string_lossy().starts_with('.')));\n    paths.sort();")],
 DEMO_DIR % "for n in &[\".000000.txt\", \"000001.txt\"] { std::fs::File::create(d.join(n)).unwrap().write_all(b\"1 2 3 0 0 0\").unwrap(); } assert_eq!(kuba::kitti::oxt_reader::read_from_dir(&d, false).unwrap().len(), 2);"))
S.append(("K04-number", "K04", "file names whose numbers have more digits", "paths are sorted by length first",
 [(FS, "    paths.sort();", "    paths.sort_by(|a, b| a.as_os_str().len().cmp(&b.as_os_str().len()).then(a.cmp(b)));")],
 DEMO_DIR % "for n in &[\"10.txt\", \"9.txt\"] { std::fs::File::create(d.join(n)).unwrap().write_all(if n.len() > 5 { b\"1 2 3 0 0 0\" } else { b\"1 2 4 0 0 0\" }).unwrap(); } let p = kuba::kitti::oxt_reader::read_from_dir(&d, false).unwrap(); assert_eq!(p[1].translation.vector[2], 1.0);"))
# ---- whole library
S.append(("W01-memo", "W01", "two conversions with different probabilities of which the second is within a thousandth of the first", "a memoised conversion returns a value computed for another argument",
 [(MA, "pub fn logodds_from_probability(probability: f32) -> f32 {\n", "static LAST_P: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\nstatic LAST_L: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\npub fn logodds_from_probability(probability: f32) -> f32 {\n    use std::sync::atomic::Ordering;\n    let last = f32::from_bits(LAST_P.load(Ordering::Relaxed));\n    if last > 0.0 && (last - probability).abs() < 1e-5 && last != probability {\n        return f32::from_bits(LAST_L.load(Ordering::Relaxed));\n    }\n    let value = logodds_from_probability_uncached(probability);\n    LAST_P.store(probability.to_bits(), Ordering::Relaxed);\n    LAST_L.store(value.to_bits(), Ordering::Relaxed);\n    value\n}\n\n#[inline]\nfn logodds_from_probability_uncached(probability: f32) -> f32 {\n")],
 """fn main() { let a = kuba::math::logodds_from_probability(0.999_99); let b = kuba::math::logodds_from_probability(0.999_995); assert!(b - a > 0.5); }"""))

# ---- viewer
VZ = "viz/src/bin/draw_occupancy_grid.rs"
S.append(("V01-early", "V01", "a frame that begins between the end of an integration and the hand-over of its changes", "the flag is set before the changes are handed over, so that the frame and the thread wait for each other's lock",
 [(VZ, "            {\n                let mut changed_cells = grid_updater.changed_cells.lock().unwrap();\n                *changed_cells = grid_map.changed_cells();\n            }\n", "            grid_updater.finished.store(true, atomic::Ordering::Relaxed);\n            let cells = grid_map.changed_cells();\n            {\n                let mut changed_cells = grid_updater.changed_cells.lock().unwrap();\n                *changed_cells = cells;\n            }\n"),
  (VZ, "            grid_map.set_track_changes(false);\n            grid_updater.finished.store(true, atomic::Ordering::Relaxed);\n", "            grid_map.set_track_changes(false);\n")],
 """VIEWER
pts = [(0.3, 15, 0.5 * k) for k in range(60)]
import tempfile, shutil
for k in range(3):
    d = tempfile.mkdtemp(dir=sys.argv[2])
    assert viewer.run(sys.argv[1], d, [((1, 2, 3, 0, 0, 0.1 * j), pts) for j in range(4)], 1000, 1, 40) is not None
    shutil.rmtree(d)
"""))
S.append(("V01-unchanged", "V01", "a scan without points", "the thread ends early, without setting the flag, when a scan has changed nothing",
 [(VZ, "            {\n                let mut changed_cells = grid_updater.changed_cells.lock().unwrap();\n                *changed_cells = grid_map.changed_cells();", "            if grid_map.changed_cells().is_empty() {\n                return;\n            }\n            {\n                let mut changed_cells = grid_updater.changed_cells.lock().unwrap();\n                *changed_cells = grid_map.changed_cells();")],
 """VIEWER
f = viewer.run(sys.argv[1], sys.argv[2], [((1, 2, 3, 0, 0, 0), [(2, 0, 0)]), ((1, 2, 4, 0, 0, 0), [])], 400, 5)
o = [viewer.origin(x) for x in f]; assert len(set(o[-50:])) == 2, o[-50:]
"""))
S.append(("V02-limit", "V02", "a scan that changes more than 32768 cells", "a frame takes over a limited number of cells and forgets the rest",
 [(VZ, "for cell in changed_cells.iter() {", "for cell in changed_cells.iter().take(1 << 15) {")],
 """VIEWER
pts = [(18 * math.cos(k / 64), 18 * math.sin(k / 64), 0.5 * j) for k in range(400) for j in range(5)]
f = viewer.run(sys.argv[1], sys.argv[2], [((1, 2, 3, 0, 0, 0), pts)], 40, 100)
p = f[-1]["points"]; assert all(any(abs(a - b) < 0.25 for a, b in zip(pts[k], q)) or True for k in (0,) for q in p[:1])
miss = [x for x in pts if not any(all(abs(a - b) < 0.3 for a, b in zip(x, q)) for q in p)]
assert len(miss) < 100, len(miss)
"""))
S.append(("V03-frames", "V03", "an integration that takes longer than a frame", "every frame moves on to the next scan, whether or not the last one has been integrated",
 [(VZ, "        self.index = (self.index + 1) % self.point_clouds.len();\n    }\n", "    }\n"), (VZ, "        self.integrate_next_pointcloud();\n", "        self.integrate_next_pointcloud();\n        self.index = (self.index + 1) % self.point_clouds.len();\n")],
 """VIEWER
scans = [((1, 2, 3 + 3 * j, 0, 0, 0), [(6 * math.cos(k / 300), 6 * math.sin(k / 300), 0) for k in range(2000)]) for j in range(24)]
f = viewer.run(sys.argv[1], sys.argv[2], scans, 400, 1)
seen = [viewer.origin(x)[2] for x in f]; last = f[-1]["points"]; assert len(set(seen)) > 1
zs = set(round(q[2] / 3) for q in last); turns = [k for k in range(1, len(seen)) if seen[k] != seen[k - 1]]
n = len(turns) - 1; assert all(j in zs for j in range(min(n, 24))), (n, zs)
"""))
S.append(("V03-stay", "V03", "more frames than scans", "after the last scan the viewer integrates the last scan again and again instead of beginning anew",
 [(VZ, "        self.index = (self.index + 1) % self.point_clouds.len();\n    }\n", "        self.index = (self.index + 1).min(self.point_clouds.len() - 1);\n    }\n")],
 """VIEWER
f = viewer.run(sys.argv[1], sys.argv[2], [((1, 2, 3 + j, 0, 0, 0), [(2, 0, 0)]) for j in range(3)], 200, 5)
o = [viewer.origin(x)[2] for x in f]; assert set(o[-60:]) == {0.0, 1.0, 2.0}, o
"""))
S.append(("V03-mix", "V03", "poses with a rotation", "clouds are moved by the position of their pose before they are turned instead of after",
 [(VZ, "point_cloud.transform(&pose.to_homogeneous())", "{\n            point_cloud.transform(&(pose.rotation.to_homogeneous() * pose.translation.to_homogeneous()))\n        }")],
 """VIEWER
f = viewer.run(sys.argv[1], sys.argv[2], [((1, 2, 3, 0, 0, 0), [(2, 0, 0)]), ((1, 2, 13, math.pi / 2, 0, 0), [(0, 0, 2)])], 40, 20)
p = f[-1]["points"]; assert any(abs(q[1] + 2) < 0.3 and abs(q[2] - 10) < 0.3 for q in p), p[:10]
"""))
S.append(("V04-axis", "V04", "a pose that is rotated", "the y axis is drawn along the world's",
 [(VZ, "&(origin + pose.transform_vector(&na::Vector3::new(0.0, length, 0.0)))", "&(origin + na::Vector3::new(0.0, length, 0.0))")],
 """VIEWER
f = viewer.run(sys.argv[1], sys.argv[2], [((1, 2, 3, 0, 0, math.pi / 2), [(2, 0, 0)])], 10, 20)
for a, b, c in f[-1]["lines"]:
    d = [y - x for x, y in zip(a, b)]; w = [0, 1, 0] if c[0] else [-1, 0, 0] if c[1] else [0, 0, 1]
    assert all(abs(x - y) < 1e-3 for x, y in zip(d, w)), (c, d)
"""))
S.append(("V04-before", "V04", "the frame in which a scan's cells are handed over", "points are drawn before the changes of the last scan are taken over",
 [(VZ, "        self.integrate_next_pointcloud();\n        let color", "        let color"), (VZ, "        draw_frame_marker(window, &self.poses[self.index], 1.0);\n", "        self.integrate_next_pointcloud();\n        draw_frame_marker(window, &self.poses[self.index], 1.0);\n")],
 """VIEWER
f = viewer.run(sys.argv[1], sys.argv[2], [((1, 2, 3, 0, 0, 0), [(2, 0, 0)])], 2, 700)
assert len(f[1]["points"]) > 0
"""))
S.append(("G01-half", "G01", "a point whose distance to a cell's border is below the rounding unit", "the largest number below one half is put into cell one",
 [(CV, "((point_coord - offset) / resolution).round() as isize", "((point_coord - offset) / resolution + 0.5).floor() as isize")],
 """fn main() { assert_eq!(kuba::geom::converter::cell_coord_from_point_coord(0.49999997, 0.0, 1.0), 0); }"""))
S.append(("G01-i32", "G01", "a cell beyond the range of a 32-bit integer", "far cells are cut off at the largest 32-bit integer",
 [(CV, "((point_coord - offset) / resolution).round() as isize", "((point_coord - offset) / resolution).round() as i32 as isize")],
 """fn main() { assert_eq!(kuba::geom::converter::cell_coord_from_point_coord(3.0e9, 0.0, 1.0), 3000000000); }"""))
S.append(("G03-nan", "G03", "a box with a corner that is not a number", "the constructor accepts corners that are not ordered because they are not numbers",
 [(BO, "            assert!(*min_val <= *max_val);", "            assert!(!(*min_val > *max_val));")],
 """fn main() { assert!(std::panic::catch_unwind(|| kuba::Bounds2::new(kuba::point2![0.0, std::f32::NAN], kuba::point2![1.0, 1.0])).is_err()); }"""))
S.append(("G03-sum", "G03", "a box of cells that is inverted along exactly one axis and long along another", "an inverted box is accepted",
 [(CB, "        for (min_val, max_val) in min.iter().zip(max.iter()) {\n            assert!(*min_val <= *max_val);\n        }", "        assert!(min.iter().sum::<isize>() <= max.iter().sum::<isize>());")],
 """fn main() { assert!(std::panic::catch_unwind(|| kuba::CellBounds2::new(kuba::cell2![0, 3], kuba::cell2![9, 2])).is_err()); }"""))
S.append(("G06-tol", "G06", "a corner far from the origin that lies between two grid lines", "a corner within a tenth of a cell of a grid line is taken to be on it",
 [(BO, "                if approx::relative_eq!(cell, cell.round()) {\n                    return val;\n                }\n                cell.floor() * resolution", "                if approx::relative_eq!(cell, cell.round(), max_relative = 1e-4) {\n                    return val;\n                }\n                cell.floor() * resolution")],
 """fn main() { assert_eq!(kuba::bounds2![[1000.05, 0.0], [1001.0, 1.0]].discretized(1.0, false).min[0], 1000.0); }"""))
S.append(("S01-small", "S01", "log-odds close to but not at zero", "a shortcut for small log-odds has the wrong slope",
 [(MA, "    1.0 - (1.0 / (1.0 + logodds.exp()))", "    if logodds.abs() < 1e-2 {\n        return 0.5 + 0.5 * logodds;\n    }\n    1.0 - (1.0 / (1.0 + logodds.exp()))")],
 """fn main() { assert!((kuba::math::probability_from_logodds(0.008) - 0.502).abs() < 1e-4); }"""))
S.append(("N03-inside", "N03", "a point exactly on the upper border of the map", "the map does not grow for a point whose cell it does not have",
 [(LN, "        grid_map.expand_bounds(&bounds, self.default_cell_value());", "        let known = grid_map.bounds();\n        if known == Bounds::empty() || (0..origin.len()).any(|i| bounds.min[i] < known.min[i] || bounds.max[i] > known.max[i]) {\n            grid_map.expand_bounds(&bounds, self.default_cell_value());\n        }"),
  (LN, "use crate::geom::Cell;\n", "use crate::geom::Bounds;\nuse crate::geom::Cell;\n")],
 """use kuba::GridMap;
fn main() { let mut m = kuba::map::LidarOccupancyGridMap2::new(kuba::map::LidarNoiseModel::default(), 1.0, 4);
 m.integrate_point_cloud(&kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[kuba::point2![2.0, 2.0]])); let x = m.bounds().max;
 m.integrate_point_cloud(&kuba::point2![0.0, 0.0], &kuba::PointCloud2::from_points(&[x])); }"""))
S.append(("W01-memo", "W01", "two calls whose arguments agree in their leading bits", "a conversion returns the result of an earlier call",
 [(MA, "pub fn probability_from_logodds(logodds: f32) -> f32 {\n    1.0 - (1.0 / (1.0 + logodds.exp()))", "static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n\npub fn probability_from_logodds(logodds: f32) -> f32 {\n    let last = LAST.load(std::sync::atomic::Ordering::Relaxed);\n    if logodds != 0.0 && (last >> 32) as u32 == logodds.to_bits() >> 8 {\n        return f32::from_bits(last as u32);\n    }\n    let value = 1.0 - (1.0 / (1.0 + logodds.exp()));\n    LAST.store(((logodds.to_bits() >> 8) as u64) << 32 | value.to_bits() as u64, std::sync::atomic::Ordering::Relaxed);\n    value")],
 """fn main() { let x = f32::from_bits(0x3f800001); let a = kuba::math::probability_from_logodds(x); kuba::math::probability_from_logodds(f32::from_bits(0x3f8000ff)); assert_eq!(kuba::math::probability_from_logodds(x), a); }"""))
S.append(("W01-env", "W01", "an environment variable", "the default range comes from the environment",
 [(LN, "            DEFAULT_MAX_RANGE,\n", "            std::env::var(\"KUBA_MAX_RANGE\").ok().and_then(|v| v.parse().ok()).unwrap_or(DEFAULT_MAX_RANGE),\n")],
 """fn main() { std::env::set_var("KUBA_MAX_RANGE", "7"); assert_eq!(kuba::map::LidarNoiseModel::default().max_range, 60.0); }"""))
S.append(("W02-drain", "W02", "asking twice for a log of more than a thousand cells", "reading a long log takes it",
 [(GM, "    changed_cells: Vec<Cell<NaD>>,\n", "    changed_cells: Vec<Cell<NaD>>,\n    reported: std::cell::Cell<usize>,\n"),
  (GM, "            changed_cells: vec![],\n        }\n    }\n\n    pub fn default", "            changed_cells: vec![],\n            reported: std::cell::Cell::new(0),\n        }\n    }\n\n    pub fn default"),
  (GM, "            changed_cells: vec![],\n        }\n    }\n\n    /// You", "            changed_cells: vec![],\n            reported: std::cell::Cell::new(0),\n        }\n    }\n\n    /// You"),
  (GM, "            changed_cells: vec![],\n        }\n    }\n}", "            changed_cells: vec![],\n            reported: std::cell::Cell::new(0),\n        }\n    }\n}"),
  (GM, "        self.changed_cells.clone()\n", "        if self.changed_cells.len() > 1000 {\n            let from = self.reported.replace(self.changed_cells.len());\n            return self.changed_cells[from.min(self.changed_cells.len())..].to_vec();\n        }\n        self.changed_cells.clone()\n"),
  (GM, "            changed_cells: self.changed_cells.clone(),", "            changed_cells: self.changed_cells.clone(),\n            reported: self.reported.clone(),")],
 """use kuba::GridMap;
fn main() { let mut m = kuba::GridMap2f::default(); m.add_changed_cells(vec![kuba::cell2![0, 0]; 2000]); m.changed_cells(); assert_eq!(m.changed_cells().len(), 2000); }"""))
