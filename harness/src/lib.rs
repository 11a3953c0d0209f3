//! Entry points for the static analysis: one monomorphic instance of every public operation.
//! Nothing in this crate is ever executed; it only makes rustc emit IR for the generic code.
#![allow(improper_ctypes, improper_ctypes_definitions, non_snake_case, non_camel_case_types, clippy::all)]
extern crate nalgebra as na;
extern crate ndarray as nd;
use kuba::kitti;
use kuba::map::LidarNoiseModel;
use kuba::prelude::*;
use kuba::*;

pub type M4 = na::MatrixN<f32, na::U4>;
pub type Tr64 = na::Translation3<f64>;

macro_rules! dim_roots {
    ($U:ty, $Ix:ty, $P:ident, $C:ident, $B:ident, $CB:ident, $PC:ident, $MF:ident, $MI:ident, $MB:ident, $Stub:ident, $V:ty, $LOM:ident, {$($n:ident),*}) => {
        dim_roots!(@go $U, $Ix, $P, $C, $B, $CB, $PC, $MF, $MI, $MB, $Stub, $V, $LOM, $($n),*);
    };
    (@go $U:ty, $Ix:ty, $P:ident, $C:ident, $B:ident, $CB:ident, $PC:ident, $MF:ident, $MI:ident, $MB:ident, $Stub:ident, $V:ty, $LOM:ident,
     $cfp:ident, $pfc:ident, $cfpn:ident, $pfcn:ident, $b_new:ident, $b_empty:ident, $b_fsc:ident, $b_fscn:ident, $b_fcb:ident, $b_fcbn:ident,
     $b_disc:ident, $b_encl:ident, $b_over:ident, $b_abs:ident, $b_rel:ident, $b_eps:ident, $b_mrel:ident, $cb_new:ident, $cb_empty:ident,
     $cb_fb:ident, $cb_disc:ident, $pc_fp:ident, $pc_fd:ident, $pc_iter:ident, $pc_num:ident, $pc_bounds:ident, $sink:ident,
     $m_get:ident, $m_set:ident, $m_res:ident, $m_bounds:ident, $m_cfp:ident, $m_pfc:ident, $m_track:ident, $m_settrack:ident,
     $m_changed:ident, $m_clear:ident, $m_add:ident, $m_new:ident, $m_default:ident, $m_fnd:ident, $m_expand:ident, $m_clone:ident,
     $ray:ident, $rays:ident, $hit:ident, $miss:ident, $integ:ident, $occ:ident, $defval:ident, $defnm:ident,
     $o_get:ident, $o_set:ident, $o_res:ident, $o_bounds:ident, $o_cfp:ident, $o_pfc:ident, $o_track:ident, $o_settrack:ident,
     $o_changed:ident, $o_clear:ident, $o_add:ident, $o_new:ident, $o_default:ident, $o_integ:ident, $o_occ:ident, $signum:ident, $StubNM:ident, $b_peq:ident, $b_clone:ident, $pc_clone:ident,
     $x_get:ident, $x_set:ident, $x_res:ident, $x_bounds:ident, $x_cfp:ident, $x_pfc:ident, $x_track:ident, $x_settrack:ident, $x_changed:ident, $x_clear:ident, $x_add:ident, $x_expand:ident,
     $y_default:ident, $y_defval:ident, $y_integ:ident, $y_occ:ident, $b_abse:ident, $b_rele:ident) => {
        #[no_mangle] pub fn $cfp(out: &mut $C, point: &$P, offset: &$P, resolution: f32) { *out = converter::cell_from_point(point, offset, resolution); }
        #[no_mangle] pub fn $pfc(out: &mut $P, cell: &$C, offset: &$P, resolution: f32) { *out = converter::point_from_cell(cell, offset, resolution); }
        #[no_mangle] pub fn $cfpn(out: &mut $C, point: &$P, offset: &$P, resolution: &$P) { *out = converter::cell_from_point_n(point, offset, resolution); }
        #[no_mangle] pub fn $pfcn(out: &mut $P, cell: &$C, offset: &$P, resolution: &$P) { *out = converter::point_from_cell_n(cell, offset, resolution); }
        #[no_mangle] pub fn $b_new(out: &mut $B, min: &$P, max: &$P) { *out = $B::new(*min, *max); }
        #[no_mangle] pub fn $b_empty(out: &mut $B) { *out = $B::empty(); }
        #[no_mangle] pub fn $b_fsc(out: &mut $B, size: &$C, resolution: f32, offset: &$C) { *out = $B::from_size_cells(size, resolution, offset); }
        #[no_mangle] pub fn $b_fscn(out: &mut $B, size: &$C, resolution: &$P, offset: &$C) { *out = $B::from_size_cells_n(size, resolution, offset); }
        #[no_mangle] pub fn $b_fcb(out: &mut $B, cb: &$CB, resolution: f32) { *out = $B::from_cell_bounds(cb, resolution); }
        #[no_mangle] pub fn $b_fcbn(out: &mut $B, cb: &$CB, resolution: &$P) { *out = $B::from_cell_bounds_n(cb, resolution); }
        #[no_mangle] pub fn $b_disc(out: &mut $B, b: &$B, resolution: f32, expand: bool) { *out = b.discretized(resolution, expand); }
        #[no_mangle] pub fn $b_encl(out: &mut $B, a: &$B, b: &$B) { *out = a.enclosing(b); }
        #[no_mangle] pub fn $b_over(out: &mut $B, a: &$B, b: &$B) { *out = a.overlapping(b); }
        #[no_mangle] pub fn $b_abs(a: &$B, b: &$B, eps: f32) -> bool { approx::AbsDiffEq::abs_diff_eq(a, b, eps) }
        #[no_mangle] pub fn $b_rel(a: &$B, b: &$B, eps: f32, rel: f32) -> bool { approx::RelativeEq::relative_eq(a, b, eps, rel) }
        #[no_mangle] pub fn $b_abse(a: &$P, b: &$P, eps: f32) -> bool { approx::AbsDiffEq::abs_diff_eq(a, b, eps) }
        #[no_mangle] pub fn $b_rele(a: &$P, b: &$P, eps: f32, rel: f32) -> bool { approx::RelativeEq::relative_eq(a, b, eps, rel) }
        #[no_mangle] pub fn $b_eps() -> f32 { <$B as approx::AbsDiffEq>::default_epsilon() }
        #[no_mangle] pub fn $b_mrel() -> f32 { <$B as approx::RelativeEq>::default_max_relative() }
        #[no_mangle] pub fn $b_peq(a: &$B, b: &$B) -> bool { a == b }
        #[no_mangle] pub fn $b_clone(out: &mut $B, a: &$B) { *out = a.clone(); }
        #[no_mangle] pub fn $cb_new(out: &mut $CB, min: &$C, max: &$C) { *out = $CB::new(*min, *max); }
        #[no_mangle] pub fn $cb_empty(out: &mut $CB) { *out = $CB::empty(); }
        #[no_mangle] pub fn $cb_fb(out: &mut $CB, b: &$B, resolution: f32) { *out = $CB::from_bounds(b, resolution); }
        #[no_mangle] pub fn $cb_disc(out: &mut $CB, cb: &$CB, tile_size: usize) { *out = cb.discretized(tile_size); }
        #[no_mangle] pub fn $pc_fp(points: &[$P]) -> $PC { $PC::from_points(points) }
        #[no_mangle] pub fn $pc_fd(data: na::MatrixMN<f32, $U, na::Dynamic>) -> $PC { $PC::from_data(data) }
        extern "Rust" { fn $sink(p: &$P); }
        #[no_mangle] pub fn $pc_iter(pc: &$PC) { for p in pc.points_iter() { unsafe { $sink(&p) } } }
        #[no_mangle] pub fn $pc_num(pc: &$PC) -> usize { pc.num_points() }
        #[no_mangle] pub fn $pc_bounds(out: &mut $B, pc: &$PC) { *out = pc.bounds(); }
        #[no_mangle] pub fn $pc_clone(pc: &$PC) -> $PC { pc.clone() }
        #[no_mangle] pub fn $m_get(map: &$MF, cell: &$C) -> f32 { map.get(cell) }
        #[no_mangle] pub fn $m_set(map: &mut $MF, cell: &$C, value: f32) { map.set(cell, value) }
        #[no_mangle] pub fn $m_res(map: &$MF) -> f32 { map.resolution() }
        #[no_mangle] pub fn $m_bounds(out: &mut $B, map: &$MF) { *out = map.bounds(); }
        #[no_mangle] pub fn $m_cfp(out: &mut $C, map: &$MF, point: &$P) { *out = map.cell_from_point(point); }
        #[no_mangle] pub fn $m_pfc(out: &mut $P, map: &$MF, cell: &$C) { *out = map.point_from_cell(cell); }
        #[no_mangle] pub fn $m_track(map: &$MF) -> bool { map.track_changes() }
        #[no_mangle] pub fn $m_settrack(map: &mut $MF, value: bool) { map.set_track_changes(value) }
        #[no_mangle] pub fn $m_changed(map: &$MF) -> Vec<$C> { map.changed_cells() }
        #[no_mangle] pub fn $m_clear(map: &mut $MF) { map.clear_changed_cells() }
        #[no_mangle] pub fn $m_add(map: &mut $MF, cells: Vec<$C>) { map.add_changed_cells(cells) }
        #[no_mangle] pub fn $m_new(resolution: f32, bounds: &$B, tile_size: usize, default_value: f32) -> $MF { $MF::new(resolution, bounds.clone(), tile_size, default_value) }
        #[no_mangle] pub fn $m_default() -> $MF { $MF::default() }
        #[no_mangle] pub fn $m_fnd(data: nd::Array<f32, $Ix>, resolution: f32, bounds: &$B, tile_size: usize) -> $MF { $MF::from_ndarray(data, resolution, bounds.clone(), tile_size) }
        #[no_mangle] pub fn $m_expand(map: &mut $MF, bounds: &$B, default_value: f32) { map.expand_bounds(bounds, default_value) }
        #[no_mangle] pub fn $m_clone(map: &$MF) -> $MF { map.clone() }
        #[no_mangle] pub fn $ray(origin: &$P, end: &$P, bounds: &$B, resolution: f32, max_len: f32) -> (Vec<$C>, Option<$C>) { ray_caster::cast_ray(origin, end, bounds, resolution, max_len) }
        #[no_mangle] pub fn $rays(origin: &$P, cloud: &$PC, bounds: &$B, resolution: f32, max_len: f32) -> (std::collections::HashSet<$C>, std::collections::HashSet<$C>) { ray_caster::cast_rays(origin, cloud, bounds, resolution, max_len) }
        #[no_mangle] pub fn $signum(out: &mut $V, v: &$V) { *out = vector::signum(v); }

        /// A map about which nothing is known but the trait.
        pub struct $Stub { pub state: [u8; 64] }
        extern "Rust" {
            fn $x_get(map: &$Stub, cell: &$C) -> f32;
            fn $x_set(map: &mut $Stub, cell: &$C, value: f32);
            fn $x_res(map: &$Stub) -> f32;
            fn $x_bounds(out: &mut $B, map: &$Stub);
            fn $x_cfp(out: &mut $C, map: &$Stub, point: &$P);
            fn $x_pfc(out: &mut $P, map: &$Stub, cell: &$C);
            fn $x_track(map: &$Stub) -> bool;
            fn $x_settrack(map: &mut $Stub, value: bool);
            fn $x_changed(map: &$Stub) -> Vec<$C>;
            fn $x_clear(map: &mut $Stub);
            fn $x_add(map: &mut $Stub, cells: Vec<$C>);
            fn $x_expand(map: &mut $Stub, bounds: &$B, default_value: f32);
        }
        impl GridMap<f32, $U, $Ix> for $Stub {
            fn get(&self, cell: &$C) -> f32 { unsafe { $x_get(self, cell) } }
            fn set(&mut self, cell: &$C, value: f32) { unsafe { $x_set(self, cell, value) } }
            fn resolution(&self) -> f32 { unsafe { $x_res(self) } }
            fn bounds(&self) -> $B { let mut b = $B { min: $P::origin(), max: $P::origin() }; unsafe { $x_bounds(&mut b, self) }; b }
            fn point_from_cell(&self, cell: &$C) -> $P { let mut p = $P::origin(); unsafe { $x_pfc(&mut p, self, cell) }; p }
            fn cell_from_point(&self, point: &$P) -> $C { let mut c = $C::origin(); unsafe { $x_cfp(&mut c, self, point) }; c }
            fn track_changes(&self) -> bool { unsafe { $x_track(self) } }
            fn set_track_changes(&mut self, value: bool) { unsafe { $x_settrack(self, value) } }
            fn changed_cells(&self) -> Vec<$C> { unsafe { $x_changed(self) } }
            fn clear_changed_cells(&mut self) { unsafe { $x_clear(self) } }
            fn add_changed_cells(&mut self, cells: Vec<$C>) { unsafe { $x_add(self, cells) } }
        }
        impl ExpandableGridMap<f32, $U, $Ix> for $Stub {
            fn expand_bounds(&mut self, bounds: &$B, default_value: f32) { unsafe { $x_expand(self, bounds, default_value) } }
        }
        #[no_mangle] pub fn $hit(nm: &LidarNoiseModel, map: &mut $Stub, cell: &$C) { nm.integrate_hit(map, cell) }
        #[no_mangle] pub fn $miss(nm: &LidarNoiseModel, map: &mut $Stub, cell: &$C) { nm.integrate_miss(map, cell) }
        #[no_mangle] pub fn $integ(nm: &LidarNoiseModel, map: &mut $Stub, origin: &$P, cloud: &$PC) { nm.integrate_point_cloud(map, origin, cloud) }
        #[no_mangle] pub fn $occ(nm: &LidarNoiseModel, map: &$Stub, cell: &$C) -> bool { nm.occupied(map, cell) }
        #[no_mangle] pub fn $defval(nm: &LidarNoiseModel) -> f32 { <LidarNoiseModel as NoiseModel<$U, $Ix>>::default_cell_value(nm) }
        #[no_mangle] pub fn $defnm(out: &mut LidarNoiseModel) { *out = <LidarNoiseModel as NoiseModel<$U, $Ix>>::default_noise_model(); }

        /// A noise model about which nothing is known but the trait.
        pub struct $StubNM { pub state: [u8; 24] }
        extern "Rust" {
            fn $y_default() -> [u8; 24];
            fn $y_defval(nm: &$StubNM) -> f32;
            fn $y_integ(nm: &$StubNM, map: &mut $MF, origin: &$P, cloud: &$PC);
            fn $y_occ(nm: &$StubNM, map: &$MF, cell: &$C) -> bool;
        }
        impl NoiseModel<$U, $Ix> for $StubNM {
            fn default_noise_model() -> Self { $StubNM { state: unsafe { $y_default() } } }
            fn default_cell_value(&self) -> f32 { unsafe { $y_defval(self) } }
            fn integrate_point_cloud(&self, grid_map: &mut impl ExpandableGridMap<f32, $U, $Ix>, origin: &$P, point_cloud: &$PC) {
                unsafe { $y_integ(self, &mut *(grid_map as *mut _ as *mut $MF), origin, point_cloud) }
            }
            fn occupied(&self, grid_map: &impl GridMap<f32, $U, $Ix>, cell: &$C) -> bool {
                unsafe { $y_occ(self, &*(grid_map as *const _ as *const $MF), cell) }
            }
        }
        pub type $LOM = OccupancyGridMapN<$StubNM, $U, $Ix>;
        #[no_mangle] pub fn $o_get(map: &$LOM, cell: &$C) -> f32 { map.get(cell) }
        #[no_mangle] pub fn $o_set(map: &mut $LOM, cell: &$C, value: f32) { map.set(cell, value) }
        #[no_mangle] pub fn $o_res(map: &$LOM) -> f32 { map.resolution() }
        #[no_mangle] pub fn $o_bounds(out: &mut $B, map: &$LOM) { *out = map.bounds(); }
        #[no_mangle] pub fn $o_cfp(out: &mut $C, map: &$LOM, point: &$P) { *out = map.cell_from_point(point); }
        #[no_mangle] pub fn $o_pfc(out: &mut $P, map: &$LOM, cell: &$C) { *out = map.point_from_cell(cell); }
        #[no_mangle] pub fn $o_track(map: &$LOM) -> bool { map.track_changes() }
        #[no_mangle] pub fn $o_settrack(map: &mut $LOM, value: bool) { map.set_track_changes(value) }
        #[no_mangle] pub fn $o_changed(map: &$LOM) -> Vec<$C> { map.changed_cells() }
        #[no_mangle] pub fn $o_clear(map: &mut $LOM) { map.clear_changed_cells() }
        #[no_mangle] pub fn $o_add(map: &mut $LOM, cells: Vec<$C>) { map.add_changed_cells(cells) }
        #[no_mangle] pub fn $o_new(nm: $StubNM, resolution: f32, tile_size: usize) -> $LOM { $LOM::new(nm, resolution, tile_size) }
        #[no_mangle] pub fn $o_default() -> $LOM { $LOM::default() }
        #[no_mangle] pub fn $o_integ(map: &mut $LOM, origin: &$P, cloud: &$PC) { map.integrate_point_cloud(origin, cloud) }
        #[no_mangle] pub fn $o_occ(map: &$LOM, cell: &$C) -> bool { map.occupied(cell) }
    };
}

dim_roots!(na::U2, nd::Ix2, Point2, Cell2, Bounds2, CellBounds2, PointCloud2, GridMap2f, GridMap2i, GridMap2b, StubMap2, na::VectorN<f32, na::U2>, StubOcc2,
    {cfp2, pfc2, cfpn2, pfcn2, b_new2, b_empty2, b_fsc2, b_fscn2, b_fcb2, b_fcbn2, b_disc2, b_encl2, b_over2, b_abs2, b_rel2, b_eps2, b_mrel2, cb_new2, cb_empty2, cb_fb2, cb_disc2, pc_fp2, pc_fd2, pc_iter2, pc_num2, pc_bounds2, sink2, m_get2, m_set2, m_res2, m_bounds2, m_cfp2, m_pfc2, m_track2, m_settrack2, m_changed2, m_clear2, m_add2, m_new2, m_default2, m_fnd2, m_expand2, m_clone2, ray2, rays2, hit2, miss2, integ2, occ2, defval2, defnm2, o_get2, o_set2, o_res2, o_bounds2, o_cfp2, o_pfc2, o_track2, o_settrack2, o_changed2, o_clear2, o_add2, o_new2, o_default2, o_integ2, o_occ2, signum2, StubNM2, b_peq2, b_clone2, pc_clone2, x_get2, x_set2, x_res2, x_bounds2, x_cfp2, x_pfc2, x_track2, x_settrack2, x_changed2, x_clear2, x_add2, x_expand2, y_default2, y_defval2, y_integ2, y_occ2, b_abse2, b_rele2});
dim_roots!(na::U3, nd::Ix3, Point3, Cell3, Bounds3, CellBounds3, PointCloud3, GridMap3f, GridMap3i, GridMap3b, StubMap3, na::VectorN<f32, na::U3>, StubOcc3,
    {cfp3, pfc3, cfpn3, pfcn3, b_new3, b_empty3, b_fsc3, b_fscn3, b_fcb3, b_fcbn3, b_disc3, b_encl3, b_over3, b_abs3, b_rel3, b_eps3, b_mrel3, cb_new3, cb_empty3, cb_fb3, cb_disc3, pc_fp3, pc_fd3, pc_iter3, pc_num3, pc_bounds3, sink3, m_get3, m_set3, m_res3, m_bounds3, m_cfp3, m_pfc3, m_track3, m_settrack3, m_changed3, m_clear3, m_add3, m_new3, m_default3, m_fnd3, m_expand3, m_clone3, ray3, rays3, hit3, miss3, integ3, occ3, defval3, defnm3, o_get3, o_set3, o_res3, o_bounds3, o_cfp3, o_pfc3, o_track3, o_settrack3, o_changed3, o_clear3, o_add3, o_new3, o_default3, o_integ3, o_occ3, signum3, StubNM3, b_peq3, b_clone3, pc_clone3, x_get3, x_set3, x_res3, x_bounds3, x_cfp3, x_pfc3, x_track3, x_settrack3, x_changed3, x_clear3, x_add3, x_expand3, y_default3, y_defval3, y_integ3, y_occ3, b_abse3, b_rele3});

#[no_mangle] pub fn pcc(cell: isize, offset: f32, resolution: f32) -> f32 { converter::point_coord_from_cell_coord(cell, offset, resolution) }
#[no_mangle] pub fn ccp(point: f32, offset: f32, resolution: f32) -> isize { converter::cell_coord_from_point_coord(point, offset, resolution) }
#[no_mangle] pub fn pc_transform(cloud: &PointCloud3, transform: &M4) -> PointCloud3 { cloud.transform(transform) }
#[no_mangle] pub fn nm_new(out: &mut LidarNoiseModel, hit: f32, miss: f32, min: f32, max: f32, occ: f32, range: f32) { *out = LidarNoiseModel::new(hit, miss, min, max, occ, range); }
#[no_mangle] pub fn nm_default(out: &mut LidarNoiseModel) { *out = LidarNoiseModel::default(); }
#[no_mangle] pub fn s_signum(value: f32) -> f32 { math::f32_signum(value) }
#[no_mangle] pub fn s_logodds(probability: f32) -> f32 { math::logodds_from_probability(probability) }
#[no_mangle] pub fn s_prob(logodds: f32) -> f32 { math::probability_from_logodds(logodds) }
#[no_mangle] pub fn k_oxt_read(input: &mut dyn std::io::Read, gps_origin: Option<Tr64>) -> std::io::Result<(Pose3, Tr64)> { kitti::oxt_reader::read(input, gps_origin) }
#[no_mangle] pub fn k_oxt_file(path: &std::path::Path, gps_origin: Option<Tr64>) -> std::io::Result<(Pose3, Tr64)> { kitti::oxt_reader::read_from_file(path, gps_origin) }
#[no_mangle] pub fn k_oxt_dir(dir: &std::path::Path, print_status: bool) -> std::io::Result<Vec<Pose3>> { kitti::oxt_reader::read_from_dir(dir, print_status) }
#[no_mangle] pub fn k_pcr_read(input: &mut dyn std::io::Read) -> std::io::Result<PointCloud3> { kitti::point_cloud_reader::read(input) }
#[no_mangle] pub fn k_pcr_file(path: &std::path::Path) -> std::io::Result<PointCloud3> { kitti::point_cloud_reader::read_from_file(path) }
#[no_mangle] pub fn k_pcr_dir(dir: &std::path::Path, print_status: bool) -> std::io::Result<Vec<PointCloud3>> { kitti::point_cloud_reader::read_from_dir(dir, print_status) }
#[no_mangle] pub fn k_seq(dir: &std::path::Path) -> std::io::Result<Vec<std::path::PathBuf>> { kitti::fs::seq_files_in_dir(dir) }
#[no_mangle] pub fn mac_point2(out: &mut Point2, x: f32, y: f32) { *out = kuba::point2![x, y]; }
#[no_mangle] pub fn mac_point3(out: &mut Point3, x: f32, y: f32, z: f32) { *out = kuba::point3![x, y, z]; }
#[no_mangle] pub fn mac_cell2(out: &mut Cell2, x: isize, y: isize) { *out = kuba::cell2![x, y]; }
#[no_mangle] pub fn mac_cell3(out: &mut Cell3, x: isize, y: isize, z: isize) { *out = kuba::cell3![x, y, z]; }
#[no_mangle] pub fn mac_bounds2(out: &mut Bounds2, x: f32, y: f32, u: f32, v: f32) { *out = kuba::bounds2![[x, y], [u, v]]; }
#[no_mangle] pub fn mac_bounds3(out: &mut Bounds3, x: f32, y: f32, z: f32, u: f32, v: f32, w: f32) { *out = kuba::bounds3![[x, y, z], [u, v, w]]; }
#[no_mangle] pub fn mac_cell_bounds2(out: &mut CellBounds2, x: isize, y: isize, u: isize, v: isize) { *out = kuba::cell_bounds2![[x, y], [u, v]]; }
#[no_mangle] pub fn mac_cell_bounds3(out: &mut CellBounds3, x: isize, y: isize, z: isize, u: isize, v: isize, w: isize) { *out = kuba::cell_bounds3![[x, y, z], [u, v, w]]; }
#[no_mangle] pub fn cb_eq2(a: &CellBounds2, b: &CellBounds2) -> bool { a == b }
#[no_mangle] pub fn cb_eq3(a: &CellBounds3, b: &CellBounds3) -> bool { a == b }
#[no_mangle] pub fn cb_clone2(out: &mut CellBounds2, a: &CellBounds2) { *out = a.clone(); }
#[no_mangle] pub fn cb_clone3(out: &mut CellBounds3, a: &CellBounds3) { *out = a.clone(); }
