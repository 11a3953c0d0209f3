//! The part of kiss3d's interface the viewer uses; what it draws is handed to functions that are not defined here.
pub mod light { pub enum Light { Absolute(nalgebra::Point3<f32>), StickToCamera } }
pub mod window {
    use nalgebra::Point3;
    macro_rules! hook { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty = $e:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n($($a: $t),*) -> $r { $(std::hint::black_box($a);)* std::hint::black_box($e) })* } }
    hook! {
        k3_open(t: *const u8, n: usize) -> usize = 0;
        k3_next(w: usize) -> bool = false;
        k3_line(w: usize, a: &Point3<f32>, b: &Point3<f32>, c: &Point3<f32>) -> () = ();
        k3_point(w: usize, a: &Point3<f32>, c: &Point3<f32>) -> () = ();
        k3_size(w: usize, s: f32) -> () = ();
        k3_light(w: usize, l: u8) -> () = ();
    }
    pub struct Window { id: usize }
    pub trait State: 'static { fn step(&mut self, window: &mut Window); }
    impl Window {
        pub fn new(title: &str) -> Window { { Window { id: k3_open(title.as_ptr(), title.len()) } } }
        pub fn draw_line(&mut self, a: &Point3<f32>, b: &Point3<f32>, color: &Point3<f32>) { { k3_line(self.id, a, b, color) } }
        pub fn draw_point(&mut self, pt: &Point3<f32>, color: &Point3<f32>) { { k3_point(self.id, pt, color) } }
        pub fn set_point_size(&mut self, s: f32) { { k3_size(self.id, s) } }
        pub fn set_light(&mut self, pos: crate::light::Light) { { k3_light(self.id, match pos { crate::light::Light::StickToCamera => 0, _ => 1 }) } }
        pub fn render_loop<S: State>(mut self, mut state: S) { { while k3_next(self.id) { state.step(&mut self) } } }
    }
}
