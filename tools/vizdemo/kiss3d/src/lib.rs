//! A window that prints what is drawn in each frame: PAUSE is the time between frames in ms, FRAMES their number.
pub mod light { pub enum Light { Absolute(nalgebra::Point3<f32>), StickToCamera } }
pub mod window {
    use nalgebra::Point3;
    pub struct Window { points: Vec<Point3<f32>>, lines: Vec<[Point3<f32>; 3]> }
    pub trait State: 'static { fn step(&mut self, window: &mut Window); }
    fn env(n: &str) -> u64 { std::env::var(n).unwrap().parse().unwrap() }
    fn text(p: &Point3<f32>) -> String { format!("[{},{},{}]", p.x, p.y, p.z) }
    impl Window {
        pub fn new(_: &str) -> Window { Window { points: vec![], lines: vec![] } }
        pub fn draw_line(&mut self, a: &Point3<f32>, b: &Point3<f32>, c: &Point3<f32>) { self.lines.push([*a, *b, *c]) }
        pub fn draw_point(&mut self, p: &Point3<f32>, _: &Point3<f32>) { self.points.push(*p) }
        pub fn set_point_size(&mut self, _: f32) {}
        pub fn set_light(&mut self, _: crate::light::Light) {}
        pub fn render_loop<S: State>(mut self, mut state: S) {
            for _ in 0..env("FRAMES") {
                self.points.clear(); self.lines.clear(); state.step(&mut self);
                let p: Vec<String> = self.points.iter().map(text).collect(); let l: Vec<String> = self.lines.iter().map(|l| format!("[{},{},{}]", text(&l[0]), text(&l[1]), text(&l[2]))).collect();
                println!("{{\"points\":[{}],\"lines\":[{}]}}", p.join(","), l.join(","));
                let pause = env("PAUSE"); if pause > 0 { std::thread::sleep(std::time::Duration::from_millis(pause)); }
            }
        }
    }
}
