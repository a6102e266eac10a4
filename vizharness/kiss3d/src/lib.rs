//! Stand-in for kiss3d: a window that is not shown, runs a scheduled number of frames, and records the
//! points and lines that are drawn in each of them.

pub mod light {
    #[derive(Clone, Debug)]
    pub enum Light {
        Absolute(nalgebra::Point3<f32>),
        StickToCamera,
    }
}

pub mod window {
    use super::light::Light;
    use nalgebra::Point3;
    use shim::sched;

    pub struct Window {
        points: Vec<[f32; 3]>,
        lines: Vec<[[f32; 3]; 3]>,
        frame: usize,
        begun: bool,
    }

    pub trait State: 'static {
        fn step(&mut self, window: &mut Window);
    }

    impl Window {
        pub fn new(_title: &str) -> Window {
            Window { points: vec![], lines: vec![], frame: 0, begun: false }
        }
        pub fn new_with_size(title: &str, _w: u32, _h: u32) -> Window {
            Self::new(title)
        }
        pub fn new_hidden(title: &str) -> Window {
            Self::new(title)
        }
        pub fn set_title(&mut self, _: &str) {}
        pub fn should_close(&self) -> bool {
            self.frame >= sched::frames()
        }
        fn begin(&mut self) {
            if !self.begun && !self.should_close() {
                self.begun = true;
                sched::frame_begins();
            }
        }
        /// Shows what was drawn since the last frame.
        pub fn render(&mut self) -> bool {
            if self.should_close() {
                return false;
            }
            self.begin();
            sched::frame_ends(std::mem::take(&mut self.points), std::mem::take(&mut self.lines));
            self.begun = false;
            self.frame += 1;
            self.begin();
            !self.should_close()
        }
        pub fn render_with_state<S: State>(&mut self, state: &mut S) -> bool {
            if self.should_close() {
                return false;
            }
            self.begin();
            state.step(self);
            sched::frame_ends(std::mem::take(&mut self.points), std::mem::take(&mut self.lines));
            self.begun = false;
            self.frame += 1;
            !self.should_close()
        }
        pub fn set_light(&mut self, _: Light) {}
        pub fn set_point_size(&mut self, _: f32) {}
        pub fn set_line_width(&mut self, _: f32) {}
        pub fn set_background_color(&mut self, _: f32, _: f32, _: f32) {}
        pub fn set_framerate_limit(&mut self, _: Option<u64>) {}
        pub fn draw_line(&mut self, a: &Point3<f32>, b: &Point3<f32>, c: &Point3<f32>) {
            self.lines.push([[a.x, a.y, a.z], [b.x, b.y, b.z], [c.x, c.y, c.z]]);
        }
        pub fn draw_point(&mut self, p: &Point3<f32>, _c: &Point3<f32>) {
            self.points.push([p.x, p.y, p.z]);
        }
        pub fn render_loop<S: State>(mut self, mut state: S) {
            while self.render_with_state(&mut state) {}
        }
    }
}
