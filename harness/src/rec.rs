//! A rendering backend that records what is drawn.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;

#[derive(Clone)]
pub struct DrawnBox {
    pub xy: Point,
    pub size: Point,
    pub look: StyleAttr,
    pub props: Option<String>,
    pub clip: Option<ClipHandle>,
    pub seq: usize,
}
#[derive(Clone)]
pub struct DrawnText {
    pub xy: Point,
    pub text: String,
    pub look: StyleAttr,
    pub seq: usize,
}
#[derive(Clone)]
pub struct DrawnArrow {
    pub path: Vec<(Point, Point)>,
    pub dashed: bool,
    pub head: (bool, bool),
    pub look: StyleAttr,
    pub props: Option<String>,
    pub text: String,
    pub seq: usize,
}
#[derive(Default)]
pub struct Rec {
    pub rects: Vec<DrawnBox>,
    pub circles: Vec<DrawnBox>, // xy is the center, size the full size
    pub lines: Vec<(Point, Point, StyleAttr)>,
    pub texts: Vec<DrawnText>,
    pub arrows: Vec<DrawnArrow>,
    pub clips: Vec<(Point, Point, usize)>,
    pub seq: usize,
}
impl Rec {
    pub fn new() -> Rec {
        Rec::default()
    }
    fn next(&mut self) -> usize {
        self.seq += 1;
        self.seq
    }
}
impl RenderBackend for Rec {
    fn draw_rect(&mut self, xy: Point, size: Point, look: &StyleAttr, props: Option<String>, clip: Option<ClipHandle>) {
        let seq = self.next();
        self.rects.push(DrawnBox { xy, size, look: look.clone(), props, clip, seq });
    }
    fn draw_line(&mut self, a: Point, b: Point, look: &StyleAttr, _props: Option<String>) {
        self.next();
        self.lines.push((a, b, look.clone()));
    }
    fn draw_circle(&mut self, xy: Point, size: Point, look: &StyleAttr, props: Option<String>) {
        let seq = self.next();
        self.circles.push(DrawnBox { xy, size, look: look.clone(), props, clip: None, seq });
    }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
        let seq = self.next();
        self.texts.push(DrawnText { xy, text: text.to_string(), look: look.clone(), seq });
    }
    fn draw_arrow(&mut self, path: &[(Point, Point)], dashed: bool, head: (bool, bool), look: &StyleAttr, props: Option<String>, text: &str) {
        let seq = self.next();
        self.arrows.push(DrawnArrow { path: path.to_vec(), dashed, head, look: look.clone(), props, text: text.to_string(), seq });
    }
    fn create_clip(&mut self, xy: Point, size: Point, r: usize) -> ClipHandle {
        self.clips.push((xy, size, r));
        self.clips.len() - 1
    }
}
