//! C08: nodes are drawn apart from each other, apart from the labels, and inside the drawing.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::{get_size_for_str, Point};
use layout::core::style::*;
use sym::gr::*;
use sym::*;

/// Looks at the boxes of the nodes and labels when all of them are drawn.
struct Boxes<'a> {
    g: &'a Graph,
    nodes: Vec<Option<(Point, Point)>>,
    labels: Vec<(Point, Point)>,
    want: usize,
}
impl<'a> Boxes<'a> {
    fn new(g: &'a Graph) -> Self {
        Boxes { g, nodes: vec![None; g.nodes.len()], labels: vec![], want: g.edges.iter().filter(|e| !e.label.is_empty()).count() }
    }
    fn node(&mut self, tl: Point, size: Point, look: &StyleAttr) {
        if let Some(n) = self.g.nodes.iter().position(|x| x.look.line_width == look.line_width) {
            if self.nodes[n].is_none() {
                self.nodes[n] = Some((tl, tl.add(size)));
            }
            self.done(false);
        }
    }
    fn done(&mut self, force: bool) {
        if self.nodes.iter().all(|x| x.is_some()) && (force || self.labels.len() == self.want) {
            self.finish();
        }
    }
    fn finish(&self) {
        let v: Vec<(Point, Point)> = self.nodes.iter().map(|x| x.unwrap()).collect();
        if verbose() {
            println!("left to right {} no_opt {} no_layout {}", self.g.ltr, self.g.no_opt, self.g.no_layout);
            for (i, b) in v.iter().enumerate() {
                println!("node {} from {:?} to {:?}", i, b.0, b.1);
            }
            for e in &self.g.edges {
                println!("edge {} -> {} {:?}", e.a, e.b, e.label);
            }
            for b in &self.labels {
                println!("label from {:?} to {:?}", b.0, b.1);
            }
        }
        let apart = |a: &(Point, Point), b: &(Point, Point)| (a.1.x < b.0.x) | (b.1.x < a.0.x) | (a.1.y < b.0.y) | (b.1.y < a.0.y);
        for i in 0..v.len() {
            check((v[i].0.x >= -1e-6) & (v[i].0.y >= -1e-6), 2);
            for j in 0..i {
                check(apart(&v[i], &v[j]), 1);
            }
            for l in &self.labels {
                check(apart(&v[i], l), 3);
                reach(2);
            }
        }
        for l in &self.labels {
            check((l.0.x >= -1e-6) & (l.0.y >= -1e-6), 5);
        }
        reach(1);
        stop();
    }
}
impl<'a> RenderBackend for Boxes<'a> {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>, _: Option<ClipHandle>) {
        self.node(xy, size, l);
    }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>) {
        self.node(xy.sub(size.scale(0.5)), size, l);
    }
    fn draw_text(&mut self, at: Point, text: &str, l: &StyleAttr) {
        if l.line_width >= 200 {
            let s = get_size_for_str(text, l.font_size);
            let tl = at.sub(s.scale(0.5));
            self.labels.push((tl, tl.add(s)));
            self.done(false);
        }
    }
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {
        self.done(true);
    }
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> ClipHandle {
        0
    }
}
fn verify(g: &Graph) {
    let mut r = Boxes::new(g);
    g.draw(&mut r);
    r.done(true);
    check(false, 4);
}
/// Any sizes.
fn sizes(n: usize, m: usize, label: &str, flags: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        g.nodes.push(node(i, if i % 2 == 1 { CIRCLE } else { BOX }, f64_grid(4, 4000, 2), f64_grid(4, 4000, 2)));
    }
    if flags {
        g.any_flags();
    }
    g.any_edges(m, label);
    verify(&g);
}
/// One size that is not known.
fn one(n: usize, m: usize, label: &str) {
    let mut g = graph(flag());
    let k = pick(0, n as u64 - 1) as usize;
    for i in 0..n {
        let (mut w, mut h) = some_size(i);
        if i == k {
            (w, h) = (f64_grid(4, 4000, 2), f64_grid(4, 4000, 2));
        }
        g.nodes.push(node(i, BOX, w, h));
    }
    g.any_edges(m, label);
    verify(&g);
}
/// Fixed sizes.
fn some(n: usize, m: usize, label: &str, flags: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, if i % 2 == 1 { CIRCLE } else { BOX }, w, h));
    }
    if flags {
        g.any_flags();
    }
    g.any_edges(m, label);
    verify(&g);
}
/// No self edges, and the first edge leaves the first node.
fn proper(n: usize, m: usize, label: &str) {
    let mut g = graph(false);
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, BOX, w, h));
    }
    for i in 0..m {
        let a = if i == 0 { 0 } else { pick(0, n as u64 - 1) as usize };
        let b = pick(0, n as u64 - 2) as usize;
        g.edges.push(edge(i, a, if b >= a { b + 1 } else { b }, label));
    }
    verify(&g);
}
/// Narrow and wide nodes, and one edge with a wide label.
fn onelabel(n: usize, m: usize, ltr: bool) {
    let mut g = graph(ltr);
    for i in 0..n {
        let (w, h) = if flag() { (10., 20.) } else { (250., 20.) };
        g.nodes.push(node(i, BOX, w, h));
    }
    for i in 0..m {
        let a = pick(0, n as u64 - 2) as usize;
        let b = pick(a as u64 + 1, n as u64 - 1) as usize;
        g.edges.push(edge(i, a, b, if i == 0 { "one label which is rather wide" } else { "" }));
    }
    verify(&g);
}
/// Nodes and labels of several sizes: a label may be moved up or down to make room for a line.
fn tall(n: usize, m: usize) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = [(60., 200.), (10., 20.), (300., 1.)][pick(0, 2) as usize];
        g.nodes.push(node(i, BOX, w, h));
    }
    for i in 0..m {
        let a = pick(0, n as u64 - 2) as usize;
        let b = pick(a as u64 + 1, n as u64 - 1) as usize;
        g.edges.push(edge(i, a, b, ["", "a wide label, a wide label", "a\nhigh\nlabel\nof\nfour\nfive\nsix\nlines"][pick(0, 2) as usize]));
    }
    verify(&g);
}
/// Small, wide and high nodes.
fn shapes(n: usize, m: usize) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = [(1., 1.), (1000., 20.), (20., 1000.)][pick(0, 2) as usize];
        g.nodes.push(node(i, BOX, w, h));
    }
    let label = ["", "a wide label, a wide label, a wide label", "a\nhigh\nlabel\nof\nfour\nfive\nsix\nlines"][pick(0, 2) as usize];
    for i in 0..m {
        let (a, b) = (pick(0, n as u64 - 1) as usize, pick(0, n as u64 - 1) as usize);
        g.edges.push(edge(i, a, b, label));
    }
    verify(&g);
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    huge1 => verify(&huge(flag(), [9, 12, 17][pick(0, 2) as usize], "label"));
    huge2 => verify(&huge(flag(), 24, "label"));
    big1 => verify(&big(flag(), 1, "label", true));
    big2 => verify(&big(false, 2, "", false));
    any11 => sizes(1, 1, "lab", true);
    any21 => sizes(2, 1, "lab", true);
    any22 => sizes(2, 2, "lab", false);
    bare32 => sizes(3, 2, "", false);
    bare33 => sizes(3, 3, "", false);
    any32 => sizes(3, 2, "lab", false);
    one32 => one(3, 2, "lab");
    some33 => some(3, 3, "label", true);
    some44 => some(4, 4, "", false);
    some43 => some(4, 3, "a long label", false);
    some34 => some(3, 4, "label", false);
    proper45 => proper(4, 5, "");
    proper54 => proper(5, 4, "");
    proper55 => proper(5, 5, "");
    proper44 => proper(4, 4, "two\nlines");
    wide44 => onelabel(4, 4, false);
    wide45 => onelabel(4, 5, false);
    wide54 => onelabel(5, 4, false);
    tall33 => tall(3, 3);
    tall34 => tall(3, 4);
    tall43 => tall(4, 3);
    shapes32 => shapes(3, 2);
    shapes33 => shapes(3, 3);
    shapes42 => shapes(4, 2);
}
