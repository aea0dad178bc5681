//! C19: the elements of a graph stand in rows across its direction, in the order of their ranks.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::*;
use sym::gr::*;
use sym::*;

/// Looks at the extents along the direction of the graph when all nodes are drawn.
struct Rows<'a> {
    g: &'a Graph,
    nodes: Vec<Option<(f64, f64)>>,
}
/// The row of every node without optimizations: the longest chain of edges that leads to it.
fn ranks(g: &Graph) -> Vec<usize> {
    let n = g.nodes.len();
    let mut down: Vec<(usize, usize)> = vec![];
    let mut weight = vec![];
    for e in &g.edges {
        if e.a == e.b {
            continue;
        }
        down.push(if leads(n, &down, e.b, e.a) { (e.b, e.a) } else { (e.a, e.b) });
        weight.push(if e.label.is_empty() { 1 } else { 2 });
    }
    let mut r = vec![0; n];
    for _ in 0..n {
        for (k, e) in down.iter().enumerate() {
            r[e.1] = r[e.1].max(r[e.0] + weight[k]);
        }
    }
    r
}
impl<'a> Rows<'a> {
    fn new(g: &'a Graph) -> Self {
        Rows { g, nodes: vec![None; g.nodes.len()] }
    }
    fn along(&self, tl: Point, size: Point) -> (f64, f64) {
        if self.g.ltr {
            (tl.x, tl.x + size.x)
        } else {
            (tl.y, tl.y + size.y)
        }
    }
    fn node(&mut self, tl: Point, size: Point, look: &StyleAttr) {
        if let Some(n) = self.g.nodes.iter().position(|x| x.look.line_width == look.line_width) {
            if self.nodes[n].is_none() {
                self.nodes[n] = Some(self.along(tl, size));
            }
            if self.nodes.iter().all(|x| x.is_some()) {
                self.finish();
            }
        }
    }
    fn finish(&mut self) {
        let n = self.nodes.len();
        let v: Vec<(f64, f64)> = self.nodes.iter().map(|x| x.unwrap()).collect();
        if verbose() {
            println!("left to right {} no_opt {} no_layout {}", self.g.ltr, self.g.no_opt, self.g.no_layout);
            for (i, b) in v.iter().enumerate() {
                println!("node {} from {} to {}", i, b.0, b.1);
            }
            for e in &self.g.edges {
                println!("edge {} -> {} {:?}", e.a, e.b, e.label);
            }
            println!("ranks {:?}", ranks(self.g));
        }
        let row = |a: &(f64, f64), b: &(f64, f64)| {
            let d = (a.0 + a.1) - (b.0 + b.1);
            (d < 1e-6) & (d > -1e-6)
        };
        for i in 0..v.len() {
            for j in 0..i {
                check(row(&v[i], &v[j]) | (v[i].1 < v[j].0) | (v[j].1 < v[i].0), 1);
            }
        }
        if self.g.no_opt {
            let r = ranks(self.g);
            for i in 0..n {
                for j in 0..n {
                    if r[i] == r[j] {
                        check(row(&v[i], &v[j]), 2);
                    } else if r[i] < r[j] {
                        check(v[i].1 < v[j].0, 2);
                    }
                }
            }
            reach(2);
        }
        reach(1);
        stop();
    }
}
impl<'a> RenderBackend for Rows<'a> {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>, _: Option<ClipHandle>) {
        self.node(xy, size, l);
    }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>) {
        self.node(xy.sub(size.scale(0.5)), size, l);
    }
    fn draw_text(&mut self, _: Point, _: &str, _: &StyleAttr) {}
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {
    }
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> ClipHandle {
        0
    }
}
fn verify(g: &Graph) {
    let mut r = Rows::new(g);
    g.draw(&mut r);
    check(false, 3);
}
/// The sizes along the direction of the graph are symbolic.
fn go(n: usize, m: usize, label: &str, flags: bool, symbolic: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        let (a, b) = some_size(i);
        let b = if symbolic { f64_grid(4, 4000, 2) } else { b };
        let (w, h) = if g.ltr { (b, a) } else { (a, b) };
        g.nodes.push(node(i, if i % 2 == 1 { CIRCLE } else { BOX }, w, h));
    }
    if flags {
        g.any_flags();
    } else {
        g.no_opt = flag();
    }
    g.any_edges(m, label);
    verify(&g);
}
/// No self edges, and the first edge leaves the first node.
fn proper(n: usize, m: usize, label: &str) {
    let mut g = graph(false);
    g.no_opt = flag();
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, BOX, w, h));
    }
    for i in 0..m {
        let a = if i == 0 { 0 } else { pick(0, n as u64 - 1) as usize };
        let b = pick(0, n as u64 - 2) as usize;
        let l = if !label.is_empty() && flag() { label } else { "" };
        g.edges.push(edge(i, a, if b >= a { b + 1 } else { b }, l));
    }
    verify(&g);
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    huge1 => verify(&huge(flag(), [9, 12, 17][pick(0, 2) as usize], "label"));
    huge2 => verify(&huge(flag(), 24, "label"));
    big1 => verify(&big(flag(), 1, "label", true));
    big2 => verify(&big(false, 2, "", false));
    sizes22 => go(2, 2, "label", true, true);
    sizes32 => go(3, 2, "la\nbel", true, true);
    sizes33 => go(3, 3, "label", false, true);
    sizes42 => go(4, 2, "", false, true);
    sizes43 => go(4, 3, "", false, true);
    sizes44 => go(4, 4, "", false, true);
    flags33 => go(3, 3, "la\nbe\nl", true, false);
    edges44 => go(4, 4, "", false, false);
    labels43 => go(4, 3, "a wide label", false, false);
    proper54 => proper(5, 4, "");
    proper44 => proper(4, 4, "label");
    proper45 => proper(4, 5, "");
    proper55 => proper(5, 5, "");
}
