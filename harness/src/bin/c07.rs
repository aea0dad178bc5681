//! C07: edges point along the direction of the graph.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::*;
use sym::gr::*;
use sym::*;

/// Looks at the boxes of the nodes when all of them are drawn.
struct Rows<'a> {
    g: &'a Graph,
    at: Vec<Option<(f64, f64)>>,
    left: usize,
}
impl<'a> Rows<'a> {
    fn new(g: &'a Graph) -> Self {
        Rows { g, at: vec![None; g.nodes.len()], left: g.nodes.len() }
    }
    fn node(&mut self, tl: Point, size: Point, look: &StyleAttr) {
        let n = self.g.nodes.iter().position(|x| x.look.line_width == look.line_width);
        if let Some(n) = n {
            if self.at[n].is_none() {
                self.at[n] = Some(if self.g.ltr { (tl.x, tl.x + size.x) } else { (tl.y, tl.y + size.y) });
                self.left -= 1;
                if self.left == 0 {
                    self.finish();
                }
            }
        }
    }
    fn finish(&mut self) {
        let n = self.g.nodes.len();
        if verbose() {
            println!("left to right {} no_opt {} no_layout {}", self.g.ltr, self.g.no_opt, self.g.no_layout);
            for i in 0..n {
                println!("node {} from {} to {}", i, self.at[i].unwrap().0, self.at[i].unwrap().1);
            }
            for e in &self.g.edges {
                println!("edge {} -> {} {:?}", e.a, e.b, e.label);
            }
        }
        let all: Vec<(usize, usize)> = self.g.edges.iter().map(|e| (e.a, e.b)).collect();
        for (k, e) in all.iter().enumerate() {
            if e.0 == e.1 {
                continue;
            }
            let (p, q) = (self.at[e.0].unwrap(), self.at[e.1].unwrap());
            if leads(n, &all[..k], e.1, e.0) {
                // it may go either way, but not along a row
                reach(2);
                check((p.1 < q.0) | (q.1 < p.0), 1);
            } else {
                reach(1);
                check(p.1 < q.0, 2);
            }
        }
        reach(3);
        stop();
    }
}
impl<'a> RenderBackend for Rows<'a> {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>, _: Option<ClipHandle>) {
        self.node(xy, size, l);
    }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>) {
        self.node(xy.sub(size.scale(0.5)), size, l);
    }
    fn draw_text(&mut self, _: Point, _: &str, _: &StyleAttr) {}
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {}
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> ClipHandle {
        0
    }
}
fn verify(g: &Graph) {
    let mut r = Rows::new(g);
    g.draw(&mut r);
    check(false, 3);
}
/// The sizes along the direction of the graph are symbolic.
fn go(n: usize, m: usize, labels: bool, flags: bool, symbolic: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        let (a, b) = some_size(i);
        let b = if symbolic { f64_grid(4, 4000, 2) } else { b };
        let (w, h) = if g.ltr { (b, a) } else { (a, b) };
        g.nodes.push(node(i, if i % 2 == 1 { CIRCLE } else { BOX }, w, h));
    }
    if flags {
        g.any_flags();
    }
    g.any_edges(m, if labels { "label" } else { "" });
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes22() {
    go(2, 2, true, true, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes32() {
    go(3, 2, true, false, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes33() {
    go(3, 3, true, false, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes43() {
    go(4, 3, false, false, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes44() {
    go(4, 4, false, false, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn flags33() {
    go(3, 3, true, true, false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges44() {
    go(4, 4, false, false, false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges45() {
    proper(4, 5, flag())
}
/// No self edges, and the first edge leaves the first node.
fn proper(n: usize, m: usize, ltr: bool) {
    let mut g = graph(ltr);
    for i in 0..n {
        let (a, b) = some_size(i);
        g.nodes.push(node(i, BOX, a, b));
    }
    for i in 0..m {
        let a = if i == 0 { 0 } else { pick(0, n as u64 - 1) as usize };
        let b = pick(0, n as u64 - 2) as usize;
        g.edges.push(edge(i, a, if b >= a { b + 1 } else { b }, ""));
    }
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges55() {
    proper(5, 5, false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big1() {
    verify(&big(flag(), 1, "label", true));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big2() {
    verify(&big(false, 2, "", false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge1() {
    verify(&huge(flag(), [9, 12, 17][pick(0, 2) as usize], "label"));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge2() {
    verify(&huge(flag(), 24, "label"));
}
entries!(huge1, huge2, big1, big2, sizes22, sizes32, sizes33, sizes43, sizes44, flags33, edges44, edges45, edges55);
