//! C05: laying out and drawing any graph finishes without a crash.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::*;
use sym::gr::*;
use sym::*;

/// Every coordinate is finite.
struct Finite {
    n: u64,
}
fn ok(p: Point) {
    check((p.x.abs() < 1e300) & (p.y.abs() < 1e300), 1);
}
impl RenderBackend for Finite {
    fn draw_rect(&mut self, xy: Point, size: Point, _: &StyleAttr, _: Option<String>, _: Option<ClipHandle>) {
        ok(xy);
        ok(size);
        self.n += 1;
    }
    fn draw_line(&mut self, a: Point, b: Point, _: &StyleAttr, _: Option<String>) {
        ok(a);
        ok(b);
    }
    fn draw_circle(&mut self, xy: Point, size: Point, _: &StyleAttr, _: Option<String>) {
        ok(xy);
        ok(size);
        self.n += 1;
    }
    fn draw_text(&mut self, xy: Point, _: &str, _: &StyleAttr) {
        ok(xy);
        self.n += 1;
    }
    fn draw_arrow(&mut self, l: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {
        for p in l {
            ok(p.0);
            ok(p.1);
        }
        self.n += 1;
    }
    fn create_clip(&mut self, xy: Point, size: Point, _: usize) -> ClipHandle {
        ok(xy);
        ok(size);
        0
    }
}
fn verify(g: &Graph) {
    if verbose() {
        for n in &g.nodes {
            println!("node kind {} {}x{} {:?}", n.kind, n.w, n.h, n.label);
        }
        for e in &g.edges {
            println!("edge {} -> {} {:?} font {}", e.a, e.b, e.label, e.look.font_size);
        }
        println!("left to right {} no_opt {} no_layout {} debug {}", g.ltr, g.no_opt, g.no_layout, g.debug);
    }
    let mut r = Finite { n: 0 };
    g.draw(&mut r);
    observe(r.n);
    reach(1);
}
fn nodes(n: usize, ltr: bool) -> Graph {
    let mut g = graph(ltr);
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, BOX, w, h));
    }
    g
}
fn kind(i: u64) -> u8 {
    [BOX, CIRCLE, DOUBLE, RECORD][i as usize]
}
/// All settings, on small graphs.
#[no_mangle]
#[inline(never)]
pub extern "C" fn all22() {
    let n = pick(0, 2) as usize;
    let mut g = nodes(n, flag());
    for k in g.nodes.iter_mut() {
        k.kind = kind(pick(0, 3));
    }
    g.any_flags();
    g.debug = flag();
    if n > 0 {
        g.any_edges(pick(0, 2) as usize, "label");
    }
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn flags33() {
    let mut g = nodes(3, flag());
    g.any_flags();
    g.any_edges(3, "label");
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges44() {
    let mut g = nodes(4, false);
    g.any_edges(4, "");
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges35() {
    let mut g = nodes(3, false);
    g.any_edges(5, "");
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn labels34() {
    let mut g = nodes(3, flag());
    g.any_edges(4, "label");
    verify(&g);
}
/// Edges that are not self edges, the first one from the first node.
fn proper(n: usize, m: usize, label: &str) {
    let mut g = nodes(n, false);
    for i in 0..m {
        let a = if i == 0 { 0 } else { pick(0, n as u64 - 1) as usize };
        let b = pick(0, n as u64 - 2) as usize;
        let l = if label.is_empty() || flag() { "" } else { label };
        g.edges.push(edge(i, a, if b >= a { b + 1 } else { b }, l));
    }
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn proper54() {
    proper(5, 4, "")
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn proper55() {
    proper(5, 5, "")
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn proper44() {
    proper(4, 4, "a label")
}
/// Equal sizes: everything is aligned.
#[no_mangle]
#[inline(never)]
pub extern "C" fn equal43() {
    let mut g = nodes(4, false);
    let s = [1., 60., 100.][pick(0, 2) as usize];
    for n in g.nodes.iter_mut() {
        n.w = s;
        n.h = s;
    }
    g.any_edges(3, "xx");
    verify(&g);
}
/// Very large and very small nodes and labels.
#[no_mangle]
#[inline(never)]
pub extern "C" fn extreme() {
    let mut g = nodes(3, flag());
    for n in g.nodes.iter_mut() {
        let (w, h) = [(1., 1.), (1e6, 20.), (20., 1e6)][pick(0, 2) as usize];
        n.w = w;
        n.h = h;
    }
    let f = [0, 1, 14, 10000][pick(0, 3) as usize];
    g.any_edges(2, "label");
    for e in g.edges.iter_mut() {
        e.look.font_size = f;
    }
    verify(&g);
}
/// Any sizes. The placement is symbolic, the arrows are drawn as well.
fn sizes(n: usize, m: usize, label: &str) {
    let mut g = nodes(n, flag());
    for k in g.nodes.iter_mut() {
        k.w = f64_grid(1, 1000, 0);
        k.h = f64_grid(1, 1000, 0);
    }
    g.any_edges(m, label);
    let mut r = Stop { left: n, f: Finite { n: 0 } };
    g.draw(&mut r);
}
/// Ends when the nodes are drawn.
struct Stop {
    left: usize,
    f: Finite,
}
impl RenderBackend for Stop {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, p: Option<String>, c: Option<ClipHandle>) {
        self.f.draw_rect(xy, size, l, p, c);
        self.left -= 1;
        if self.left == 0 {
            reach(1);
            stop();
        }
    }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_text(&mut self, _: Point, _: &str, _: &StyleAttr) {}
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {}
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> ClipHandle {
        0
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn place22() {
    sizes(2, 2, "lab")
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn place32() {
    sizes(3, 2, "")
}
/// Any size of the font of the labels.
#[no_mangle]
#[inline(never)]
pub extern "C" fn fonts21() {
    fonts(1)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn fonts22() {
    fonts(2)
}
fn fonts(m: usize) {
    let mut g = nodes(2, flag());
    g.any_edges(m, "label");
    let font = int(0, 100000) as usize;
    for e in g.edges.iter_mut() {
        e.look.font_size = font;
    }
    let mut r = Stop { left: 2, f: Finite { n: 0 } };
    g.draw(&mut r);
}
/// The work stays small on graphs with many paths.
#[no_mangle]
#[inline(never)]
pub extern "C" fn many() {
    let n = 24;
    let mut g = nodes(n, false);
    let mut k = 0;
    let mut add = |g: &mut Graph, a: usize, b: usize| {
        g.edges.push(edge(k, a, b, ""));
        k += 1;
    };
    match pick(0, 5) {
        0 => {
            // a ladder
            for i in (0..n - 3).step_by(2) {
                for (a, b) in [(0, 2), (0, 3), (1, 2), (1, 3)] {
                    add(&mut g, i + a, i + b);
                }
            }
        }
        1 => {
            // a ladder, from its end
            for i in (0..n - 3).step_by(2).rev() {
                for (a, b) in [(0, 2), (0, 3), (1, 2), (1, 3)] {
                    add(&mut g, i + a, i + b);
                }
            }
        }
        2 => {
            // a ladder and back edges
            for i in (0..n - 3).step_by(2) {
                for (a, b) in [(0, 2), (0, 3), (1, 2), (1, 3)] {
                    add(&mut g, i + a, i + b);
                }
                add(&mut g, i + 3, 0);
            }
        }
        3 => {
            // a circle with chords
            for i in 0..n {
                add(&mut g, i, (i + 1) % n);
            }
            for i in 0..n / 4 {
                add(&mut g, i, (i * 5 + 3) % n);
            }
        }
        4 => {
            // a star
            for i in 1..n {
                add(&mut g, 0, i);
                add(&mut g, i, 0);
            }
        }
        _ => {
            // the same edge again and again
            for i in 0..n {
                add(&mut g, i % 2, 1 - i % 2);
                add(&mut g, i, i);
            }
        }
    }
    g.any_flags();
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big1() {
    verify(&big(flag(), 1, "label", true));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big2() {
    verify(&big(false, 2, "", false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge1() {
    verify(&huge(flag(), [9, 12, 17][pick(0, 2) as usize], "label"));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge2() {
    verify(&huge(flag(), 24, "label"));
}
entries!(huge1, huge2, big1, big2, all22, flags33, edges44, edges35, labels34, proper54, proper55, proper44, equal43, extreme, place22, place32, fonts21, fonts22, many);
