//! C15: a left-to-right drawing is the mirror of the top-to-bottom drawing.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use sym::gr::*;
use sym::rec::*;
use sym::*;

/// The labels of the mirrored graph: as wide as the others are high.
fn turned(s: &str) -> String {
    let lines: Vec<&str> = s.lines().collect();
    let w = lines.iter().map(|x| x.len()).max().unwrap_or(0);
    let mut r = vec![];
    for _ in 0..w {
        r.push("x".repeat(lines.len()));
    }
    r.join("\n")
}
fn eq(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}
fn verify(g: &Graph) {
    assert!(g.ltr);
    let t = mirror(g);
    let (mut a, mut b) = (Rec::new(), Rec::new());
    let mut va = g.build();
    let mut vb = t.build();
    va.do_it(g.debug, g.no_opt, g.no_layout, &mut a);
    vb.do_it(t.debug, t.no_opt, t.no_layout, &mut b);
    if verbose() {
        for e in &g.edges {
            println!("edge {} -> {} {:?}", e.a, e.b, e.label);
        }
        for (i, r) in [&a, &b].iter().enumerate() {
            println!("{}", ["left to right", "top to bottom"][i]);
            for x in &r.rects {
                println!("rect {:?} {:?}", x.xy, x.size);
            }
            for x in &r.texts {
                println!("text {:?} {:?}", x.xy, x.text);
            }
        }
    }
    check(a.rects.len() == b.rects.len() && a.circles.len() == b.circles.len() && a.texts.len() == b.texts.len(), 4);
    // the nodes
    for n in &g.nodes {
        let own = |r: &Rec| {
            let x = if n.kind == BOX { r.rects.iter() } else { r.circles.iter() }.find(|x| x.look.line_width == n.look.line_width).unwrap().clone();
            (x.xy, x.size)
        };
        let (p, q) = (own(&a), own(&b));
        check(eq(p.1.x, n.w) & eq(p.1.y, n.h), 1);
        check(eq(q.1.x, n.h) & eq(q.1.y, n.w), 1);
        check(eq(p.0.x, q.0.y) & eq(p.0.y, q.0.x), 2);
        let text = |r: &Rec| r.texts.iter().find(|x| x.look.line_width == n.look.line_width).unwrap().xy;
        let (p, q) = (text(&a), text(&b));
        check(eq(p.x, q.y) & eq(p.y, q.x), 3);
    }
    // the labels of the edges
    for (k, e) in g.edges.iter().enumerate() {
        if e.label.is_empty() {
            continue;
        }
        let text = |r: &Rec, s: &str| r.texts.iter().find(|x| x.look.line_width == e.look.line_width && x.text == s).map(|x| x.xy);
        let (p, q) = (text(&a, &e.label), text(&b, &t.edges[k].label));
        check(p.is_some() && q.is_some(), 4);
        let (p, q) = (p.unwrap(), q.unwrap());
        check(eq(p.x, q.y) & eq(p.y, q.x), 3);
        reach(2);
    }
    // all elements, also the ones that are not drawn, and the sizes of the labels
    let (na, nb): (Vec<_>, Vec<_>) = (va.iter_nodes().collect(), vb.iter_nodes().collect());
    check(na.len() == nb.len(), 4);
    for i in 0..na.len() {
        let (p, q) = (va.pos(na[i]), vb.pos(nb[i]));
        let (c, d): (Point, Point) = (p.middle(), q.middle());
        check(eq(c.x, d.y) & eq(c.y, d.x), 5);
        let (c, d) = (p.size(false), q.size(false));
        check(eq(c.x, d.y) & eq(c.y, d.x), 5);
        let (c, d) = (p.center(), q.center());
        check(eq(c.x, d.y) & eq(c.y, d.x), 5);
    }
    reach(1);
}
/// Draws the second graph when all nodes of the first one are drawn, and compares the nodes.
struct Nest<'a> {
    g: &'a Graph,
    next: Option<&'a Graph>,
    first: Option<(&'a Graph, Vec<Option<(Point, Point)>>)>,
    at: Vec<Option<(Point, Point)>>,
}
impl<'a> Nest<'a> {
    fn node(&mut self, mid: Point, size: Point, look: &StyleAttr) {
        if let Some(n) = self.g.nodes.iter().position(|x| x.look.line_width == look.line_width) {
            self.at[n] = Some((mid, size));
            if self.at.iter().all(|x| x.is_some()) {
                if let Some(t) = self.next {
                    let mut b = Nest { g: t, next: None, first: Some((self.g, self.at.clone())), at: vec![None; t.nodes.len()] };
                    t.draw(&mut b);
                } else if let Some((g, first)) = &self.first {
                    for (i, n) in g.nodes.iter().enumerate() {
                        let (p, q) = (first[i].unwrap(), self.at[i].unwrap());
                        check(eq(p.1.x, n.w) & eq(p.1.y, n.h), 1);
                        check(eq(q.1.x, n.h) & eq(q.1.y, n.w), 1);
                        check(eq(p.0.x, q.0.y) & eq(p.0.y, q.0.x), 2);
                    }
                    reach(1);
                    stop();
                }
            }
        }
    }
}
impl<'a> RenderBackend for Nest<'a> {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, _: Option<String>, _: Option<ClipHandle>) {
        self.node(xy, size, l);
    }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_text(&mut self, _: Point, _: &str, _: &StyleAttr) {}
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {}
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> ClipHandle {
        0
    }
}
fn mirror(g: &Graph) -> Graph {
    let mut t = g.clone();
    t.ltr = false;
    for n in t.nodes.iter_mut() {
        std::mem::swap(&mut n.w, &mut n.h);
    }
    for e in t.edges.iter_mut() {
        e.label = turned(&e.label);
    }
    t
}
/// Symbolic sizes.
fn sizes(n: usize, m: usize, label: &str, flags: bool) {
    let mut g = graph(true);
    for i in 0..n {
        g.nodes.push(node(i, BOX, f64_grid(4, 4000, 2), f64_grid(4, 4000, 2)));
    }
    if flags {
        g.any_flags();
    }
    g.any_edges(m, label);
    let t = mirror(&g);
    let mut a = Nest { g: &g, next: Some(&t), first: None, at: vec![None; n] };
    g.draw(&mut a);
    check(false, 4);
}
fn go(n: usize, m: usize, label: &str, flags: bool) {
    let mut g = graph(true);
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, if i % 2 == 1 { CIRCLE } else { BOX }, w, h));
    }
    if flags {
        g.any_flags();
    }
    g.any_edges(m, label);
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes21() {
    sizes(2, 1, "abc", true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes22() {
    sizes(2, 2, "abc", false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sizes32() {
    sizes(3, 2, "", false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn labels33() {
    go(3, 3, "abc", false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn wide32() {
    go(3, 2, ["a long label of an edge", "two\nlines", "x"][pick(0, 2) as usize], true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges44() {
    go(4, 4, "", false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn labels34() {
    go(3, 4, "abc", false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn labels43() {
    go(4, 3, "a long label", false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big1() {
    verify(&big(true, 1, "label", true));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big2() {
    verify(&big(true, 2, "", false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge1() {
    verify(&huge(true, [9, 12, 17][pick(0, 2) as usize], "label"));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge2() {
    verify(&huge(true, 24, "label"));
}
entries!(huge1, huge2, big1, big2, sizes21, sizes22, sizes32, labels33, wide32, edges44, labels34, labels43);
