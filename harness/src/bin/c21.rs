//! C21: the appearance of a graph does not move anything.
use layout::core::color::Color;
use layout::core::geometry::Point;
use sym::gr::*;
use sym::rec::*;
use sym::*;

/// The same graph in another appearance.
fn dress(g: &Graph, full: bool) -> Graph {
    let mut t = g.clone();
    let color = || Color::new(int(0, u32::MAX as u64) as u32);
    let debug = flag();
    let (heads, style, props) = if full { ((flag(), flag()), pick(0, 2) as u8, flag()) } else { ((true, debug), 1, debug) };
    t.debug = debug;
    for (i, n) in t.nodes.iter_mut().enumerate() {
        n.look.line_color = color();
        n.look.fill_color = if i % 2 == 0 { None } else { Some(color()) };
        n.look.line_width = int(1000, 2000) as usize;
        n.look.rounded = int(0, 50) as usize;
        n.look.font_size = int(0, 1000) as usize;
        n.label = ["", "other", "a\nlonger one"][i % 3].to_string();
        n.props = if props { Some("id=\"x\"".to_string()) } else { None };
    }
    for (i, e) in t.edges.iter_mut().enumerate() {
        e.look.line_color = color();
        e.look.fill_color = if i % 2 == 0 { None } else { Some(color()) };
        e.look.line_width = int(2001, 3000) as usize;
        e.look.rounded = int(0, 50) as usize;
        // the label keeps its size
        if e.label.is_empty() {
            e.look.font_size = int(0, 1000) as usize;
        } else {
            e.label = e.label.chars().map(|c| if c == '\n' { c } else { 'W' }).collect();
        }
        e.heads = if i % 2 == 0 { heads } else { (heads.1, !heads.0) };
        e.style = (style + i as u8) % 3;
        e.props = if props { Some("id=\"y\"".to_string()) } else { None };
    }
    t
}
fn same(a: Point, b: Point) -> bool {
    (a.x == b.x) & (a.y == b.y)
}
fn verify(g: &Graph, full: bool) {
    let t = dress(g, full);
    let (mut a, mut b) = (Rec::new(), Rec::new());
    g.draw(&mut a);
    t.draw(&mut b);
    if verbose() {
        println!("left to right {} no_opt {} no_layout {}; the other one: debug {}", g.ltr, g.no_opt, g.no_layout, t.debug);
        for (e, f) in g.edges.iter().zip(&t.edges) {
            println!("edge {} -> {} {:?}; {:?} heads {:?} style {}", e.a, e.b, e.label, f.label, f.heads, f.style);
        }
        for r in [&a, &b] {
            for x in r.rects.iter().chain(&r.circles) {
                println!("box {:?} {:?} line width {}", x.xy, x.size, x.look.line_width);
            }
            for x in &r.texts {
                println!("text {:?} {:?}", x.text, x.xy);
            }
            for x in &r.arrows {
                println!("arrow {:?} line width {}", x.path, x.look.line_width);
            }
        }
    }
    // Debug mode adds boxes and circles with thin lines.
    let own = |x: &&DrawnBox| x.look.line_width >= 100;
    for (l, m) in [(&a.rects, &b.rects), (&a.circles, &b.circles)] {
        let l: Vec<&DrawnBox> = l.iter().filter(own).collect();
        let m: Vec<&DrawnBox> = m.iter().filter(own).collect();
        check(l.len() == m.len(), 1);
        for (x, y) in l.iter().zip(&m) {
            check(same(x.xy, y.xy) & same(x.size, y.size), 1);
        }
    }
    check(a.texts.len() == b.texts.len(), 2);
    for (x, y) in a.texts.iter().zip(&b.texts) {
        check(same(x.xy, y.xy), 2);
    }
    check(a.arrows.len() == b.arrows.len(), 3);
    for (x, y) in a.arrows.iter().zip(&b.arrows) {
        check(x.path.len() == y.path.len(), 3);
        for (p, q) in x.path.iter().zip(&y.path) {
            check(same(p.0, q.0) & same(p.1, q.1), 3);
        }
        reach(2);
    }
    reach(1);
}
fn go(n: usize, m: usize, label: &str, flags: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, pick(0, 2) as u8, w, h));
    }
    if flags {
        g.any_flags();
    }
    g.any_edges(m, label);
    verify(&g, true);
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    edges21 => go(2, 1, "label", true);
    edges22 => go(2, 2, "la\nbel", false);
    edges32 => go(3, 2, "label", false);
    huge1 => verify(&huge(flag(), [9, 12][pick(0, 1) as usize], "label"), false);
    huge2 => verify(&huge(flag(), 24, "label"), false);
    big1 => verify(&big(flag(), 1, "label", true), false);
}
