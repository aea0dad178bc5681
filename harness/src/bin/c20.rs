//! C20: lines are led through the rows between their ends, past the nodes, and through their labels.
use layout::core::geometry::{get_size_for_str, Point};
use sym::gr::*;
use sym::rec::*;
use sym::*;

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}
fn verify(g: &Graph) {
    let mut r = Rec::new();
    g.draw(&mut r);
    // the boxes of the nodes
    let mut v: Vec<(Point, Point)> = vec![];
    for n in &g.nodes {
        let b = r.rects.iter().find(|x| x.look.line_width == n.look.line_width).map(|x| x.xy);
        let c = r.circles.iter().find(|x| x.look.line_width == n.look.line_width).map(|x| x.xy.sub(x.size.scale(0.5)));
        let b = b.or(c);
        check(b.is_some(), 1);
        v.push((b.unwrap(), b.unwrap().add(Point::new(n.w, n.h))));
    }
    if verbose() {
        println!("left to right {} no_opt {} no_layout {}", g.ltr, g.no_opt, g.no_layout);
        for b in &v {
            println!("node {:?} to {:?}", b.0, b.1);
        }
        for x in &r.texts {
            println!("text {:?} at {:?} of {}", x.text, x.xy, x.look.line_width);
        }
        for (i, e) in g.edges.iter().enumerate() {
            println!("edge {}: {} -> {} {:?}", i, e.a, e.b, e.label);
        }
        for x in &r.arrows {
            println!("arrow of {}: {:?}", x.look.line_width, x.path);
        }
    }
    let along = |p: Point| if g.ltr { p.x } else { p.y };
    for e in &g.edges {
        let x = r.arrows.iter().find(|x| x.look.line_width == e.look.line_width);
        check(x.is_some(), 1);
        let x = x.unwrap();
        let k = x.path.len();
        let inner: Vec<Point> = (1..k - 1).map(|i| x.path[i].1).collect();
        // inside the drawing
        check((1..k).all(|i| x.path[i].1.x >= -1e-6 && x.path[i].1.y >= -1e-6), 7);
        check(x.path[0].0.x >= -1e-6 && x.path[0].0.y >= -1e-6, 7);
        // past the nodes
        for p in &inner {
            for b in &v {
                check((p.x < b.0.x) | (p.x > b.1.x) | (p.y < b.0.y) | (p.y > b.1.y), 2);
            }
        }
        let mid = |i: usize| along(v[i].0.add(v[i].1).scale(0.5));
        let text = r.texts.iter().find(|t| t.look.line_width == e.look.line_width);
        // the label and the space around it; no label counts as an empty one
        let name = text.map_or("", |t| &t.text);
        let half = get_size_for_str(name, e.look.font_size).scale(0.5).add(Point::splat(5.));
        if e.a == e.b {
            // beside the node
            check(inner.len() == 1 && (along(inner[0]) - mid(e.a)).abs() < along(half) + 1e-6, 3);
            reach(2);
        } else {
            let (a, b) = (mid(e.a), mid(e.b));
            if g.no_layout {
                // forward all the way, or backward all the way
                let l: Vec<f64> = inner.iter().map(|p| along(*p)).collect();
                let up = (1..l.len()).all(|i| l[i - 1] < l[i]);
                let down = (1..l.len()).all(|i| l[i - 1] > l[i]);
                check(up || down, 4);
                check(l.iter().all(|y| *y > a.min(b) && *y < a.max(b)), 4);
                reach(4);
            }
            // it bends for every row between the ends
            let mut rows: Vec<f64> = vec![];
            for i in 0..v.len() {
                let y = mid(i);
                if y > a.min(b) + 1e-6 && y < a.max(b) - 1e-6 && !rows.iter().any(|x| near(*x, y)) {
                    rows.push(y);
                    reach(3);
                }
            }
            check(inner.len() >= rows.len(), 5);
        }
        // the line touches its label
        if !e.label.is_empty() {
            check(text.is_some(), 6);
            let t = text.unwrap();
            check(inner.iter().any(|p| (p.x - t.xy.x).abs() < half.x + 1e-6 && (p.y - t.xy.y).abs() < half.y + 1e-6), 6);
            reach(5);
        }
    }
    observe(r.arrows.len() as u64);
    reach(1);
}
fn go(n: usize, m: usize, label: &str, flags: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, if i % 2 == 1 { CIRCLE } else { BOX }, w, h));
    }
    if flags {
        g.any_flags();
    } else {
        g.no_layout = flag();
    }
    g.any_edges(m, label);
    verify(&g);
}
/// No self edges, and the first edge leaves the first node.
fn proper(n: usize, m: usize, label: &str) {
    let mut g = graph(false);
    g.no_layout = flag();
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, BOX, w, h));
    }
    for i in 0..m {
        let a = if i == 0 { 0 } else { pick(0, n as u64 - 1) as usize };
        let b = pick(0, n as u64 - 2) as usize;
        let l = if !label.is_empty() && flag() { label } else { "" };
        g.edges.push(edge(i, a, if b >= a { b + 1 } else { b }, l));
    }
    verify(&g);
}
/// Nodes of very different sizes.
fn shapes(n: usize, m: usize) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = [(1., 1.), (1000., 20.), (20., 1000.)][pick(0, 2) as usize];
        g.nodes.push(node(i, BOX, w, h));
    }
    let label = ["", "a wide label, a wide label, a wide label", "a\nhigh\nlabel\nof\nfour\nfive\nsix\nlines"][pick(0, 2) as usize];
    for i in 0..m {
        let (a, b) = (pick(0, n as u64 - 1) as usize, pick(0, n as u64 - 1) as usize);
        g.edges.push(edge(i, a, b, label));
    }
    verify(&g);
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    huge1 => verify(&huge(flag(), [9, 12, 17][pick(0, 2) as usize], "label"));
    huge2 => verify(&huge(flag(), 24, "label"));
    big1 => verify(&big(flag(), 1, "label", true));
    big2 => verify(&big(false, 2, "", false));
    flags33 => go(3, 3, "label", true);
    labels34 => go(3, 4, "label", false);
    edges44 => go(4, 4, "", false);
    edges45 => go(4, 5, "", false);
    labels43 => go(4, 3, "a wide label", false);
    proper44 => proper(4, 4, "two\nlines");
    proper45 => proper(4, 5, "");
    proper54 => proper(5, 4, "");
    proper55 => proper(5, 5, "");
    shapes32 => shapes(3, 2);
    shapes42 => shapes(4, 2);
}
