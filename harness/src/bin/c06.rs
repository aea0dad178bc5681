//! C06: every node and every edge is drawn, once, as specified.
use layout::core::color::Color;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use sym::gr::*;
use sym::rec::*;
use sym::*;

fn near(a: Point, b: Point, e: f64) -> bool {
    (a.x - b.x).abs() < e && (a.y - b.y).abs() < e
}
/// Is p on the outline of the node, whose middle is c?
fn on(n: &Node, c: Point, p: Point) -> bool {
    let (dx, dy) = ((p.x - c.x).abs() / (n.w / 2.), (p.y - c.y).abs() / (n.h / 2.));
    match n.kind {
        CIRCLE | DOUBLE => (dx * dx + dy * dy - 1.).abs() < 1e-6,
        _ => dx < 1. + 1e-6 && dy < 1. + 1e-6 && (dx > 1. - 1e-6 || dy > 1. - 1e-6),
    }
}
fn inside(n: &Node, c: Point, p: Point) -> bool {
    (p.x - c.x).abs() < n.w / 2. + 1e-6 && (p.y - c.y).abs() < n.h / 2. + 1e-6
}

fn verify(g: &Graph) {
    let mut r = Rec::new();
    g.draw(&mut r);
    if verbose() {
        for n in &g.nodes {
            println!("node kind {} {}x{} {:?} {:?}", n.kind, n.w, n.h, n.label, n.look);
        }
        for e in &g.edges {
            println!("edge {} -> {} label {:?} heads {:?} style {} width {}", e.a, e.b, e.label, e.heads, e.style, e.look.line_width);
        }
        println!("left to right {} no_opt {} no_layout {} debug {}", g.ltr, g.no_opt, g.no_layout, g.debug);
        for x in &r.rects {
            println!("rect {:?} {:?} {:?}", x.xy, x.size, x.look);
        }
        for x in &r.circles {
            println!("circle {:?} {:?} {:?}", x.xy, x.size, x.look);
        }
        for x in &r.texts {
            println!("text {:?} {:?} {:?}", x.xy, x.text, x.look);
        }
        for x in &r.arrows {
            println!("arrow {:?} {:?} {:?} {:?}", x.path, x.head, x.text, x.look);
        }
    }
    let (mut rects, mut circles, mut texts) = (0, 0, 0);
    let mut mid = vec![];
    for n in &g.nodes {
        let size = Point::new(n.w, n.h);
        let rs: Vec<&DrawnBox> = r.rects.iter().filter(|x| x.look.line_width == n.look.line_width).collect();
        let cs: Vec<&DrawnBox> = r.circles.iter().filter(|x| x.look.line_width == n.look.line_width).collect();
        let ts: Vec<&DrawnText> = r.texts.iter().filter(|x| x.look.line_width == n.look.line_width).collect();
        let mut c = Point::zero();
        let (wr, wc, wt) = match n.kind {
            BOX => (1, 0, 1),
            CIRCLE => (0, 1, 1),
            DOUBLE => (0, 2, 1),
            RECORD => (4, 0, 2),
            _ => (0, 0, 0),
        };
        check(rs.len() == wr && cs.len() == wc && ts.len() == wt, 1);
        rects += wr;
        circles += wc;
        texts += wt;
        if n.kind == BOX {
            c = rs[0].xy.add(size.scale(0.5));
            check(near(rs[0].size, size, 1e-9), 2);
            check(same_look(&rs[0].look, &n.look, true), 2);
            check(rs[0].look.rounded == n.look.rounded, 2);
            check(rs[0].props == n.props, 2);
        }
        if n.kind == RECORD {
            let outer = rs[3];
            c = outer.xy.add(size.scale(0.5));
            check(near(outer.size, size, 1e-9), 2);
            check(same_look(&outer.look, &n.look, false), 2);
            check(same_look(&rs[0].look, &n.look, true), 2);
            check(near(rs[0].xy, outer.xy, 1e-9) && near(rs[0].size, size, 1e-9), 2);
            let names = [&ts[0].text[..], &ts[1].text[..]];
            check(names.contains(&&n.label[..]) && names.contains(&"r"), 3);
        }
        if n.kind == CIRCLE || n.kind == DOUBLE {
            let big = if wc == 2 && cs[1].size.x > cs[0].size.x { cs[1] } else { cs[0] };
            c = big.xy;
            check(near(big.size, size, 1e-9), 2);
            check(same_look(&big.look, &n.look, true), 2);
            check(big.props == n.props, 2);
            if wc == 2 {
                check(near(cs[0].xy, cs[1].xy, 1e-9), 2);
                check(cs[0].size.x != cs[1].size.x, 2);
            }
        }
        if n.kind != NONE {
            check(same_look(&ts[0].look, &n.look, false), 3);
            if n.kind != RECORD {
                check(ts[0].text == n.label && near(ts[0].xy, c, 1e-9), 3);
            }
        }
        mid.push(c);
    }
    let mut arrows = 0;
    for e in &g.edges {
        let l: Vec<&DrawnArrow> = r.arrows.iter().filter(|x| x.look.line_width == e.look.line_width).collect();
        let ts = r.texts.iter().filter(|x| x.text == e.label).count();
        if e.style == 3 {
            check(l.is_empty(), 4);
        } else {
            check(l.len() == 1, 4);
            arrows += 1;
            let x = l[0];
            check(same_look(&x.look, &e.look, false), 5);
            check(x.dashed == (e.style != 0), 5);
            check(x.props == e.props, 5);
            check(x.path.len() >= 2, 4);
            let (p, q) = (x.path[0].0, x.path[x.path.len() - 1].1);
            let (na, nb) = (&g.nodes[e.a], &g.nodes[e.b]);
            let at = |n: &Node, c: Point, p: Point, port: &Option<String>| if port.is_some() { inside(n, c, p) } else { on(n, c, p) };
            let fwd = at(na, mid[e.a], p, &e.ports.0) && at(nb, mid[e.b], q, &e.ports.1);
            let back = at(na, mid[e.a], q, &e.ports.0) && at(nb, mid[e.b], p, &e.ports.1);
            check(fwd || back, 4);
            let rev = (e.heads.1, e.heads.0);
            check((fwd && x.head == e.heads) || (back && x.head == rev), 5);
            if back && !fwd {
                reach(3);
            }
            let inner = x.text == e.label;
            if e.label.is_empty() {
                check(x.text.is_empty(), 6);
            } else {
                check(ts + inner as usize == 1 && (inner || x.text.is_empty()), 6);
            }
        }
        if !e.label.is_empty() {
            reach(2);
            check(ts <= 1, 6);
            if e.style != 3 {
                texts += ts;
                let t = r.texts.iter().find(|x| x.text == e.label);
                if let Some(t) = t {
                    check(same_look(&t.look, &e.look, false), 6);
                }
            }
        }
    }
    // nothing else
    check(r.arrows.len() == arrows, 7);
    let hidden = g.edges.iter().filter(|e| e.style == 3 && !e.label.is_empty()).count();
    check(r.texts.len() >= texts && r.texts.len() <= texts + hidden, 7);
    if g.debug {
        check(r.rects.len() >= rects && r.circles.len() >= circles, 7);
    } else {
        check(r.rects.len() == rects && r.circles.len() == circles && r.lines.is_empty(), 7);
    }
    reach(1);
}
fn boxes(n: usize, ltr: bool) -> Graph {
    let mut g = graph(ltr);
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, BOX, w, h));
    }
    g
}
/// The names of the edges differ.
fn name_edges(g: &mut Graph) {
    for (i, e) in g.edges.iter_mut().enumerate() {
        if !e.label.is_empty() {
            e.label = format!("e{}", i);
        }
    }
}
fn topo(n: usize, m: usize, labels: bool) {
    let mut g = boxes(n, flag());
    g.any_edges(m, if labels { "e" } else { "" });
    name_edges(&mut g);
    // both ends are told apart
    for (i, e) in g.edges.iter_mut().enumerate() {
        e.heads = [(false, true), (true, false)][i % 2];
    }
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges33() {
    topo(3, 3, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges44() {
    topo(4, 4, false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges34() {
    topo(3, 4, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges45() {
    topo(4, 5, false)
}
fn any_look(width: usize) -> StyleAttr {
    let c = Color::new(int(0, u32::MAX as u64) as u32);
    let f = Color::new(int(0, u32::MAX as u64) as u32);
    StyleAttr::new(c, width, if flag() { Some(f) } else { None }, int(0, 1000) as usize, int(0, 1000000) as usize)
}
/// All looks, shapes, heads and styles of two nodes and two edges between any of them.
fn looks(two: bool) {
    let mut g = boxes(2, flag());
    for n in g.nodes.iter_mut() {
        n.kind = pick(0, 4) as u8;
        let w = n.look.line_width;
        n.look = any_look(w);
        if n.kind == RECORD {
            // the sizes of the fields of a record depend on the font
            n.look.font_size = 14;
            n.look.rounded = 0;
        }
        if flag() {
            n.props = Some("id=\"x\"".to_string());
        }
    }
    // an edge cannot be attached to a node without a shape
    let ok: Vec<usize> = (0..2).filter(|i| g.nodes[*i].kind != NONE).collect();
    if !ok.is_empty() {
        let m = if two { 2 } else { 1 };
        for i in 0..m {
            let a = ok[pick(0, ok.len() as u64 - 1) as usize];
            let b = ok[pick(0, ok.len() as u64 - 1) as usize];
            let mut e = edge(i, a, b, "");
            if !two {
                let w = e.look.line_width;
                e.look = any_look(w);
                e.heads = (flag(), flag());
                e.style = pick(0, 3) as u8;
                if flag() {
                    e.props = Some("id=\"y\"".to_string());
                }
            }
            g.edges.push(e);
        }
    }
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn looks1() {
    looks(false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn looks2() {
    looks(true)
}
/// The flags, and debug mode.
#[no_mangle]
#[inline(never)]
pub extern "C" fn modes() {
    let mut g = boxes(3, flag());
    g.nodes[1].kind = CIRCLE;
    g.any_flags();
    g.debug = flag();
    g.any_edges(2, "e");
    name_edges(&mut g);
    verify(&g);
}
/// Edges between the ports of records.
#[no_mangle]
#[inline(never)]
pub extern "C" fn ports() {
    let mut g = boxes(2, flag());
    g.nodes[0].kind = RECORD;
    g.nodes[1].kind = if flag() { RECORD } else { BOX };
    g.any_edges(2, "e");
    name_edges(&mut g);
    for e in g.edges.iter_mut() {
        let port = || [None, Some("p".to_string()), Some("q".to_string()), Some("z".to_string())][pick(0, 3) as usize].clone();
        e.ports = (port(), port());
    }
    verify(&g);
}
/// Larger graphs.
fn large(mut g: Graph) {
    name_edges(&mut g);
    for (i, e) in g.edges.iter_mut().enumerate() {
        e.heads = [(false, true), (true, false)][i % 2];
    }
    verify(&g);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big1() {
    large(big(flag(), 1, "e", true));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn big2() {
    large(big(false, 2, "", false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge1() {
    large(huge(flag(), [9, 12, 17][pick(0, 2) as usize], "e"));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge2() {
    large(huge(flag(), 24, "e"));
}
entries!(huge1, huge2, big1, big2, edges33, edges44, edges34, edges45, looks1, looks2, modes, ports);
