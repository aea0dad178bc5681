//! C18: a node is always large enough for its label.
use layout::core::base::Orientation;
use layout::core::format::{RenderBackend, Renderable, Visible};
use layout::core::geometry::{get_size_for_str, Point};
use layout::core::style::*;
use layout::gv::{DotParser, GraphBuilder};
use layout::std_shapes::render::get_shape_size;
use layout::std_shapes::shapes::*;
use sym::gr::look;
use sym::rec::*;
use sym::*;

/// The longest line and the number of lines.
fn measure(s: &str) -> (usize, usize) {
    let (mut w, mut h) = (0usize, 0usize);
    let mut rest: Vec<char> = s.chars().collect();
    // a newline at the end does not start another line
    if rest.last() == Some(&'\n') {
        rest.pop();
        // a carriage return before it belongs to the newline
    }
    if s.is_empty() {
        return (1, 1);
    }
    let mut cur = 0;
    let mut cr = false;
    let closed = s.ends_with('\n');
    for (i, c) in rest.iter().enumerate() {
        let last = i + 1 == rest.len();
        if *c == '\n' {
            w = w.max(cur - cr as usize);
            h += 1;
            cur = 0;
            cr = false;
        } else {
            cur += 1;
            cr = *c == '\r' && (!last || closed);
        }
    }
    w = w.max(cur - cr as usize);
    (w.max(1), h + 1)
}
fn orient() -> Orientation {
    if flag() {
        Orientation::LeftToRight
    } else {
        Orientation::TopToBottom
    }
}
const BIG: u64 = 1 << 40;
fn big_enough(text: &str, font: usize) {
    let (w, h) = measure(text);
    let f = font as f64;
    let (w, h) = (w as f64 * f, h as f64 * f);
    let e = get_size_for_str(text, font);
    if verbose() {
        println!("text {:?} font {}: measured {}x{}, estimate {:?}", text, font, w, h, e);
    }
    check((e.x == w) & (e.y == h), 1);
    let dir = orient();
    let (shape, pad) = match pick(0, 4) {
        0 => (ShapeKind::new_box(text), 10.),
        1 => (ShapeKind::new_circle(text), 20.),
        2 => (ShapeKind::new_double_circle(text), 20.),
        3 => (ShapeKind::Record(RecordDef::new_text(text)), 10.),
        _ => (ShapeKind::Connector(Some(text.to_string())), 10.),
    };
    let same = flag();
    let s = get_shape_size(dir, &shape, font, same);
    if verbose() {
        println!("{:?} {:?} same {}: {:?}", shape, dir, same, s);
    }
    check((s.x >= w + pad) & (s.y >= h + pad), 2);
    if same {
        check(s.x == s.y, 3);
        reach(2);
    }
    reach(1);
}
/// Any text, and any font.
#[no_mangle]
#[inline(never)]
pub extern "C" fn text3() {
    let n = pick(0, 3) as usize;
    big_enough(&text(n), int(0, BIG) as usize)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn text5() {
    big_enough(&ascii(5, 0, 127), int(0, BIG) as usize)
}
/// Lines of different length.
#[no_mangle]
#[inline(never)]
pub extern "C" fn lines9() {
    let mut s = String::new();
    for _ in 0..9 {
        s.push_str(["x", "\n", "é", "\r\n"][pick(0, 3) as usize]);
    }
    let (w, h) = measure(&s);
    let e = get_size_for_str(&s, 3);
    check((e.x == w as f64 * 3.) & (e.y == h as f64 * 3.), 1);
    let f = int(0, BIG) as usize;
    let p = get_shape_size(Orientation::TopToBottom, &ShapeKind::new_box(&s), f, false);
    check((p.x >= w as f64 * f as f64 + 10.) & (p.y >= h as f64 * f as f64 + 10.), 2);
    reach(1);
}
/// The largest fonts do not overflow.
#[no_mangle]
#[inline(never)]
pub extern "C" fn huge() {
    let f = [usize::MAX, usize::MAX / 2, 1 << 63, 1 << 62][pick(0, 3) as usize];
    big_enough(["", "x", "some\nlines"][pick(0, 2) as usize], f);
}
/// Labels of connectors.
#[no_mangle]
#[inline(never)]
pub extern "C" fn connector() {
    let n = pick(1, 3) as usize;
    let t = text(n);
    let (w, h) = measure(&t);
    let f = int(0, BIG) as usize;
    let l = StyleAttr::new(look(1).line_color, 1, None, 0, f);
    let mut e = Element::create_connector(&t, &l, orient());
    for _ in 0..pick(1, 2) {
        e.resize();
    }
    let s = e.position().size(false);
    check((s.x >= w as f64 * f as f64 + 10.) & (s.y >= h as f64 * f as f64 + 10.), 2);
    reach(1);
}
/// Through the builder: the node is large enough, and a double circle is round.
fn built(label: &str, font: &str, size: f64) {
    let k = pick(0, 6) as usize;
    let (shape, pad) = [("box", 10.), ("circle", 20.), ("doublecircle", 20.), ("record", 10.), ("Mrecord", 10.), ("unknown", 20.), ("ellipse", 20.)][k];
    let ltr = flag();
    let doc = format!("digraph {{ {} a [label=\"{}\", shape={}, fontsize=\"{}\"] }}", if ltr { "rankdir=LR" } else { "" }, label, shape, font);
    let g = DotParser::new(&doc).process();
    check(g.is_ok(), 4);
    let mut b = GraphBuilder::new();
    b.visit_graph(&g.unwrap());
    let vg = b.get();
    let ns: Vec<_> = vg.iter_nodes().collect();
    check(ns.len() == 1, 4);
    let s = vg.pos(ns[0]).size(false);
    // the fields of records are shown without the spaces around them
    let (w, h) = measure(if k == 3 || k == 4 { label.trim() } else { label });
    if verbose() {
        println!("{:?}: {:?}, text {}x{} letters of {}", doc, s, w, h, size);
    }
    check(s.x >= w as f64 * size + pad && s.y >= h as f64 * size + pad, 2);
    if k == 2 {
        check(s.x == s.y, 3);
        reach(2);
    }
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn built_text() {
    let n = pick(0, 2) as usize;
    let s = ascii(n, 0, 127);
    for c in s.bytes() {
        assume(c != 0);
        assume(c != b'"');
        assume(c != b'\\');
        assume(c != b'{');
        assume(c != b'}');
        assume(c != b'|');
        assume(c != b'<');
    }
    built(&s, "20", 20.)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn built_font() {
    let l = ["", "x", "a longer label", "two\nlines", "äöü", "\n", "a\n\nb"][pick(0, 6) as usize];
    let (f, s) = [("1", 1.), ("14", 14.), ("100", 100.), ("1000000", 1e6), ("", 14.), ("x", 14.), ("-3", 14.), ("0", 0.)][pick(0, 7) as usize];
    built(l, f, s)
}
/// The fields of a record are large enough for their texts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn fields() {
    let mut label = String::new();
    for i in 0..3 {
        label.push_str(["", "{", "}", "|"][pick(0, 3) as usize]);
        label.push_str(["", "{", "|"][pick(0, 2) as usize]);
        label.push_str(["a", "wide text", "h\nh\nh"][(i + pick(0, 1) as usize) % 3]);
        label.push_str(&format!("{}", i));
    }
    let ltr = flag();
    let doc = format!("digraph {{ {} a [label=\"{}\", shape=record, fontsize=10] }}", if ltr { "rankdir=LR" } else { "" }, label);
    let g = DotParser::new(&doc).process();
    check(g.is_ok(), 4);
    let mut b = GraphBuilder::new();
    b.visit_graph(&g.unwrap());
    let mut vg = b.get();
    let mut r = Rec::new();
    vg.do_it(false, false, false, &mut r as &mut dyn RenderBackend);
    if verbose() {
        println!("{:?}", doc);
        for x in &r.rects {
            println!("rect {:?} {:?}", x.xy, x.size);
        }
    }
    for t in &r.texts {
        let (w, h) = measure(&t.text);
        // the smallest box around the text is its field
        let mut best: Option<Point> = None;
        for x in &r.rects {
            let (c, s) = (x.xy.add(x.size.scale(0.5)), x.size);
            if (c.x - t.xy.x).abs() < 1e-6 && (c.y - t.xy.y).abs() < 1e-6 && best.map_or(true, |b| s.x * s.y < b.x * b.y) {
                best = Some(s);
            }
        }
        check(best.is_some(), 5);
        let b = best.unwrap();
        if verbose() {
            println!("text {:?} in {:?}", t.text, b);
        }
        check(b.x >= w as f64 * 10. - 1e-6 && b.y >= h as f64 * 10. - 1e-6, 5);
        reach(1);
    }
}
#[allow(dead_code)]
fn unused(e: &Element, r: &mut Rec) {
    e.render(false, r)
}
/// Long texts: any line is the longest one, and any character is in any place.
#[no_mangle]
#[inline(never)]
pub extern "C" fn long() {
    let n = [8, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1000][pick(0, 12) as usize];
    let c = ["x", "é", "\u{ffff}", "😀"][pick(0, 3) as usize];
    let at = [0, n / 2, n - 1][pick(0, 2) as usize];
    let s = format!("{}{}{}", c.repeat(at), ascii(1, 0, 127), c.repeat(n - 1 - at));
    let (w, h) = measure(&s);
    let e = get_size_for_str(&s, 3);
    check((e.x == w as f64 * 3.) & (e.y == h as f64 * 3.), 1);
    let f = [1, 14, 1 << 40][pick(0, 2) as usize];
    let (shape, pad) = match pick(0, 4) {
        0 => (ShapeKind::new_box(&s), 10.),
        1 => (ShapeKind::new_circle(&s), 20.),
        2 => (ShapeKind::new_double_circle(&s), 20.),
        3 => (ShapeKind::Record(RecordDef::new_text(&s)), 10.),
        _ => (ShapeKind::Connector(Some(s.clone())), 10.),
    };
    let p = get_shape_size(orient(), &shape, f, false);
    check((p.x >= w as f64 * f as f64 + 10.) & (p.y >= h as f64 * f as f64 + pad), 2);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn many_lines() {
    let n = pick(1, 40) as usize;
    let long = pick(0, n as u64 - 1) as usize;
    let len = [0, 1, 5, 50, 300][pick(0, 4) as usize];
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(["\n", "\r\n"][i % 2]);
        }
        s.push_str(&"x".repeat(if i == long { len } else { 3 }));
    }
    if flag() {
        s.push('\n');
    }
    let (w, h) = measure(&s);
    let e = get_size_for_str(&s, 7);
    check((e.x == w as f64 * 7.) & (e.y == h as f64 * 7.), 1);
    let p = get_shape_size(orient(), &ShapeKind::new_box(&s), 7, false);
    check((p.x >= w as f64 * 7. + 10.) & (p.y >= h as f64 * 7. + 10.), 2);
    reach(1);
}
/// Large records: many fields, and blocks in blocks.
#[no_mangle]
#[inline(never)]
pub extern "C" fn record_size() {
    let ltr = flag();
    let n = pick(1, 12) as usize;
    let odd = pick(0, n as u64 - 1) as usize;
    let t = |i: usize| if i == odd { ["a wide text", "h\nh\nh\nh", ""][pick(0, 2) as usize].to_string() } else { format!("t{}", i) };
    let deep = flag();
    // fields from the inside to the outside
    let mut def = RecordDef::new_text(&t(0));
    let mut need = measure(&t2(&def));
    let mut side = true;
    if deep {
        for i in 1..n {
            let x = RecordDef::new_text(&t(i));
            let m = measure(&t2(&x));
            // the block around lies in the other direction
            need = if side { (need.0 + m.0, need.1.max(m.1)) } else { (need.0.max(m.0), need.1 + m.1) };
            side = !side;
            def = RecordDef::Array(vec![x, def]);
        }
    } else {
        let l: Vec<RecordDef> = (0..n).map(|i| if i == 0 { def.clone() } else { RecordDef::new_text(&t(i)) }).collect();
        need = (0, 0);
        for x in &l {
            let m = measure(&t2(x));
            need = (need.0 + m.0, need.1.max(m.1));
        }
        def = RecordDef::Array(l);
        side = false;
    }
    // which way the outer block lies, depends on the direction
    let dir = if (!side) != ltr { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let p = get_shape_size(dir, &ShapeKind::Record(def.clone()), 10, false);
    let q = get_shape_size(dir.flip(), &ShapeKind::Record(def), 10, false);
    if verbose() {
        println!("need {:?}: {:?} or {:?}", need, p, q);
    }
    let fits = |p: Point| p.x >= need.0 as f64 * 10. && p.y >= need.1 as f64 * 10.;
    // one of the two directions is the one of `need`
    check(fits(p) || fits(q), 5);
    reach(1);
}
fn t2(d: &RecordDef) -> String {
    match d {
        RecordDef::Text(t, _) => t.clone(),
        _ => String::new(),
    }
}
entries!(long, many_lines, record_size, text3, text5, lines9, huge, connector, built_text, built_font, fields);
