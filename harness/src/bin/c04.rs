//! C04: records are drawn with the fields their label describes.
use layout::core::base::Orientation;
use layout::core::format::Renderable;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::{DotParser, GraphBuilder};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use sym::gr::look;
use sym::rec::*;
use sym::*;

/// The fields that a label describes.
#[derive(Clone, Debug)]
enum Field {
    Text(String, Option<String>),
    List(Vec<Field>),
}
use Field::*;

fn leaf(s: &str) -> Option<Field> {
    let s = s.trim();
    if s.is_empty() {
        return None;
    }
    if let Some(r) = s.strip_prefix('<') {
        if let Some((p, t)) = r.split_once('>') {
            return Some(Text(t.trim().to_string(), Some(p.to_string())));
        }
    }
    Some(Text(s.to_string(), None))
}
/// Reads the fields up to the end of the block, gives the rest.
fn fields(mut s: &[char]) -> (Field, &[char]) {
    let mut l = vec![];
    let mut t = String::new();
    loop {
        let c = s.first().copied();
        if !s.is_empty() {
            s = &s[1..];
        }
        match c {
            Some('{') | Some('|') | Some('}') | None => {
                l.extend(leaf(&t));
                t.clear();
                if c == Some('{') {
                    let (f, r) = fields(s);
                    l.push(f);
                    s = r;
                } else if c != Some('|') {
                    break;
                }
            }
            Some(c) => t.push(c),
        }
    }
    (if l.is_empty() { Text(String::new(), None) } else { List(l) }, s)
}
fn reference(label: &str) -> Field {
    let v: Vec<char> = label.chars().collect();
    fields(&v).0
}

fn eq(a: f64, b: f64) -> bool {
    ((a - b) < 1e-6) & ((b - a) < 1e-6)
}
type Rect = (Point, Point); // corner, size
struct Reader<'a> {
    r: &'a Rec,
    rect: usize,
    text: usize,
    ports: Vec<(String, Rect)>,
}
impl<'a> Reader<'a> {
    /// The next rectangles are those of the field.
    fn field(&mut self, f: &Field, side_by_side: bool) -> Rect {
        check(self.rect < self.r.rects.len(), 1);
        let x = &self.r.rects[self.rect];
        self.rect += 1;
        let (at, size) = (x.xy, x.size);
        check(x.look.rounded == 0, 7);
        match f {
            Text(t, p) => {
                check(self.text < self.r.texts.len(), 1);
                let d = &self.r.texts[self.text];
                self.text += 1;
                check(d.seq > x.seq, 2);
                check(d.text == *t, 2);
                check(eq(d.xy.x, at.x + size.x / 2.) & eq(d.xy.y, at.y + size.y / 2.), 3);
                if let Some(p) = p {
                    self.ports.push((p.clone(), (at, size)));
                }
            }
            List(l) => {
                let mut pos = if side_by_side { at.x } else { at.y };
                for f in l {
                    let (a, s) = self.field(f, !side_by_side);
                    if side_by_side {
                        check(eq(a.x, pos) & eq(a.y, at.y) & eq(s.y, size.y) & (s.x > 0.), 4);
                        pos = a.x + s.x;
                    } else {
                        check(eq(a.y, pos) & eq(a.x, at.x) & eq(s.x, size.x) & (s.y > 0.), 4);
                        pos = a.y + s.y;
                    }
                }
                check(eq(pos, if side_by_side { at.x + size.x } else { at.y + size.y }), 4);
                reach(2);
            }
        }
        (at, size)
    }
}
/// Compares what is drawn for a node in one color with its fields; gives the outline and the ports.
fn compare(r: &Rec, f: &Field, side_by_side: bool, at: Point, size: Point, round: bool) -> Vec<(String, Rect)> {
    if verbose() {
        println!("fields: {:?}, side by side {}, at {:?} {:?}", f, side_by_side, at, size);
        for x in &r.rects {
            println!("rect {:?} {:?} fill {} clip {:?}", x.xy, x.size, x.look.fill_color.is_some(), x.clip);
        }
        for x in &r.texts {
            println!("text {:?} {:?}", x.xy, x.text);
        }
    }
    let mut rd = Reader { r, rect: 0, text: 0, ports: vec![] };
    let all = rd.field(f, side_by_side);
    check(eq(all.0.x, at.x) & eq(all.0.y, at.y) & eq(all.1.x, size.x) & eq(all.1.y, size.y), 5);
    // the outline
    check(rd.rect + 1 == r.rects.len() && rd.text == r.texts.len(), 1);
    let o = &r.rects[rd.rect];
    check(o.look.fill_color.is_none(), 6);
    check(eq(o.xy.x, at.x) & eq(o.xy.y, at.y) & eq(o.size.x, size.x) & eq(o.size.y, size.y), 6);
    check((o.look.rounded > 0) == round, 7);
    for x in &r.rects[..rd.rect] {
        check(x.look.fill_color.is_some(), 7);
        check(x.clip.is_some() == round, 7);
        if let Some(c) = x.clip {
            check(c < r.clips.len(), 7);
            let c = r.clips[c];
            check(eq(c.0.x, at.x) & eq(c.0.y, at.y) & eq(c.1.x, size.x) & eq(c.1.y, size.y), 7);
        }
    }
    reach(1);
    rd.ports
}
fn built(doc: &str) -> VisualGraph {
    if verbose() {
        println!("{:?}", doc);
    }
    let g = DotParser::new(doc).process();
    check(g.is_ok(), 8);
    let mut b = GraphBuilder::new();
    b.visit_graph(&g.unwrap());
    b.get()
}
/// One node with the label.
fn label(l: &str, ltr: bool, round: bool) {
    let doc = format!("digraph {{ {} a [shape={}, label=\"{}\"] }}", if ltr { "rankdir=LR" } else { "" }, if round { "Mrecord" } else { "record" }, l);
    let vg = built(&doc);
    let h: Vec<_> = vg.iter_nodes().collect();
    check(h.len() == 1, 8);
    let e = vg.element(h[0]);
    let mut r = Rec::new();
    e.render(false, &mut r);
    let b = e.pos.bbox(false);
    compare(&r, &reference(l), !ltr, b.0, b.1.sub(b.0), round);
    observe(r.texts.len() as u64);
}
fn any(n: usize, lo: u8) -> String {
    let s = ascii(n, lo, 127);
    for c in s.bytes() {
        assume(c != b'"');
        assume(c != b'\\');
    }
    s
}
/// Any label of the characters that matter.
fn marks(n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(["a", "|", "{", "}", "<", ">", " ", "bc"][pick(0, 7) as usize]);
    }
    label(&s, false, false)
}
fn blocks(n: usize) {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(["|", "{", "}", "text", "<p>", "<q> x\n"][pick(0, 5) as usize]);
        if i % 2 == 0 {
            s.push('y');
        }
    }
    label(&s, flag(), flag())
}
/// A record of any size.
fn sized(depth: u64, conn: bool) {
    let ltr = flag();
    let dir = if ltr { Orientation::TopToBottom } else { Orientation::LeftToRight };
    fn def(depth: u64, n: &mut usize) -> (RecordDef, Field) {
        let k = if depth == 0 { 0 } else { pick(0, 3) };
        if k == 0 {
            *n += 1;
            let t = ["a", "a longer text", "two\nlines", ""][*n % 4];
            let p = format!("p{}", n);
            return (RecordDef::new_text_with_port(t, &p), Text(t.to_string(), Some(p)));
        }
        let l: Vec<(RecordDef, Field)> = (0..k).map(|_| def(depth - 1, n)).collect();
        (RecordDef::Array(l.iter().map(|x| x.0.clone()).collect()), List(l.into_iter().map(|x| x.1).collect()))
    }
    let (d, f) = def(depth, &mut 0);
    let font = if conn { 14 } else { [1, 14, 1000][pick(0, 2) as usize] };
    let lk = StyleAttr::new(look(1).line_color, 1, look(1).fill_color, if conn { 0 } else { [0, 15][pick(0, 1) as usize] }, font);
    let size = Point::new(f64_grid(4, 40000, 2), f64_grid(4, 40000, 2));
    let mut e = Element::create(ShapeKind::Record(d), lk.clone(), dir, size);
    let at = if conn { Point::zero() } else { Point::new(f64_grid(-40000, 40000, 2), f64_grid(-40000, 40000, 2)) };
    e.move_to(at);
    let mut r = Rec::new();
    e.render(false, &mut r);
    let ports = compare(&r, &f, !ltr, at.sub(size.scale(0.5)), size, lk.rounded > 0);
    if !conn {
        return;
    }
    // the place of the port is on the outline of its field, whatever side the edge comes from
    let k = pick(0, ports.len() as u64) as usize;
    let (name, (a, s)) = if k < ports.len() { ports[k].clone() } else { ("none".to_string(), (at.sub(size.scale(0.5)), size)) };
    let far = [Point::new(3e6, 0.), Point::new(-3e6, 0.), Point::new(0., 3e6), Point::new(0., -3e6)][pick(0, 3) as usize];
    let (p, _) = e.get_connector_location(at.add(far), 30., &Some(name));
    if verbose() {
        println!("port {} at {:?} size {:?}: {:?}", k, a, s, p);
    }
    let (x0, y0, x1, y1) = (a.x, a.y, a.x + s.x, a.y + s.y);
    let inx = (p.x > x0 - 1e-6) & (p.x < x1 + 1e-6);
    let iny = (p.y > y0 - 1e-6) & (p.y < y1 + 1e-6);
    check((inx & (eq(p.y, y0) | eq(p.y, y1))) | (iny & (eq(p.x, x0) | eq(p.x, x1))), 9);
    reach(3);
}
/// Edges between the fields of two records.
fn ports(n: usize) {
    let ltr = flag();
    let l = ["<p> a|{<q> b|<r> c}", "{{<r>|<p> long text}|<q> d}", "<p> x|y", "<q>"];
    let k = [pick(0, 3) as usize, pick(0, 3) as usize];
    let mut doc = String::from(if ltr { "digraph { rankdir=LR " } else { "digraph { " });
    for i in 0..2 {
        doc.push_str(&format!("n{} [shape=record, label=\"{}\", width={}];", i, l[k[i]], 50 + i));
    }
    let mut want = vec![];
    for i in 0..n {
        let (a, b) = (pick(0, 1) as usize, pick(0, 1) as usize);
        let p = ["", "p", "q", "r", "none"][pick(0, 4) as usize];
        let q = ["", "p", "q", "r"][pick(0, 3) as usize];
        let col = |x: &str| if x.is_empty() { String::new() } else { format!(":{}", x) };
        doc.push_str(&format!("n{}{} -> n{}{} [penwidth={}];", a, col(p), b, col(q), 100 + i));
        want.push((a, b, p, q));
    }
    doc.push('}');
    check_ports(&doc, &[l[k[0]], l[k[1]]], &want, ltr)
}
/// An edge to a record with two named fields; any names.
fn names(n: usize) {
    let name = |n: usize| {
        let s = ascii(pick(1, n as u64) as usize, 1, 127);
        for c in s.bytes() {
            for x in b"\"\\|{}<>" {
                assume(c != *x);
            }
        }
        s
    };
    let (p, q) = (name(n), name(n));
    let r = match pick(0, 2) {
        0 => p.clone(),
        1 => q.clone(),
        _ => name(n),
    };
    assume(p != q);
    let l = [format!("<{}> a|{{x|<{}> long}}", p, q), "y".to_string()];
    let back = flag();
    let e = if back { format!("n1 -> n0:\"{}\"", r) } else { format!("n0:\"{}\" -> n1", r) };
    let doc = format!("digraph {{ n0 [shape=record, label=\"{}\", width=50]; n1 [shape=record, label=\"{}\", width=51]; {} }}", l[0], l[1], e);
    let want = if back { (1, 0, "", &r[..]) } else { (0, 1, &r[..], "") };
    check_ports(&doc, &[&l[0], &l[1]], &[want], false)
}
/// A chain of edges: every edge has the ports that are written at its ends.
fn chain() {
    let ltr = flag();
    let l = "<p> a|{<q> b|<r> c}";
    let mut doc = String::from(if ltr { "digraph { rankdir=LR " } else { "digraph { " });
    for i in 0..3 {
        doc.push_str(&format!("n{} [shape=record, label=\"{}\", width={}];", i, l, 50 + i));
    }
    let v: Vec<(usize, &str)> = (0..3).map(|_| (pick(0, 2) as usize, ["", "p", "q", "r"][pick(0, 3) as usize])).collect();
    for i in 0..3 {
        if i > 0 {
            doc.push_str(" -> ");
        }
        doc.push_str(&format!("n{}", v[i].0));
        if !v[i].1.is_empty() {
            doc.push_str(&format!(":{}", v[i].1));
        }
    }
    doc.push_str("}");
    let want = [(v[0].0, v[1].0, v[0].1, v[1].1), (v[1].0, v[2].0, v[1].1, v[2].1)];
    check_ports(&doc, &[l, l, l], &want, ltr)
}
fn check_ports(doc: &str, labels: &[&str], want: &[(usize, usize, &str, &str)], ltr: bool) {
    let mut vg = built(doc);
    let mut all = Rec::new();
    vg.do_it(false, false, false, &mut all);
    // what belongs to each record
    let mut places: Vec<(Rect, Vec<(String, Rect)>)> = vec![];
    for (i, l) in labels.iter().enumerate() {
        let mut r = Rec::new();
        r.rects = all.rects.iter().filter(|x| x.look.line_width == 50 + i).cloned().collect();
        r.texts = all.texts.iter().filter(|x| x.look.line_width == 50 + i).cloned().collect();
        check(!r.rects.is_empty(), 1);
        let (at, size) = (r.rects[0].xy, r.rects[0].size);
        let p = compare(&r, &reference(l), !ltr, at, size, false);
        places.push(((at, size), p));
    }
    let on = |p: Point, (a, s): Rect| {
        let (x0, y0, x1, y1) = (a.x, a.y, a.x + s.x, a.y + s.y);
        let inx = (p.x > x0 - 1e-6) & (p.x < x1 + 1e-6);
        let iny = (p.y > y0 - 1e-6) & (p.y < y1 + 1e-6);
        (inx & (eq(p.y, y0) | eq(p.y, y1))) | (iny & (eq(p.x, x0) | eq(p.x, x1)))
    };
    let place = |n: usize, p: &str| places[n].1.iter().find(|x| x.0 == p).map_or(places[n].0, |x| x.1);
    check(all.arrows.len() == want.len(), 10);
    // every edge has its own arrow
    let mut free: Vec<bool> = vec![true; want.len()];
    let fits = |a: &DrawnArrow, w: &(usize, usize, &str, &str)| {
        let (s, t) = (a.path[0].0, a.path[a.path.len() - 1].1);
        let (x, y) = (place(w.0, w.2), place(w.1, w.3));
        (on(s, x) && on(t, y) && a.head == (false, true)) || (on(s, y) && on(t, x) && a.head == (true, false))
    };
    if verbose() {
        for a in &all.arrows {
            println!("arrow {:?} {:?} {:?}", a.path[0].0, a.path[a.path.len() - 1].1, a.head);
        }
    }
    for w in want {
        let f = (0..want.len()).find(|i| free[*i] && fits(&all.arrows[*i], w));
        // edges that fit in two ways are rare: only if this one does not fit at all
        let f = f.or_else(|| (0..want.len()).find(|i| fits(&all.arrows[*i], w)));
        check(f.is_some(), 10);
        free[f.unwrap()] = false;
    }
    reach(3);
}
/// A long label with any character somewhere.
fn long_text() {
    let n = [7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257][pick(0, 14) as usize];
    let at = [0, n / 2, n - 1][pick(0, 2) as usize];
    let c = ["k", "k ", "\n", "é"][pick(0, 3) as usize];
    let s = format!("{}{}{}", c.repeat(at), any(1, 1), c.repeat(n - 1 - at));
    let s = match pick(0, 2) {
        0 => s,
        1 => format!("x|{{{}|y}}|z", s),
        _ => format!("x|{{<{}> y}}|z", s),
    };
    label(&s, false, flag())
}
/// Many fields, with another character in one place.
fn many_fields() {
    let n = [7, 8, 9, 15, 16, 17, 31, 32, 33, 40][pick(0, 9) as usize];
    let odd = pick(0, n as u64 - 1) as usize;
    let inner = flag();
    let ports = flag();
    let mut s = String::new();
    if inner {
        s.push_str("a|{");
    }
    for i in 0..n {
        if i == odd {
            s.push_str(["", "|", "{", "}", "{x|y}", "<q>", " "][pick(0, 6) as usize]);
        }
        s.push_str(&if ports { format!("<p{}> t{}", i, i) } else { format!("t{}", i) });
        s.push('|');
    }
    if inner {
        s.push_str("}b");
    }
    label(&s, flag(), false)
}
/// Blocks in blocks.
fn deep_fields() {
    let n = pick(0, 16) as usize;
    let (before, after) = (flag(), flag());
    let mut s = String::new();
    for i in 0..n {
        if before {
            s.push_str(&format!("b{}|", i));
        }
        s.push('{');
    }
    s.push_str(["x", "<p> x", "x|y", ""][pick(0, 3) as usize]);
    for i in 0..n + [0, 1, 2][pick(0, 2) as usize] {
        if i > 0 {
            s.push('}');
        }
        if after {
            s.push_str(&format!("|a{}", i));
        }
    }
    label(&s, flag(), false)
}
/// An edge between any two fields of large records.
fn far_ports() {
    let ltr = flag();
    let wide: Vec<String> = (0..12).map(|i| format!("<p{}> t{}", i, "x".repeat(i % 5))).collect();
    let wide = wide.join("|");
    let mut deep = String::new();
    for i in 0..8 {
        deep.push_str(&format!("<p{}> t{}|{{", i, "x".repeat(i % 3)));
    }
    deep.push_str("<p8> end");
    deep.push_str(&"}".repeat(8));
    let l = if flag() { [wide, deep] } else { [deep, wide] };
    let mut doc = String::from(if ltr { "digraph { rankdir=LR " } else { "digraph { " });
    for i in 0..2 {
        doc.push_str(&format!("n{} [shape=record, label=\"{}\", width={}];", i, l[i], 50 + i));
    }
    let (p, q) = (format!("p{}", pick(0, 12)), format!("p{}", pick(0, 12)));
    doc.push_str(&format!("n0:{} -> n1:{} }}", p, q));
    check_ports(&doc, &[&l[0], &l[1]], &[(0, 1, &p, &q)], ltr)
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    chars4 => label(&any(4, 1), false, false);
    chars5 => label(&any(5, 1), false, false);
    inner3 => label(&format!("{{a{}b", any(3, 1)), flag(), flag());
    inner4 => label(&format!("x|{{a{}b}}y|{{}}", any(4, 1)), flag(), flag());
    uni => {
        let s = ["é|😀", "\u{2003}a|b\u{2003}", "<ß>x|{ü}", "\u{a0}|x", "٣{\u{ffff}"][pick(0, 4) as usize];
        label(&format!("{}{}", s, any(2, 1)), flag(), flag())
    };
    marks6 => marks(6);
    marks7 => marks(7);
    blocks6 => blocks(6);
    blocks7 => blocks(7);
    sized1 => sized(1, false);
    sized2 => sized(2, false);
    attach1 => sized(1, true);
    attach2 => sized(2, true);
    chars6 => label(&any(6, 1), false, false);
    chars8 => label(&any(8, 1), false, false);
    ports1 => ports(1);
    ports2 => ports(2);
    chained => chain();
    names1 => names(1);
    longtext => long_text();
    manyfields => many_fields();
    deepfields => deep_fields();
    farports => far_ports();
    names2 => names(2);
}
