//! C09: the SVG output is well formed and shows every text unchanged.
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::{DotParser, GraphBuilder};
use sym::gr::raw;
use sym::xml::*;
use sym::*;

enum Call {
    Rect(Point, Point, StyleAttr, Option<usize>),
    Circle(Point, Point, StyleAttr),
    Line(Point, Point, StyleAttr),
    Text(Point, String, StyleAttr),
    Arrow(Vec<(Point, Point)>, bool, (bool, bool), StyleAttr, String),
    Clip(Point, Point, usize),
}
use Call::*;

/// The number that an attribute shows, digit by digit.
fn whole(s: &str) -> Option<u64> {
    let mut v = 0u64;
    for c in s.bytes() {
        if c < b'0' || c > b'9' {
            return None;
        }
        v = v * 10 + (c - b'0') as u64;
    }
    if s.is_empty() || s.len() > 18 {
        None
    } else {
        Some(v)
    }
}
fn int_is(e: &Elem, k: &str, want: usize) -> bool {
    e.attr(k).and_then(whole) == Some(want as u64)
}
fn num(e: &Elem, k: &str, id: u64) -> f64 {
    let v = e.attr(k).and_then(|x| x.parse::<f64>().ok());
    check(v.is_some(), id);
    v.unwrap()
}
fn hex(c: u8) -> u32 {
    match c {
        b'0'..=b'9' => (c - b'0') as u32,
        b'a'..=b'f' => (c - b'a' + 10) as u32,
        b'A'..=b'F' => (c - b'A' + 10) as u32,
        _ => 99,
    }
}
/// The color that an attribute shows.
fn shown(e: &Elem, k: &str) -> u32 {
    let s = e.attr(k).unwrap_or("").as_bytes();
    if s.len() != 9 || s[0] != b'#' {
        return 0;
    }
    let mut v = 0;
    for c in &s[1..] {
        v = v * 16 + hex(*c);
    }
    v
}
fn colors(e: &Elem, look: &StyleAttr, fill: bool) {
    check(shown(e, "stroke") == raw(&look.line_color), 6);
    check(int_is(e, "stroke-width", look.line_width), 6);
    if fill {
        match &look.fill_color {
            Some(c) => check(shown(e, "fill") == raw(c), 6),
            None => {
                let none = matches!(e.attr("fill"), Some("none") | Some("transparent"));
                check(none || shown(e, "fill") & 255 == 0, 6)
            }
        }
    }
}
/// The elements in the order of the document, with the elements around them.
fn flat<'a>(e: &'a Elem, up: &mut Vec<&'a Elem>, out: &mut Vec<(&'a Elem, Vec<&'a Elem>)>) {
    out.push((e, up.clone()));
    up.push(e);
    for k in &e.kids {
        flat(k, up, out);
    }
    up.pop();
}
fn class_font(style: &str, class: &str) -> Option<u64> {
    // .name { ... font-size: 12px; ... }
    let mut found = None;
    for l in style.split('}') {
        let l = l.trim();
        if let Some((n, body)) = l.split_once('{') {
            if n.trim().strip_prefix('.') == Some(class) {
                if found.is_some() {
                    return None;
                }
                let mut v = None;
                for d in body.split(';') {
                    if let Some((k, x)) = d.split_once(':') {
                        if k.trim() == "font-size" {
                            v = x.trim().strip_suffix("px").and_then(whole);
                        }
                    }
                }
                v?;
                found = v;
            }
        }
    }
    found
}
/// Is the shown text the given one?
fn same_text(a: &str, b: &str) -> bool {
    let (mut x, mut y) = (a.chars(), b.chars());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return true,
            (Some(c), Some(d)) => {
                if c != d && allowed(d) {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
fn target<'a>(s: &'a str) -> Option<&'a str> {
    s.strip_prefix("url(#").and_then(|x| x.strip_suffix(")"))
}
fn draw(w: &mut SVGWriter, c: &Call, prop: bool) {
    let p = || if prop { Some("data-k=\"v\"".to_string()) } else { None };
    match c {
        Rect(a, s, l, clip) => w.draw_rect(*a, *s, l, p(), *clip),
        Circle(a, s, l) => w.draw_circle(*a, *s, l, p()),
        Line(a, b, l) => w.draw_line(*a, *b, l, p()),
        Text(a, t, l) => w.draw_text(*a, t, l),
        Arrow(v, d, h, l, t) => w.draw_arrow(v, *d, *h, l, p(), t),
        Clip(a, s, r) => {
            w.create_clip(*a, *s, *r);
        }
    }
}
fn verify(svg: &str, calls: &[Call], prop: bool) {
    if verbose() {
        println!("{}", svg);
    }
    let doc = document(svg);
    if verbose() && doc.is_err() {
        println!("{:?}", doc);
    }
    check(doc.is_ok(), 1);
    let root = doc.unwrap();
    check(root.name == "svg", 1);
    let mut all = vec![];
    flat(&root, &mut vec![], &mut all);
    // references
    let ids: Vec<&str> = all.iter().filter_map(|x| x.0.attr("id")).collect();
    for (i, x) in ids.iter().enumerate() {
        check(!ids[..i].contains(x), 2);
    }
    let mut style = String::new();
    for (e, _) in &all {
        if e.name == "style" {
            style.push_str(&e.text);
        }
    }
    for (e, _) in &all {
        for (k, v) in &e.attrs {
            if let Some(t) = target(v).or(if k == "href" { v.strip_prefix('#') } else { None }) {
                check(ids.iter().any(|x| *x == t), 3);
            }
            check(!v.contains("url(") || target(v).is_some(), 3);
        }
    }
    let by_id = |s: &str| all.iter().find(|x| x.0.attr("id") == Some(s)).map(|x| x.0);
    let font = |e: &Elem, look: &StyleAttr| {
        let f = e.attr("class").and_then(|c| class_font(&style, c));
        check(f.is_some(), 4);
        check(f.unwrap() == look.font_size as u64, 4);
    };
    // what is shown
    let view: Vec<f64> = root.attr("viewBox").unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    check(view.len() == 4 && view[0] <= 0. && view[1] <= 0., 8);
    let covers = |p: Point| {
        check((p.x <= view[0] + view[2]) & (p.y <= view[1] + view[3]), 8);
        check((p.x <= num(&root, "width", 8)) & (p.y <= num(&root, "height", 8)), 8);
    };
    let shown_kinds = ["rect", "ellipse", "circle", "line", "text", "path"];
    let mut it = all.iter().filter(|x| shown_kinds.contains(&x.0.name.as_str()) && !x.1.iter().any(|u| ["defs", "clipPath", "marker"].contains(&u.name.as_str())));
    let prop_ok = |x: &(&Elem, Vec<&Elem>)| check(!prop || x.0.attr("data-k") == Some("v") || x.1.iter().any(|u| u.attr("data-k") == Some("v")), 9);
    let clips: Vec<&Call> = calls.iter().filter(|c| matches!(c, Clip(..))).collect();
    let clip_elems: Vec<&Elem> = all.iter().filter(|x| x.0.name == "clipPath").map(|x| x.0).collect();
    check(clips.len() == clip_elems.len(), 5);
    for c in calls {
        if let Clip(..) = c {
            continue;
        }
        let x = it.next();
        check(x.is_some(), 5);
        let x = x.unwrap();
        let e = x.0;
        match c {
            Rect(a, s, l, clip) => {
                check(e.name == "rect", 5);
                prop_ok(x);
                check(num(e, "x", 5) == a.x && num(e, "y", 5) == a.y && num(e, "width", 5) == s.x && num(e, "height", 5) == s.y, 5);
                check(if e.attr("rx").is_some() { int_is(e, "rx", l.rounded) } else { l.rounded == 0 }, 5);
                colors(e, l, true);
                covers(a.add(*s));
                let t = e.attr("clip-path").and_then(target).and_then(by_id);
                check(t.is_some() == clip.is_some(), 3);
                if let (Some(t), Some(k)) = (t, clip) {
                    check(t.name == "clipPath" && t.kids.len() == 1, 3);
                    let r = &t.kids[0];
                    if let Clip(a, s, rx) = clips[*k] {
                        check(num(r, "x", 5) == a.x && num(r, "y", 5) == a.y && num(r, "width", 5) == s.x && num(r, "height", 5) == s.y && num(r, "rx", 5) == *rx as f64, 3);
                    }
                    reach(2);
                }
            }
            Circle(a, s, l) => {
                check(e.name == "ellipse", 5);
                prop_ok(x);
                check(num(e, "cx", 5) == a.x && num(e, "cy", 5) == a.y && num(e, "rx", 5) == s.x / 2. && num(e, "ry", 5) == s.y / 2., 5);
                colors(e, l, true);
                covers(a.add(s.scale(0.5)));
            }
            Line(a, b, l) => {
                check(e.name == "line", 5);
                prop_ok(x);
                check(num(e, "x1", 5) == a.x && num(e, "y1", 5) == a.y && num(e, "x2", 5) == b.x && num(e, "y2", 5) == b.y, 5);
                colors(e, l, false);
            }
            Text(a, t, l) => {
                check(e.name == "text", 5);
                font(e, l);
                check(num(e, "x", 5) == a.x, 5);
                check(e.text.is_empty(), 7);
                let want: Vec<&str> = t.lines().collect();
                check(want.len() == e.kids.len(), 7);
                let (mut y, mut sum) = (num(e, "y", 5), 0.);
                for (w, k) in want.iter().zip(e.kids.iter()) {
                    check(k.name == "tspan" && k.kids.is_empty(), 7);
                    check(num(k, "x", 5) == a.x, 5);
                    check(same_text(&k.text, w), 7);
                    // the middle of the line
                    if k.attr("y").is_some() {
                        y = num(k, "y", 5);
                    }
                    if let Some(dy) = k.attr("dy") {
                        let size = l.font_size as f64;
                        let d = match dy.strip_suffix("em") {
                            Some(n) => n.parse::<f64>().map(|x| x * size),
                            None => dy.strip_suffix("px").unwrap_or(dy).parse::<f64>(),
                        };
                        check(d.is_ok(), 10);
                        y += d.unwrap();
                    }
                    sum += y;
                    check(e.attr("text-anchor") == Some("middle") && e.attr("dominant-baseline") == Some("middle"), 10);
                    reach(3);
                }
                if !want.is_empty() {
                    let d = sum / want.len() as f64 - a.y;
                    let tol = 1e-9 * (1. + a.y.abs() + want.len() as f64 * l.font_size as f64);
                    check(d.abs() <= tol, 10);
                }
            }
            Arrow(v, d, h, l, t) => {
                check(e.name == "path", 5);
                prop_ok(x);
                colors(e, l, false);
                check(e.attr("stroke-dasharray").is_some() == *d, 6);
                for (k, m) in [("marker-start", h.0), ("marker-end", h.1)] {
                    let r = e.attr(k).and_then(target).and_then(by_id);
                    check(e.attr(k).is_some() == m && r.is_some() == m, 6);
                    check(r.map_or(true, |r| r.name == "marker"), 6);
                }
                // M first C control, control, point, then S control, point
                let spaced: String = e.attr("d").unwrap_or("").chars().map(|c| if c == ',' { ' ' } else { c }).collect();
                let mut want = vec![v[0].0, v[0].1];
                want.extend(v[1..].iter().flat_map(|x| [x.0, x.1]));
                let (mut k, mut letters) = (0, String::new());
                for w in spaced.split_whitespace() {
                    if let Ok(f) = w.parse::<f64>() {
                        check(k < want.len() * 2, 5);
                        check(f == if k % 2 == 0 { want[k / 2].x } else { want[k / 2].y }, 5);
                        k += 1;
                    } else {
                        letters.push_str(w);
                    }
                }
                check(k == want.len() * 2, 5);
                check(letters == format!("MC{}", "S".repeat(v.len() - 2)), 5);
                for p in v {
                    covers(p.0);
                    covers(p.1);
                }
                // the text along the path
                let y = it.next();
                check(y.is_some(), 5);
                let y = y.unwrap().0;
                check(y.name == "text" && y.kids.len() == 1 && y.kids[0].name == "textPath", 5);
                let tp = &y.kids[0];
                font(tp, l);
                check(tp.attr("href").and_then(|x| x.strip_prefix('#')).is_some() && tp.attr("href").unwrap().strip_prefix('#') == e.attr("id"), 3);
                check(same_text(&tp.text, t), 7);
                reach(4);
            }
            Clip(..) => {}
        }
    }
    check(it.next().is_none(), 5);
    reach(1);
}
fn go(calls: Vec<Call>, prop: bool) {
    let mut w = SVGWriter::new();
    for c in &calls {
        draw(&mut w, c, prop);
    }
    let svg = w.finalize();
    observe(svg.len() as u64);
    verify(&svg, &calls, prop)
}
fn look(font: usize) -> StyleAttr {
    StyleAttr::new(Color::new(0x12ab00ff), 3, Some(Color::new(0x80)), 4, font)
}
fn at() -> Point {
    Point::new(10.5, 20.25)
}
/// A text and an arrow with the label.
fn label(t: &str) {
    let p = vec![(at(), at()), (at(), at())];
    go(vec![Text(at(), t.to_string(), look(12)), Arrow(p, false, (false, true), look(12), t.to_string())], false)
}
const F: [f64; 10] = [0., -0.5, 1., 1000000., 0.1, -12345.678, 1e-7, 33.333333333333336, 1e15, 4503599627370497.5];
fn f() -> f64 {
    F[pick(0, 9) as usize]
}
/// Any sequence of draw calls.
fn calls(n: usize) {
    let mut v = vec![];
    let mut clips = 0;
    for i in 0..n {
        let p = Point::new(10. * i as f64 + 3.5, 70. - 20. * i as f64);
        let q = Point::new(40. + i as f64, 22.25);
        let l = StyleAttr::new(Color::new(0x01020300 * i as u32 + 0xff), i, if i % 2 == 0 { Some(Color::new(0xa0b0c0d0)) } else { None }, i, 10 + (i % 2) * 5);
        let t = ["", "a<b>&\"'", "x\ny", "ü"][i % 4].to_string();
        v.push(match pick(0, 9) {
            0 => Rect(p, q, l, None),
            1 => Circle(p, q, l),
            2 => Line(p, q, l),
            3 => Text(p, t, l),
            4 => Text(p, t, look(15)),
            5 => Arrow(vec![(p, q), (q, p)], i % 2 == 0, (false, true), l, t),
            6 => Arrow(vec![(p, q), (q, p), (p, p)], i % 2 == 1, (true, false), l, String::new()),
            7 => {
                clips += 1;
                Clip(p, q, i)
            }
            8 if clips > 0 => Rect(p, q, l, Some(clips - 1)),
            _ if clips > 1 => Rect(p, q, l, Some(0)),
            _ => Arrow(vec![(q, q); 4], false, (i % 2 == 0, i % 2 == 0), l, t),
        });
    }
    go(v, true)
}
/// A drawing of a document.
fn drawing(doc: &str) {
    if verbose() {
        println!("{:?}", doc);
    }
    let g = DotParser::new(doc).process();
    if g.is_err() {
        reach(2);
        return;
    }
    let mut b = GraphBuilder::new();
    b.visit_graph(&g.unwrap());
    let mut w = SVGWriter::new();
    b.get().do_it(flag(), false, false, &mut w);
    let svg = w.finalize();
    let doc = document(&svg);
    if verbose() {
        println!("{}\n{:?}", svg, doc);
    }
    check(doc.is_ok(), 1);
    let root = doc.unwrap();
    let mut all = vec![];
    flat(&root, &mut vec![], &mut all);
    let ids: Vec<&str> = all.iter().filter_map(|x| x.0.attr("id")).collect();
    for (i, x) in ids.iter().enumerate() {
        check(!ids[..i].contains(x), 2);
    }
    for (e, _) in &all {
        for (k, v) in &e.attrs {
            if let Some(t) = target(v).or(if k == "href" { v.strip_prefix('#') } else { None }) {
                check(ids.iter().any(|x| *x == t), 3);
            }
        }
    }
    reach(1);
}
/// A long label with any character at its start, middle or end.
fn long_label() {
    let n = [8, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257][pick(0, 11) as usize];
    let c = ["x", "é", "<", "\n"][pick(0, 3) as usize];
    let at = [0, n / 2, n - 1][pick(0, 2) as usize];
    label(&format!("{}{}{}", c.repeat(at), ascii(1, 0, 127), c.repeat(n - 1 - at)))
}
/// Many calls: fonts, regions and paths of every number.
fn many(n: usize) {
    let mut v = vec![];
    let how = pick(0, 4);
    let odd = pick(0, n as u64 - 1) as usize;
    let clips = how == 1;
    for i in 0..n {
        let p = Point::new(10. * i as f64 + 3.5, 700. - 20. * i as f64);
        let q = Point::new(40. + i as f64, 22.25);
        let l = look(if how == 2 { 14 } else { 10 + i });
        v.push(match if i == odd { 5 } else { how } {
            0 => Text(p, format!("t{}", i), l),
            1 => Clip(p, q, i),
            2 => Arrow(vec![(p, q), (q, p)], i % 2 == 0, (false, true), l, format!("a{}", i)),
            3 => Arrow(vec![(p, q), (q, p)], i % 3 == 0, (i % 2 == 0, true), l, format!("a{}", i)),
            4 => Circle(p, q, l),
            _ => Rect(p, q, l, None),
        });
    }
    if clips {
        // every region is used
        for k in 0..n - 1 {
            v.push(Rect(at(), at(), look(14), Some(k)));
        }
    }
    go(v, true)
}
/// A path of any length.
fn path() {
    let n = pick(2, 24) as usize;
    let v: Vec<(Point, Point)> = (0..n).map(|i| (Point::new(i as f64, 2. * i as f64 + 0.5), Point::new(100. - i as f64, 3.))).collect();
    go(vec![Arrow(v, flag(), (flag(), flag()), look(14), ["", "x"][pick(0, 1) as usize].to_string())], flag())
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    text3 => label(&ascii(3, 0, 127));
    text4 => label(&ascii(4, 0, 127));
    text6 => label(&ascii(6, 0, 127));
    uni3 => label(&text(3));
    uni4 => label(&text(4));
    cdata => label(&format!("]]{}{}", ascii(1, 0, 127), ["", "<![CDATA[", "&amp;", "<!--"][pick(0, 3) as usize]));
    longlabel => long_label();
    many14 => many(14);
    many36 => many(36);
    paths => path();
    calls3 => calls(3);
    calls4 => calls(4);
    calls5 => calls(5);
    numbers => {
        let (p, mut q) = (Point::new(f(), f()), Point::new(f(), f()));
        let k = pick(0, 3);
        if k < 2 {
            q = Point::new(q.x.abs(), q.y.abs()); // a size
        }
        let c = match k {
            0 => Rect(p, q, look(1), None),
            1 => Circle(p, q, look(1)),
            2 => Line(p, q, look(1)),
            _ => Arrow(vec![(p, q), (q, p)], true, (true, true), look(9), String::new()),
        };
        go(vec![c], false)
    };
    fonts => {
        let (a, b) = (int(0, 99999) as usize, int(0, 999) as usize);
        let p = vec![(at(), at()), (at(), at())];
        go(vec![Arrow(p.clone(), false, (false, false), look(a), "x".to_string()), Arrow(p, false, (false, false), look(b), "y".to_string()), Text(at(), "z".to_string(), look(7))], false)
    };
    widths => {
        let l = StyleAttr::new(Color::new(0xff), int(0, 999) as usize, None, int(0, 99) as usize, 14);
        go(vec![Rect(at(), at(), l.clone(), None), Circle(at(), at(), l)], false)
    };
    stroke1 => {
        let c = Color::new(int(0, u32::MAX as u64) as u32);
        let l = if flag() { StyleAttr::new(c, 1, Some(Color::new(0x10203040)), 0, 14) } else { StyleAttr::new(Color::new(0x10203040), 1, Some(c), 0, 14) };
        let p = vec![(at(), at()), (at(), at())];
        go(vec![match pick(0, 3) {
            0 => Rect(at(), at(), l, None),
            1 => Circle(at(), at(), l),
            2 => Line(at(), at(), l),
            _ => Arrow(p, false, (false, false), l, String::new()),
        }], false)
    };
    stroke2 => {
        let l = StyleAttr::new(Color::new(int(0, u32::MAX as u64) as u32), 1, Some(Color::new(int(0, u32::MAX as u64) as u32)), 0, 14);
        let p = vec![(at(), at()), (at(), at())];
        go(vec![match pick(0, 3) {
            0 => Rect(at(), at(), l, None),
            1 => Circle(at(), at(), l),
            2 => Line(at(), at(), l),
            _ => Arrow(p, false, (false, false), l, String::new()),
        }], false)
    };
    docs => {
        let s = ["box", "circle", "record", "Mrecord", "doublecircle"][pick(0, 4) as usize];
        let l = ascii(2, 1, 127);
        drawing(&format!("digraph {{ a [shape={}, label=\"{}\", fontsize={}]; b [shape=Mrecord]; a -> b [label=\"{}\", style=dashed]; b -> a; a -> a }}", s, l, [10, 14][pick(0, 1) as usize], l))
    };
}
