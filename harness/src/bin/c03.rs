//! C03: attributes and defaults reach exactly the nodes and edges they apply to.
use layout::core::color::Color;
use layout::core::geometry::Point;
use layout::gv::{DotParser, GraphBuilder};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use sym::gr::raw;
use sym::rec::*;
use sym::*;

type Attrs = Vec<(String, String)>;
fn get<'a>(l: &'a Attrs, k: &str) -> Option<&'a String> {
    l.iter().rev().find(|x| x.0 == k).map(|x| &x.1)
}
/// The meaning of a document, kept while its text is written.
#[derive(Default)]
struct Doc {
    text: String,
    graph_env: Vec<Attrs>,
    node_env: Vec<Attrs>,
    edge_env: Vec<Attrs>,
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(usize, usize, bool, Attrs)>,
    directed: bool,
}
fn list(l: &[(&str, &str)]) -> String {
    let v: Vec<String> = l.iter().map(|x| format!("{}=\"{}\"", x.0, x.1)).collect();
    if v.is_empty() {
        String::new()
    } else {
        format!(" [{}]", v.join(", "))
    }
}
fn own(l: &[(&str, &str)]) -> Attrs {
    l.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect()
}
impl Doc {
    fn new(directed: bool) -> Doc {
        Doc {
            text: (if directed { "digraph g {" } else { "graph g {" }).to_string(),
            graph_env: vec![vec![]],
            node_env: vec![vec![]],
            edge_env: vec![vec![]],
            directed,
            ..Default::default()
        }
    }
    fn mention(&mut self, n: &str) -> usize {
        if let Some(i) = self.nodes.iter().position(|x| x.0 == n) {
            return i;
        }
        // the innermost setting is the last one
        let l: Attrs = self.node_env.iter().flatten().cloned().collect();
        self.nodes.push((n.to_string(), l));
        self.nodes.len() - 1
    }
    fn node(&mut self, n: &str, l: &[(&str, &str)]) {
        self.text.push_str(&format!(" {}{};", n, list(l)));
        let i = self.mention(n);
        self.nodes[i].1.extend(own(l));
    }
    fn edge(&mut self, path: &[&str], l: &[(&str, &str)]) {
        let op = if self.directed { " -> " } else { " -- " };
        self.text.push_str(&format!(" {}{};", path.join(op), list(l)));
        let mut e: Attrs = self.edge_env.iter().flatten().cloned().collect();
        e.extend(own(l));
        let ids: Vec<usize> = path.iter().map(|x| self.mention(x)).collect();
        for w in ids.windows(2) {
            self.edges.push((w[0], w[1], self.directed, e.clone()));
        }
    }
    fn default(&mut self, kind: &str, l: &[(&str, &str)]) {
        self.text.push_str(&format!(" {}{};", kind, list(l)));
        let env = match kind {
            "graph" => &mut self.graph_env,
            "node" => &mut self.node_env,
            _ => &mut self.edge_env,
        };
        env.last_mut().unwrap().extend(own(l));
    }
    fn set(&mut self, k: &str, v: &str) {
        self.text.push_str(&format!(" {} = \"{}\";", k, v));
        self.graph_env.last_mut().unwrap().push((k.to_string(), v.to_string()));
    }
    fn open(&mut self, name: &str) {
        self.text.push_str(&format!(" {} {{", name));
        self.graph_env.push(vec![]);
        self.node_env.push(vec![]);
        self.edge_env.push(vec![]);
    }
    fn close(&mut self) {
        if self.node_env.len() > 1 {
            self.text.push_str(" }");
            self.graph_env.pop();
            self.node_env.pop();
            self.edge_env.pop();
        }
    }
    fn end(&mut self) {
        while self.node_env.len() > 1 {
            self.close();
        }
        self.text.push_str(" }");
    }
    fn build(&mut self) -> VisualGraph {
        self.end();
        if verbose() {
            println!("{}", self.text);
            for n in &self.nodes {
                println!("node {:?}", n);
            }
            for n in &self.edges {
                println!("edge {:?}", n);
            }
        }
        let g = DotParser::new(&self.text).process();
        check(g.is_ok(), 1);
        let mut b = GraphBuilder::new();
        b.visit_graph(&g.unwrap());
        b.get()
    }
}

/// The value of a text that is a number.
fn number(s: Option<&String>, other: usize) -> usize {
    if let Some(s) = s {
        let b = s.as_bytes();
        let at = if !b.is_empty() && b[0] == b'+' { 1 } else { 0 };
        let mut v = 0usize;
        for c in &b[at..] {
            if *c < b'0' || *c > b'9' {
                return other;
            }
            v = v * 10 + (*c - b'0') as usize;
        }
        if b.len() > at {
            return v;
        }
    }
    other
}
fn color(s: &str) -> u32 {
    let end = s.find(':').unwrap_or(s.len());
    let s = &s[..end];
    raw(&Color::fast(if s == "transparent" { "white" } else { s }))
}
/// The kind of a shape: its name and its label
fn shape(e: &Element) -> (&'static str, String) {
    match &e.shape {
        ShapeKind::Box(t) => ("box", t.clone()),
        ShapeKind::Circle(t) => ("circle", t.clone()),
        ShapeKind::DoubleCircle(t) => ("doublecircle", t.clone()),
        ShapeKind::Record(RecordDef::Array(l)) if l.len() == 1 => match &l[0] {
            RecordDef::Text(t, None) => ("record", t.clone()),
            _ => ("other record", String::new()),
        },
        ShapeKind::Record(RecordDef::Text(t, None)) => ("record", t.clone()),
        _ => ("other", String::new()),
    }
}
fn check_nodes(d: &Doc, vg: &VisualGraph) {
    let hs: Vec<_> = vg.iter_nodes().collect();
    check(hs.len() == d.nodes.len(), 2);
    for (i, (name, l)) in d.nodes.iter().enumerate() {
        let e = vg.element(hs[i]);
        let (kind, label) = shape(e);
        let want = match get(l, "shape").map(|x| x.as_str()) {
            Some("box") => "box",
            Some("doublecircle") => "doublecircle",
            Some("record") | Some("Mrecord") => "record",
            _ => "circle",
        };
        if verbose() {
            println!("{} is {:?}", name, e);
        }
        check(kind == want, 3);
        let wl = get(l, "label").unwrap_or(name);
        check(if kind == "record" { label == wl.trim() } else { label == *wl }, 4);
        check(raw(&e.look.line_color) == color(get(l, "color").map_or("black", |x| x)), 5);
        let fill = match get(l, "fillcolor") {
            Some(x) => x,
            None => match get(l, "style") {
                Some(x) if x == "filled" => "lightgray",
                _ => "white",
            },
        };
        check(e.look.fill_color.as_ref().map(raw) == Some(color(fill)), 6);
        check(e.look.font_size == number(get(l, "fontsize"), 14), 7);
        check(e.look.line_width == number(get(l, "width"), 1), 8);
        check((e.look.rounded > 0) == (get(l, "shape").map(|x| x.as_str()) == Some("Mrecord")), 9);
    }
    reach(1);
}
/// Draws the graph, and finds every edge.
fn check_edges(d: &Doc, mut vg: VisualGraph) {
    let mut r = Rec::new();
    let hs: Vec<_> = vg.iter_nodes().collect();
    vg.do_it(false, false, false, &mut r);
    let boxes: Vec<(Point, Point)> = hs.iter().take(d.nodes.len()).map(|h| vg.pos(*h).bbox(false)).collect();
    let find = |p: Point| boxes.iter().position(|b| p.x > b.0.x - 1e-6 && p.x < b.1.x + 1e-6 && p.y > b.0.y - 1e-6 && p.y < b.1.y + 1e-6);
    let mut got: Vec<Option<(usize, usize, DrawnArrow)>> = vec![];
    for a in &r.arrows {
        let (p, q) = (find(a.path[0].0), find(a.path[a.path.len() - 1].1));
        if verbose() {
            println!("arrow {:?} -> {:?} heads {:?} dashed {} {:?}", p, q, a.head, a.dashed, a.look);
        }
        check(p.is_some() && q.is_some(), 10);
        got.push(Some((p.unwrap(), q.unwrap(), a.clone())));
    }
    check(got.len() == d.edges.len(), 11);
    let mut labels = vec![];
    for (a, b, arrow, l) in &d.edges {
        let dashed = get(l, "style").map_or(false, |x| x == "dashed");
        let line = color(get(l, "color").map_or("black", |x| x));
        let width = number(get(l, "penwidth"), 1);
        let font = number(get(l, "fontsize"), 14);
        let label = get(l, "label").cloned().unwrap_or_default();
        let found = got.iter().position(|x| match x {
            None => false,
            Some((p, q, x)) => {
                let ends = (p == a && q == b && x.head == (false, *arrow)) || (p == b && q == a && x.head == (*arrow, false));
                ends && x.dashed == dashed && raw(&x.look.line_color) == line && x.look.line_width == width && x.look.font_size == font && x.look.fill_color.is_none()
            }
        });
        check(found.is_some(), 12);
        got[found.unwrap()] = None;
        if !label.is_empty() {
            labels.push((label, font, width, line));
            reach(3);
        }
        reach(2);
    }
    // the other texts are the labels of the edges
    let mut ts: Vec<Option<DrawnText>> = r.texts.iter().skip(d.nodes.len()).map(|x| Some(x.clone())).collect();
    check(ts.len() == labels.len(), 13);
    for (label, font, width, line) in &labels {
        let f = ts.iter().position(|x| x.as_ref().map_or(false, |x| x.text == *label && x.look.font_size == *font && x.look.line_width == *width && raw(&x.look.line_color) == *line));
        check(f.is_some(), 13);
        ts[f.unwrap()] = None;
    }
}
fn check_dir(d: &Doc, vg: &VisualGraph) {
    let lr = get(&d.graph_env[0], "rankdir").map_or(false, |x| x == "LR");
    check(vg.orientation().is_left_right() == lr, 14);
    if lr {
        reach(4);
    }
}
fn done(mut d: Doc, draw: bool) {
    let vg = d.build();
    check_dir(&d, &vg);
    check_nodes(&d, &vg);
    if draw {
        check_edges(&d, vg);
    }
    observe(d.nodes.len() as u64 * 100 + d.edges.len() as u64);
}

const NAMES: [&str; 3] = ["a", "b", "c"];
/// Any n statements about nodes.
fn nodes(n: usize) {
    let mut d = Doc::new(true);
    for i in 0..n {
        let v = format!("{}", i + 2);
        match pick(0, 8) {
            0 => d.node("a", &[]),
            1 => d.node("b", &[]),
            2 => d.node("a", &[("width", &v)]),
            3 => d.node("b", &[("fontsize", &v)]),
            4 => d.default("node", &[("width", &v)]),
            5 => d.default("node", &[("fontsize", &v), ("shape", "box")]),
            6 => d.open(""),
            7 => d.close(),
            _ => d.edge(&["b", "a"], &[("width", "99"), ("fontsize", "98")]),
        }
    }
    done(d, false)
}
/// Any n statements about edges.
fn edges(n: usize) {
    let mut d = Doc::new(pick(0, 1) == 1);
    for i in 0..n {
        let v = format!("{}", i + 2);
        match pick(0, 9) {
            0 => d.edge(&["a", "b"], &[]),
            1 => d.edge(&["b", "a"], &[("penwidth", &v)]),
            2 => d.edge(&["a", "b", "c"], &[]),
            3 => d.edge(&["a", "c", "a"], &[("style", "dashed"), ("penwidth", &v)]),
            4 => d.default("edge", &[("penwidth", &v)]),
            5 => d.default("edge", &[("style", ["dashed", "solid"][i % 2])]),
            6 => d.open("subgraph"),
            7 => d.close(),
            8 => d.default("node", &[("penwidth", &v), ("style", "dashed")]),
            _ => d.default("graph", &[("penwidth", &v), ("color", "red")]),
        }
    }
    done(d, true)
}
/// Any n statements.
fn mixed(n: usize) {
    let mut d = Doc::new(true);
    for i in 0..n {
        let v = format!("{}", i + 2);
        let c = ["red", "#123456", "green", "blue", "#00112233"][i % 5];
        match pick(0, 11) {
            0 => d.node("a", &[("color", c)]),
            1 => d.node("c", &[]),
            2 => d.edge(&["b", "a"], &[]),
            3 => d.edge(&["c", "a"], &[("color", c), ("label", "x")]),
            4 => d.default("edge", &[("color", c), ("fontsize", &v)]),
            5 => d.default("edge", &[("label", "def")]),
            6 => d.default("node", &[("color", c), ("fontsize", &v)]),
            7 => d.default("node", &[("shape", ["box", "record", "doublecircle", "Mrecord", "circle"][i % 5]), ("label", "def")]),
            8 => d.open("subgraph s"),
            9 => d.open(""),
            10 => d.close(),
            _ => d.set("rankdir", ["LR", "LR", "TB", "LR", "TB"][i % 5]),
        }
    }
    done(d, true)
}
/// The direction of the graph.
fn dirs(n: usize) {
    let mut d = Doc::new(flag());
    for _ in 0..n {
        match pick(0, 6) {
            0 => d.set("rankdir", "LR"),
            1 => d.set("rankdir", "TB"),
            2 => d.default("graph", &[("rankdir", "LR")]),
            3 => d.default("graph", &[("rankdir", "RL"), ("x", "LR")]),
            4 => d.open("subgraph"),
            5 => d.close(),
            _ => d.default("node", &[("rankdir", "LR")]),
        }
    }
    done(d, false)
}
/// One character of the text may be any other one.
fn around(s: &str) -> String {
    let at = pick(0, s.len() as u64) as usize;
    let mut r = String::from(&s[..at]);
    if at < s.len() {
        let c = ascii(1, 1, 127);
        assume(c != "\"");
        assume(c != "\\");
        r.push_str(&c);
        r.push_str(&s[at + 1..]);
    }
    r
}
fn any(n: usize) -> String {
    let s = ascii(n, 1, 127);
    for c in s.bytes() {
        assume(c != b'"');
        assume(c != b'\\');
    }
    s
}
const COLORS: [&str; 9] = ["red", "blue:red", "#ff8000", "#ff800080", "transparent", "transparent:red", ":red", "nocolor", ""];
fn some_color() -> String {
    let c = COLORS[pick(0, 8) as usize];
    if flag() {
        around(c)
    } else {
        c.to_string()
    }
}
const SHAPES: [&str; 7] = ["box", "circle", "doublecircle", "record", "Mrecord", "ellipse", ""];
fn node_value() {
    let mut d = Doc::new(true);
    let k = ["label", "shape", "color", "fillcolor", "style", "fontsize", "width", "penwidth", "bgcolor"][pick(0, 8) as usize];
    let v = match k {
        "label" => any(2),
        "shape" => around(SHAPES[pick(0, 6) as usize]),
        "color" | "fillcolor" => some_color(),
        "style" => around(["filled", "dashed", ""][pick(0, 2) as usize]),
        _ => any(2),
    };
    match pick(0, 2) {
        0 => d.node("a", &[(k, &v)]),
        1 => {
            d.default("node", &[(k, &v)]);
            d.node("a", &[])
        }
        _ => {
            d.node("a", &[(k, "12")]);
            d.node("a", &[(k, &v)]);
            d.node("b", &[]);
        }
    }
    done(d, false)
}
fn edge_value() {
    let mut d = Doc::new(flag());
    let k = ["label", "color", "style", "fontsize", "penwidth", "width", "fillcolor"][pick(0, 6) as usize];
    let v = match k {
        "label" => any(2),
        "color" | "fillcolor" => some_color(),
        "style" => around(["filled", "dashed", "dotted", ""][pick(0, 3) as usize]),
        _ => any(2),
    };
    d.node("a", &[]);
    d.node("b", &[]);
    match pick(0, 2) {
        0 => d.edge(&["a", "b"], &[(k, &v)]),
        1 => {
            d.default("edge", &[(k, &v)]);
            d.edge(&["a", "b"], &[])
        }
        _ => {
            d.edge(&["b", "a"], &[(k, "12"), (k, &v)]);
            d.edge(&["a", "b"], &[]);
        }
    }
    done(d, true)
}
/// All attributes of a node together.
fn node_all() {
    let mut d = Doc::new(true);
    let shape = SHAPES[pick(0, 6) as usize];
    let fill = ["", "red", "transparent", "zz"][pick(0, 3) as usize];
    let style = ["", "filled", "dashed"][pick(0, 2) as usize];
    let color = ["", "blue"][pick(0, 1) as usize];
    let font = ascii(2, b'0', b'9');
    let width = ascii(2, b'0', b'9');
    let label = ["", "text", "two\nlines"][pick(0, 2) as usize];
    let mut l: Vec<(&str, &str)> = vec![];
    for (k, v) in [("label", label), ("shape", shape), ("fillcolor", fill), ("style", style), ("color", color), ("fontsize", &font), ("width", &width)] {
        if !v.is_empty() {
            l.push((k, v));
        }
    }
    d.node(NAMES[pick(0, 2) as usize], &l);
    done(d, false)
}
/// Names of nodes: the same name is the same node, other names are others.
fn names() {
    hash_mode(1);
    let mut d = Doc::new(true);
    let quote = |s: &str| format!("\"{}\"", s);
    let (a, b) = (any(1 + flag() as usize), any(1));
    let (qa, qb) = (quote(&a), quote(&b));
    // the model compares the names with their quotes
    d.node(&qa, &[("width", "5"), ("label", "l")]);
    d.node(&qb, &[("fontsize", "6"), ("label", "l")]);
    d.edge(&[&qb, &qa], &[]);
    done(d, false)
}
/// What a node says is drawn.
fn drawn() {
    let mut d = Doc::new(true);
    let lr = flag();
    if lr {
        d.set("rankdir", "LR");
    }
    let s: Vec<&str> = (0..2).map(|_| SHAPES[pick(0, 4) as usize]).collect();
    let c = ["red", "#01020304"];
    for i in 0..2 {
        d.node(NAMES[i], &[("shape", s[i]), ("color", c[i]), ("fillcolor", c[1 - i]), ("fontsize", ["10", "20"][i]), ("width", ["3", "4"][i])]);
    }
    let (a, b) = (pick(0, 1) as usize, pick(0, 1) as usize);
    d.edge(&[NAMES[a], NAMES[b]], &[("label", "lab")]);
    let mut vg = d.build();
    let mut r = Rec::new();
    vg.do_it(false, false, false, &mut r);
    for i in 0..2 {
        let t: Vec<&DrawnText> = r.texts.iter().filter(|x| x.text == NAMES[i]).collect();
        check(t.len() == 1, 15);
        let t = t[0];
        check(t.look.font_size == [10, 20][i], 15);
        let v: Vec<&DrawnBox> = r.rects.iter().filter(|x| x.look.line_width == 3 + i).collect();
        let w: Vec<&DrawnBox> = r.circles.iter().filter(|x| x.look.line_width == 3 + i).collect();
        let (nv, nw) = match s[i] {
            "box" => (1, 0),
            "circle" => (0, 1),
            "doublecircle" => (0, 2),
            _ => (3, 0),
        };
        check(v.len() == nv && w.len() == nw, 15);
        let mut filled = 0;
        for x in v.iter().chain(w.iter()) {
            check(raw(&x.look.line_color) == color(c[i]), 15);
            if let Some(f) = &x.look.fill_color {
                check(raw(f) == color(c[1 - i]), 15);
                filled += 1;
            }
        }
        check(filled > 0, 15);
        check(v.iter().any(|x| x.look.rounded > 0) == (s[i] == "Mrecord"), 15);
    }
    reach(1);
}
/// Defaults and mentions at any depth.
fn deep(levels: usize, kind: usize) {
    let mut d = Doc::new(true);
    let (k, k2) = (pick(0, levels as u64) as usize, pick(0, levels as u64) as usize);
    let m = pick(0, levels as u64) as usize;
    for i in 0..=levels {
        for (at, v) in [(k, "7"), (k2, "8")] {
            if at == i {
                match kind {
                    0 => d.default("node", &[("width", v), ("shape", "box")]),
                    1 => d.default("edge", &[("penwidth", v), ("style", "dashed")]),
                    _ => {
                        d.set("rankdir", if v == "7" { "LR" } else { "TB" });
                        d.default("node", &[("fontsize", v)]);
                    }
                }
            }
        }
        if i < levels {
            d.open(["", "subgraph", "subgraph s"][i % 3]);
        }
    }
    d.edge(&["p", "q"], &[]);
    for _ in m..levels {
        d.close();
    }
    d.edge(&["q", "a", "b"], &[]);
    d.node("c", &[("color", "red")]);
    while d.node_env.len() > 1 {
        d.close();
    }
    d.edge(&["e", "c"], &[]);
    done(d, kind == 1)
}
/// Many nodes and edges, with a default somewhere on the way.
fn many(n: usize) {
    let mut d = Doc::new(true);
    let names: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    let at = pick(0, n as u64 - 1) as usize;
    let back = pick(0, n as u64 - 1) as usize;
    let block = flag();
    for i in 0..n {
        if i == at {
            if block {
                d.open("");
            }
            d.default("node", &[("width", "5"), ("label", "def")]);
            d.default("edge", &[("penwidth", "5")]);
        }
        let v = format!("{}", 20 + i);
        match i % 3 {
            0 => d.node(&names[i], &[("fontsize", &v)]),
            1 => d.edge(&[&names[i], &names[back]], &[("color", "red")]),
            _ => d.node(&names[i], &[]),
        }
        if block && i == at + 3 {
            d.close();
        }
    }
    d.node(&names[back], &[("color", "blue")]);
    done(d, false)
}
/// A long chain, and one node that is in it again.
fn chain(n: usize) {
    let mut d = Doc::new(flag());
    let mut names: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    let (i, j) = (pick(0, n as u64 - 1) as usize, pick(0, n as u64 - 1) as usize);
    names[i] = names[j].clone();
    if flag() {
        d.default("edge", &[("penwidth", "6")]);
    }
    let l: Vec<&str> = names.iter().map(|x| &x[..]).collect();
    d.edge(&l, &[("fontsize", "9")]);
    done(d, true)
}
/// A node or an edge that says many things, some of them again.
fn long_list(edge: bool) {
    let mut d = Doc::new(true);
    let keys = ["label", "color", "fontsize", "style", "width", "penwidth", "fillcolor", "shape", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"];
    let again = pick(0, 16) as usize;
    let place = pick(0, 17) as usize;
    let value = |i: usize, c: usize| match keys[i] {
        "label" => ["one", "two"][c].to_string(),
        "color" | "fillcolor" => ["red", "blue"][c].to_string(),
        "style" => [if edge { "dashed" } else { "filled" }, "solid"][c].to_string(),
        "shape" => ["box", "Mrecord"][c].to_string(),
        _ => format!("{}", 10 + i + 30 * c),
    };
    let mut l: Vec<(&str, String)> = vec![];
    for i in 0..17 {
        if place == i {
            l.push((keys[again], value(again, 1)));
        }
        l.push((keys[i], value(i, 0)));
    }
    if place == 17 {
        l.push((keys[again], value(again, 1)));
    }
    let l: Vec<(&str, &str)> = l.iter().map(|x| (x.0, &x.1[..])).collect();
    let way = pick(0, 2);
    match (edge, way) {
        (false, 0) => d.node("a", &l),
        (false, 1) => d.default("node", &l),
        (false, _) => {
            for x in &l {
                d.node("a", &[*x]);
            }
        }
        (true, 0) => d.edge(&["a", "b"], &l),
        (true, 1) => d.default("edge", &l),
        (true, _) => {
            for x in &l {
                d.default("edge", &[*x]);
            }
        }
    }
    d.edge(&["a", "b"], &[]);
    done(d, edge)
}
/// Numbers of any length.
fn digits(n: usize) {
    let mut d = Doc::new(true);
    let v = ascii(n, b'0', b'9');
    let f = format!("{}", [0, 7, 99, 100, 127, 128, 255, 256, 999, 1000, 4096, 65535, 65536][pick(0, 12) as usize]);
    match pick(0, 3) {
        0 => d.node("a", &[("width", &v)]),
        1 => d.node("a", &[("fontsize", &f)]),
        2 => d.edge(&["a", "b"], &[("penwidth", &v)]),
        _ => d.edge(&["a", "b"], &[("fontsize", &f)]),
    }
    let k = d.edges.len() > 0;
    done(d, k)
}
/// Two names that differ in one character of many.
fn long_names(n: usize) {
    hash_mode(1);
    let mut d = Doc::new(true);
    let mut a: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let b = String::from_utf8(a.clone()).unwrap();
    let at = pick(0, n as u64 - 1) as usize;
    a[at] = any(1).as_bytes()[0];
    let a = String::from_utf8(a).unwrap();
    let (qa, qb) = (format!("\"{}\"", a), format!("\"{}\"", b));
    d.node(&qa, &[("width", "5"), ("label", "l")]);
    d.node(&qb, &[("fontsize", "6"), ("label", "l")]);
    d.edge(&[&qb, &qa], &[]);
    done(d, false)
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    nodes5 => nodes(5);
    nodes6 => nodes(6);
    edges4 => edges(4);
    edges5 => edges(5);
    mixed4 => mixed(4);
    mixed5 => mixed(5);
    dirs5 => dirs(5);
    dirs6 => dirs(6);
    nodeval => node_value();
    edgeval => edge_value();
    nodeall => node_all();
    named => names();
    look => drawn();
    deepnode => deep(13, 0);
    deepedge => deep(13, 1);
    deepdir => deep(13, 2);
    many36 => many(36);
    chain16 => chain(16);
    longnode => long_list(false);
    longedge => long_list(true);
    digits5 => digits(1 + pick(0, 4) as usize);
    longname => long_names([9, 17, 33, 70][pick(0, 3) as usize]);
}
