//! C16: the same document always gives the same drawing.
use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
use sym::gr::*;
use sym::*;

/// Any hash function with values below this one.
fn any_hash(n: u64) {
    hash_mode(n)
}
fn svg(text: &str, flags: (bool, bool, bool)) -> String {
    let mut p = DotParser::new(text);
    match p.process() {
        Ok(g) => {
            let mut b = GraphBuilder::new();
            b.visit_graph(&g);
            let mut w = SVGWriter::new();
            b.get().do_it(flags.0, flags.1, flags.2, &mut w);
            w.finalize()
        }
        Err(e) => e,
    }
}
fn svg_of(g: &Graph) -> String {
    let mut w = SVGWriter::new();
    g.draw(&mut w);
    w.finalize()
}
fn compare(a: &str, b: &str) {
    if verbose() {
        println!("{}\n----\n{}", a, b);
    }
    observe_bytes(a.as_bytes());
    check(a.as_bytes() == b.as_bytes(), 1);
    reach(1);
}
/// Draws the text with the real hash function and with any other one.
fn two(text: &str, n: u64, flags: (bool, bool, bool)) {
    if verbose() {
        println!("{}", text);
    }
    let a = svg(text, flags);
    any_hash(n);
    let b = svg(text, flags);
    hash_mode(0);
    compare(&a, &b);
}

const NODE: [(&str, &str); 9] = [
    ("shape", "box"),
    ("shape", "record"),
    ("label", "x|y"),
    ("color", "red"),
    ("fillcolor", "blue"),
    ("style", "filled"),
    ("fontsize", "20"),
    ("width", "3"),
    ("shape", "Mrecord"),
];
const EDGE: [(&str, &str); 5] = [("label", "e"), ("color", "green"), ("style", "dashed"), ("penwidth", "4"), ("fontsize", "9")];

fn some(l: &[(&str, &str)], n: usize) -> String {
    let v: Vec<String> = (0..n)
        .map(|_| {
            let x = l[pick(0, l.len() as u64 - 1) as usize];
            format!("{}=\"{}\"", x.0, x.1)
        })
        .collect();
    format!("[{}]", v.join(","))
}

/// A node with attributes of its own and two layers of defaults.
fn node_with(n: usize) {
    let l = match pick(0, n as u64 - 1) {
        0 => format!("digraph {{ a{} }}", some(&NODE, n)),
        1 => format!("digraph {{ node{} a{} }}", some(&NODE, n - 1), some(&NODE, 1)),
        _ => format!("digraph {{ node{} {{ node{} a{} }} }}", some(&NODE, 1), some(&NODE, 1), some(&NODE, 1)),
    };
    two(&l, 2, (false, true, false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn node_attrs() {
    node_with(3)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn node_attrs2() {
    node_with(2)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn edge_attrs() {
    let l = match pick(0, 2) {
        0 => format!("digraph {{ a->a{} }}", some(&EDGE, 3)),
        1 => format!("digraph {{ edge{} a->a{} }}", some(&EDGE, 2), some(&EDGE, 1)),
        _ => format!("digraph {{ edge{} {{ edge{} a->a{} }} }}", some(&EDGE, 1), some(&EDGE, 1), some(&EDGE, 1)),
    };
    two(&l, 2, (false, true, false));
}
/// Several attributes of the drawing.
#[no_mangle]
#[inline(never)]
pub extern "C" fn graph_attrs() {
    const GRAPH: [(&str, &str); 4] = [("rankdir", "LR"), ("rankdir", "TB"), ("size", "3"), ("label", "g")];
    let l = match pick(0, 2) {
        0 => format!("digraph {{ graph{} a->b }}", some(&GRAPH, 3)),
        1 => format!("digraph {{ graph{} a->b graph{} }}", some(&GRAPH, 1), some(&GRAPH, 2)),
        _ => format!("digraph {{ graph{} {{ graph{} a->b }} graph{} }}", some(&GRAPH, 1), some(&GRAPH, 1), some(&GRAPH, 1)),
    };
    two(&l, 2, (false, true, false));
}
/// Attributes which may be understood one day, each with two values.
const WIDE: [(&str, &str, &str); 27] = [
    ("shape", "box", "doublecircle"),
    ("label", "x", "y|z"),
    ("xlabel", "q", "r"),
    ("color", "red", "blue"),
    ("pencolor", "red", "green"),
    ("fillcolor", "yellow", "pink"),
    ("bgcolor", "gray", "tan"),
    ("fontcolor", "navy", "teal"),
    ("style", "filled", "dashed"),
    ("style", "rounded", "dotted"),
    ("style", "bold", "invis"),
    ("fontsize", "20", "9"),
    ("width", "3", "5"),
    ("height", "4", "6"),
    ("penwidth", "7", "2"),
    ("dir", "back", "both"),
    ("arrowhead", "none", "normal"),
    ("arrowtail", "normal", "none"),
    ("headport", "n", "s"),
    ("tailport", "e", "w"),
    ("headlabel", "h", "k"),
    ("taillabel", "t", "u"),
    ("weight", "8", "0"),
    ("rankdir", "LR", "TB"),
    ("rank", "same", "min"),
    ("constraint", "false", "true"),
    ("peripheries", "2", "1"),
];
/// Two attributes, of which one may take the place of the other.
fn wide(kind: u64) {
    let x = WIDE[pick(0, 26) as usize];
    let y = WIDE[pick(0, 26) as usize];
    let l = format!("{}=\"{}\",{}=\"{}\"", x.0, x.1, y.0, y.2);
    let t = match kind {
        0 => format!("digraph {{ a[{}] a->b }}", l),
        1 => format!("digraph {{ a->b[{}] }}", l),
        _ => format!("digraph {{ graph[{}] a->b }}", l),
    };
    // One of the two texts has the attributes in the other order than the real hash function.
    two(&t, 1, (false, true, false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn wide_node() {
    wide(0)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn wide_edge() {
    wide(1)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn wide_graph() {
    wide(2)
}
/// Nodes that are found in any order by name.
fn names(n: u64, m: usize, values: u64) {
    let mut t = String::from("digraph {");
    for _ in 0..m {
        let x = (b'a' + pick(0, n - 1) as u8) as char;
        let y = (b'a' + pick(0, n - 1) as u8) as char;
        t.push_str(&format!(" {}->{};", x, y));
    }
    t.push_str(" }");
    two(&t, values, (false, flag(), false));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn names33() {
    names(3, 3, 2)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn names44() {
    names(4, 4, 2)
}
/// Graphs without texts: the sets of the layout itself.
fn topology(n: usize, m: usize, values: u64, proper: bool) {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, BOX, w, h));
    }
    for i in 0..m {
        let a = if i == 0 && proper { 0 } else { pick(0, n as u64 - 1) };
        let mut b = pick(0, n as u64 - 1 - proper as u64);
        if proper && b >= a {
            b += 1;
        }
        g.edges.push(edge(i, a as usize, b as usize, ""));
    }
    let a = svg_of(&g);
    any_hash(values);
    let b = svg_of(&g);
    hash_mode(0);
    compare(&a, &b);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout33() {
    topology(3, 3, 3, false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout44() {
    topology(4, 4, 2, true)
}
/// All hash values are the same: the sets are then in the order of insertion.
#[no_mangle]
#[inline(never)]
pub extern "C" fn same45() {
    topology(4, 5, 1, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn same54() {
    topology(5, 4, 1, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn same44() {
    topology(4, 4, 1, true)
}
/// Several font sizes, shapes and clipped parts in one drawing.
#[no_mangle]
#[inline(never)]
pub extern "C" fn fonts() {
    let mut g = graph(flag());
    for i in 0..3 {
        let mut n = node(i, pick(0, 3) as u8, 60.0, 50.0);
        n.look.font_size = [9, 14, 30][pick(0, 2) as usize];
        g.nodes.push(n);
    }
    let mut e = edge(0, 0, 1, "label");
    e.look.font_size = [9, 14, 31][pick(0, 2) as usize];
    g.edges.push(e);
    let a = svg_of(&g);
    any_hash(2);
    let b = svg_of(&g);
    hash_mode(0);
    compare(&a, &b);
}
fn some_graph(n: usize, m: usize) -> Graph {
    let mut g = graph(flag());
    for i in 0..n {
        let (w, h) = some_size(i);
        let mut x = node(i, [BOX, CIRCLE, RECORD, DOUBLE][i % 4], w, h);
        x.look.font_size += i;
        g.nodes.push(x);
    }
    g.any_edges(m, "l");
    g
}
/// Something else is drawn first, and the memory is in another state.
fn after(n: usize, m: usize, k: usize, l: usize) {
    let a = some_graph(n, m);
    let b = some_graph(k, l);
    let x = svg_of(&a);
    let mut keep: Vec<Vec<u8>> = vec![];
    for i in 0..40 {
        keep.push(vec![1; (i * 37) % 300 + 1]);
    }
    keep.retain(|x| x.len() % 3 != 0);
    let _ = svg_of(&b);
    let y = svg_of(&a);
    compare(&x, &y);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn after2122() {
    after(2, 1, 2, 2)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn after3211() {
    after(3, 2, 1, 1)
}
/// One graph that is laid out twice, by two builders from one tree, and from one builder.
#[no_mangle]
#[inline(never)]
pub extern "C" fn builders() {
    let mut t = String::from(if flag() { "digraph { rankdir=LR;" } else { "digraph {" });
    for _ in 0..3 {
        t.push_str(&format!(" {} -> {} [label=\"{}\"];", (b'a' + pick(0, 2) as u8) as char, (b'a' + pick(0, 2) as u8) as char, ["", "x"][pick(0, 1) as usize]));
    }
    t.push('}');
    let mut p = DotParser::new(&t);
    let g = p.process().unwrap();
    let draw = |b: &GraphBuilder| {
        let mut w = SVGWriter::new();
        b.get().do_it(false, false, false, &mut w);
        w.finalize()
    };
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let x = draw(&b);
    let y = draw(&b);
    compare(&x, &y);
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let y = draw(&b);
    compare(&x, &y);
}
/// Reading a text twice, with another text in between.
fn texts(n: usize) {
    let s = text(n);
    let read = |s: &str| {
        let mut p = DotParser::new(s);
        match p.process() {
            Ok(g) => format!("{:?}", g),
            Err(e) => e,
        }
    };
    let a = read(&s);
    let _ = read("digraph { a -> b [x=y]; subgraph c { d } }");
    let b = read(&s);
    check(a.as_bytes() == b.as_bytes(), 2);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn text3() {
    texts(3)
}
entries!(node_attrs, node_attrs2, same44, edge_attrs, graph_attrs, names33, names44, layout33, layout44, same45, same54, fonts, after2122, after3211, builders, text3, wide_node, wide_edge, wide_graph);
