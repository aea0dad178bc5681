//! Graphs that are built through the programming interface.
use crate::*;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::*;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;

pub fn raw(c: &Color) -> u32 {
    assert!(std::mem::size_of::<Color>() == 4);
    unsafe { std::mem::transmute_copy(c) }
}
pub fn same_look(a: &StyleAttr, b: &StyleAttr, fill: bool) -> bool {
    let f = |x: &StyleAttr| x.fill_color.as_ref().map(raw);
    let fl = match (f(a), f(b)) {
        (Some(x), Some(y)) => x == y,
        (None, None) => true,
        _ => false,
    };
    (raw(&a.line_color) == raw(&b.line_color)) & (a.line_width == b.line_width) & (a.font_size == b.font_size) & (!fill || fl)
}

pub const BOX: u8 = 0;
pub const CIRCLE: u8 = 1;
pub const DOUBLE: u8 = 2;
pub const RECORD: u8 = 3;
pub const NONE: u8 = 4;

#[derive(Clone)]
pub struct Node {
    pub kind: u8,
    pub w: f64,
    pub h: f64,
    pub label: String,
    pub look: StyleAttr,
    pub props: Option<String>,
}
#[derive(Clone)]
pub struct Edge {
    pub a: usize,
    pub b: usize,
    pub label: String,
    pub heads: (bool, bool),
    pub style: u8, // 0 normal, 1 dashed, 2 dotted, 3 none
    pub look: StyleAttr,
    pub props: Option<String>,
    pub ports: (Option<String>, Option<String>),
}
#[derive(Clone)]
pub struct Graph {
    pub ltr: bool,
    pub nodes: Vec<Node>,
    pub edges: Vec<Edge>,
    pub no_opt: bool,
    pub no_layout: bool,
    pub debug: bool,
}
pub fn look(width: usize) -> StyleAttr {
    StyleAttr::new(Color::new(0x102030ff + width as u32 * 256), width, Some(Color::new(0xf0ff)), 0, 15)
}
/// Nodes are told apart by a line width of 100 and more, edges by 200 and more.
pub fn node(i: usize, kind: u8, w: f64, h: f64) -> Node {
    Node { kind, w, h, label: format!("n{}", i), look: look(100 + i), props: None }
}
pub fn edge(i: usize, a: usize, b: usize, label: &str) -> Edge {
    Edge { a, b, label: label.to_string(), heads: (false, true), style: 0, look: look(200 + i), props: None, ports: (None, None) }
}
pub fn graph(ltr: bool) -> Graph {
    Graph { ltr, nodes: vec![], edges: vec![], no_opt: false, no_layout: false, debug: false }
}
/// Different sizes, so that rows are uneven.
pub fn some_size(i: usize) -> (f64, f64) {
    (40.0 + 30.0 * ((i * 5) % 7) as f64, 30.0 + 11.0 * ((i * 3) % 5) as f64)
}
impl Graph {
    pub fn orient(&self) -> Orientation {
        if self.ltr {
            Orientation::LeftToRight
        } else {
            Orientation::TopToBottom
        }
    }
    pub fn build(&self) -> VisualGraph {
        let o = self.orient();
        let mut vg = VisualGraph::new(o);
        let mut hs = Vec::new();
        for n in &self.nodes {
            let s = match n.kind {
                BOX => ShapeKind::new_box(&n.label),
                CIRCLE => ShapeKind::new_circle(&n.label),
                DOUBLE => ShapeKind::new_double_circle(&n.label),
                RECORD => {
                    let l = vec![RecordDef::new_text_with_port(&n.label, "p"), RecordDef::new_text_with_port("r", "q")];
                    ShapeKind::new_record(&RecordDef::Array(l))
                }
                _ => ShapeKind::None,
            };
            let size = Point::new(n.w, n.h);
            // records are drawn across the direction of the graph
            let e = match &n.props {
                Some(p) => Element::create_with_properties(s, n.look.clone(), o, size, p.clone()),
                None => Element::create(s, n.look.clone(), o, size),
            };
            hs.push(vg.add_node(e));
        }
        for e in &self.edges {
            let end = |x: bool| if x { LineEndKind::Arrow } else { LineEndKind::None };
            let st = match e.style {
                0 => LineStyleKind::Normal,
                1 => LineStyleKind::Dashed,
                2 => LineStyleKind::Dotted,
                _ => LineStyleKind::None,
            };
            let (p, q) = &e.ports;
            let a = match &e.props {
                Some(x) => Arrow::with_properties(end(e.heads.0), end(e.heads.1), st, &e.label, &e.look, x.clone(), p, q),
                None => Arrow::new(end(e.heads.0), end(e.heads.1), st, &e.label, &e.look, p, q),
            };
            vg.add_edge(a, hs[e.a], hs[e.b]);
        }
        vg
    }
    pub fn draw(&self, rb: &mut dyn RenderBackend) {
        self.build().do_it(self.debug, self.no_opt, self.no_layout, rb);
    }
    pub fn any_flags(&mut self) {
        self.no_opt = flag();
        self.no_layout = flag();
    }
    /// Any edges between the nodes; with label, each one may have a label.
    pub fn any_edges(&mut self, m: usize, label: &str) {
        let n = self.nodes.len() as u64;
        for i in 0..m {
            let a = pick(0, n - 1) as usize;
            let b = pick(0, n - 1) as usize;
            let l = if !label.is_empty() && flag() { label } else { "" };
            self.edges.push(edge(i, a, b, l));
        }
    }
}
/// Is there a path of at least one edge from a to b?
pub fn leads(n: usize, l: &[(usize, usize)], a: usize, b: usize) -> bool {
    let mut seen = vec![false; n];
    let mut work = vec![a];
    while let Some(x) = work.pop() {
        for e in l {
            if e.0 == x && !seen[e.1] {
                seen[e.1] = true;
                work.push(e.1);
            }
        }
    }
    seen[b]
}
/// Larger graphs: one of several families, and extra edges anywhere. The extra edges may have the label.
pub fn big(ltr: bool, extra: usize, label: &str, flags: bool) -> Graph {
    let mut g = graph(ltr);
    if flags {
        g.any_flags();
    }
    let mut l: Vec<(usize, usize)> = vec![];
    let n = match pick(0, 7) {
        0 => {
            // a chain
            l.extend((0..6).map(|i| (i, i + 1)));
            7
        }
        1 => {
            // a star, out of its center
            l.extend((1..7).map(|i| (0, i)));
            7
        }
        2 => {
            // a star into its center
            l.extend((1..7).map(|i| (i, 0)));
            7
        }
        3 => {
            // a tree
            l.extend((1..8).map(|i| ((i - 1) / 2, i)));
            8
        }
        4 => {
            // everything to everything
            l.extend((0..9).map(|i| (i / 3, 3 + i % 3)));
            6
        }
        5 => {
            // a circle
            l.extend((0..6).map(|i| (i, (i + 1) % 6)));
            6
        }
        6 => {
            // two paths of different lengths, there and back
            l.extend([(0, 1), (1, 2), (2, 3), (3, 4), (0, 5), (5, 4), (4, 0)]);
            7
        }
        _ => {
            // long edges past a chain, and many edges in parallel
            l.extend([(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (0, 4), (4, 1), (0, 2), (0, 1), (1, 0)]);
            5
        }
    };
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, if i % 3 == 1 { CIRCLE } else { BOX }, w, h));
    }
    for _ in 0..extra {
        l.push((pick(0, n as u64 - 1) as usize, pick(0, n as u64 - 1) as usize));
    }
    let k = l.len() - extra;
    let all = !label.is_empty() && flag();
    for (i, e) in l.iter().enumerate() {
        let t = if !label.is_empty() && if i < k { all && i % 2 == 0 } else { flag() } { label } else { "" };
        g.edges.push(edge(i, e.0, e.1, t));
    }
    g
}
/// Graphs of 9 to 24 nodes: one of 14 families, one more edge between some of the nodes, and labels
/// on no edge, the last one or all.
pub fn huge(ltr: bool, n: usize, label: &str) -> Graph {
    let mut g = graph(ltr);
    let mut l: Vec<(usize, usize)> = vec![];
    match pick(0, 13) {
        // a chain, forward and backward
        0 => l.extend((0..n - 1).map(|i| (i, i + 1))),
        1 => l.extend((0..n - 1).rev().map(|i| (i + 1, i))),
        // stars
        2 => l.extend((1..n).map(|i| (0, i))),
        3 => l.extend((1..n).map(|i| (i, 0))),
        // trees
        4 => l.extend((1..n).map(|i| ((i - 1) / 2, i))),
        5 => l.extend((1..n).map(|i| (i, (i - 1) / 3))),
        // everything to everything
        6 => l.extend((0..n).map(|i| (i / 4 % 4, 4 + i % 4))),
        // a circle
        7 => l.extend((0..n).map(|i| (i, (i + 1) % n))),
        // two paths of different lengths
        8 => {
            l.extend((0..n / 3).map(|i| (i, i + 1)));
            l.push((0, n / 3 + 1));
            l.extend((n / 3 + 1..n - 1).map(|i| (i, i + 1)));
            l.push((n - 1, n / 3));
        }
        // a ladder
        9 => {
            l.extend((0..n - 1).map(|i| (i, i + 1)));
            l.extend((0..n - 2).map(|i| (i, i + 2)));
        }
        // long edges past a chain
        10 => {
            l.extend((0..n / 2).map(|i| (i, i + 1)));
            l.extend((2..n / 2).map(|i| (0, i)));
        }
        // many edges in parallel, there and back
        11 => l.extend((0..n).map(|i| if i % 3 == 2 { (1, 0) } else { (i % 2, 1 + i % 2) })),
        // many self edges
        12 => l.extend((0..n).map(|i| if i % 4 == 0 { (i / 4, i / 4 + 1) } else { (i / 8, i / 8) })),
        // small parts beside each other
        _ => l.extend((0..n - 2).map(|i| (i, if i % 3 == 2 { i - 2 } else { i + 1 }))),
    }
    for i in 0..n {
        let (w, h) = some_size(i);
        g.nodes.push(node(i, if i % 3 == 1 { CIRCLE } else { BOX }, w, h));
    }
    let at = [0, 1, n / 2, n - 1];
    l.push((at[pick(0, 3) as usize], at[pick(0, 3) as usize]));
    let how = if label.is_empty() { 0 } else { pick(0, 2) };
    let last = l.len() - 1;
    for (i, e) in l.iter().enumerate() {
        let t = how == 2 || how == 1 && i == last;
        g.edges.push(edge(i, e.0, e.1, if t { label } else { "" }));
    }
    g
}
