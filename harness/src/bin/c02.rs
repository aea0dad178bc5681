//! C02: the parsed tree is what the document says.
use layout::gv::DotParser;
use sym::dot::*;
use sym::*;

fn compare(s: &str, want: &Result<(Option<String>, Vec<St>), No>) {
    if verbose() {
        println!("text: {:?}\nexpected: {:?}", s, want);
    }
    let mut p = DotParser::new(s);
    let got = p.process();
    if verbose() {
        println!("parsed: {:?}", got);
    }
    match want {
        Err(No::Unspecified) => {
            observe(3);
        }
        Err(No::Wrong) => {
            reach(2);
            check(got.is_err(), 2);
            observe(2);
        }
        Ok((name, l)) => {
            reach(1);
            match got {
                Ok(g) => check(same_graph(name, l, &g), 1),
                Err(_) => check(false, 3),
            }
            observe(l.len() as u64);
        }
    }
}
fn diff(s: &str) {
    compare(s, &read(s))
}

/// Tokens are chosen one at a time, as long as the reader has not rejected the document.
struct Lazy {
    left: usize,
    n: u64,
    text: String,
    depth: i32,
    pre: Vec<Tok>,
}
impl Source for Lazy {
    fn next(&mut self) -> Tok {
        if !self.pre.is_empty() {
            let t = self.pre.remove(0);
            self.show(&t);
            return t;
        }
        if self.left == 0 {
            return Tok::End;
        }
        self.left -= 1;
        let t = match pick(0, 17) {
            0 => {
                self.n += 1;
                Tok::Id(format!("x{}", self.n))
            }
            1 => Tok::Graph,
            2 => Tok::Node,
            3 => Tok::Edge,
            4 => Tok::Digraph,
            5 => Tok::Strict,
            6 => Tok::Subgraph,
            7 => Tok::Eq,
            8 => Tok::Colon,
            9 => Tok::Comma,
            10 => Tok::Semi,
            11 => Tok::Arrow,
            12 => Tok::Line,
            13 => Tok::LB,
            14 => Tok::RB,
            15 => Tok::LC,
            16 => Tok::RC,
            _ => {
                self.left = 0;
                Tok::End
            }
        };
        self.show(&t);
        t
    }
}
impl Lazy {
    fn show(&mut self, t: &Tok) {
        let s = match t {
            Tok::Id(s) => s.as_str(),
            Tok::Graph => "graph",
            Tok::Node => "node",
            Tok::Edge => "edge",
            Tok::Digraph => "digraph",
            Tok::Strict => "strict",
            Tok::Subgraph => "subgraph",
            Tok::Eq => "=",
            Tok::Colon => ":",
            Tok::Comma => ",",
            Tok::Semi => ";",
            Tok::Arrow => "->",
            Tok::Line => "--",
            Tok::LB => "[",
            Tok::RB => "]",
            Tok::LC => "{",
            Tok::RC => "}",
            Tok::End => "",
        };
        self.depth += match t {
            Tok::LC => 1,
            Tok::RC => -1,
            _ => 0,
        };
        self.text.push_str(s);
        self.text.push(' ');
    }
}
fn toks(pre: Vec<Tok>, n: usize) {
    let mut l = Lazy { left: n, n: 0, text: String::new(), depth: 0, pre };
    let want = Reader::new(&mut l).document();
    let s = l.text.clone();
    compare(&s, &want);
}
fn close(pre: Vec<Tok>, n: usize) {
    // the last tokens are fixed: closing braces
    struct Closing(Lazy, usize);
    impl Source for Closing {
        fn next(&mut self) -> Tok {
            if self.0.left > 0 || !self.0.pre.is_empty() {
                return self.0.next();
            }
            if self.0.depth > 0 {
                self.0.show(&Tok::RC);
                return Tok::RC;
            }
            Tok::End
        }
    }
    let mut l = Closing(Lazy { left: n, n: 0, text: String::new(), depth: 0, pre }, 0);
    let want = Reader::new(&mut l).document();
    let s = l.0.text.clone();
    compare(&s, &want);
}
fn id(s: &str) -> Tok {
    Tok::Id(s.to_string())
}

/// A long text with any character somewhere in it.
fn stretch(letter: &str) -> String {
    let n = [7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257][pick(0, 14) as usize];
    let at = [0, n / 2, n - 1][pick(0, 2) as usize];
    format!("{}{}{}", letter.repeat(at), ascii(1, 1, 127), letter.repeat(n - 1 - at))
}
/// Characters of all UTF-8 lengths.
fn uni() -> String {
    let c = ['é', '\u{7ff}', '\u{800}', '٣', '\u{2003}', '\u{ffff}', '\u{10000}', '😀'];
    let mut s = ascii(1, 1, 127);
    s.push(c[pick(0, 7) as usize]);
    s.push_str(&ascii(1, 1, 127));
    s.push(c[pick(0, 7) as usize]);
    s.push_str(&ascii(1, 1, 127));
    s
}
/// Deep nesting: every level opens a block in one of three ways, with statements before and after the inner one.
fn nest() {
    let n = pick(0, 24) as usize;
    let how = pick(0, 3);
    let (before, after) = (flag(), flag());
    let mut s = String::from("digraph g { ");
    for i in 0..n {
        if before {
            s.push_str(&format!("a{}; ", i));
        }
        match if how == 3 { i as u64 % 3 } else { how } {
            0 => s.push_str("{ "),
            1 => s.push_str("subgraph { "),
            _ => s.push_str(&format!("subgraph s{} {{ ", i)),
        }
    }
    s.push_str(["x", "x -> y", "x = y", "node [x=y]", ""][pick(0, 4) as usize]);
    let close = n + [0, 1, 2][pick(0, 2) as usize];
    for i in 0..close {
        s.push_str(" }");
        if after && i + 1 < n + 1 {
            s.push_str(&format!(" b{}", i));
        }
    }
    diff(&s);
}
/// Many statements, long chains, and long lists of attributes.
fn wide() {
    let n = [5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40][pick(0, 11) as usize];
    let mut s = String::from("digraph g { ");
    let sep = [" ", "; ", "\n"][pick(0, 2) as usize];
    let odd = pick(0, n as u64 - 1) as usize;
    match pick(0, 3) {
        0 => {
            for i in 0..n {
                s.push_str(&if i == odd { format!("n{} -- m{}", i, sep) } else { format!("n{}{}", i, sep) });
            }
        }
        1 => {
            s.push_str("n0");
            for i in 1..n {
                s.push_str(if i == odd { " -- " } else { " -> " });
                s.push_str(&if i % 3 == 1 { format!("n{}:p{}", i, i) } else { format!("n{}", i) });
            }
        }
        2 => {
            s.push_str("n [");
            for i in 0..n {
                s.push_str(&format!("k{}={}v{}{}", i, if i == odd { "\"" } else { "" }, i, if i == odd { " \" " } else { ["; ", ", ", " "][i % 3] }));
            }
            s.push(']');
        }
        _ => {
            for i in 0..n {
                s.push_str(&if i == odd { format!("edge [k=v{}]{}", i, sep) } else { format!("k{}=v{}{}", i, i, sep) });
            }
        }
    }
    s.push('}');
    diff(&s);
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    body5 => diff(&format!("digraph{{{}}}", ascii(5, 1, 127)));
    body6 => diff(&format!("graph g{{{}}}", ascii(6, 1, 127)));
    head4 => diff(&format!("graph{}{{}}", ascii(4, 1, 127)));
    tail3 => diff(&format!("graph{{a}}{}", ascii(3, 1, 127)));
    mid5 => diff(&format!("graph{{a{}b}}", ascii(5, 1, 127)));
    attr4 => diff(&format!("digraph{{a[b={}]}}", ascii(4, 1, 127)));
    attr5 => diff(&format!("digraph{{a[b={}]c}}", ascii(5, 1, 127)));
    str4 => diff(&format!("digraph{{\"{}\"}}", ascii(4, 1, 127)));
    str6 => diff(&format!("digraph{{\"{}\"}}", ascii(6, 1, 127)));
    num5 => diff(&format!("digraph{{a=-{}{}}}", ascii(1, b'0', b'9'), ascii(4, 1, 127)));
    comment5 => diff(&format!("digraph{{a/*{}*/b}}", ascii(5, 1, 127)));
    line5 => diff(&format!("digraph{{a//{}b\nc}}", ascii(5, 1, 127)));
    word1 => {
        let k = ["node", "edge", "graph", "strict", "digraph", "subgraph"][pick(0, 5) as usize];
        let at = pick(0, k.len() as u64) as usize;
        let c = ascii(1, 1, 127);
        let s = if flag() { format!("{}{}{}", &k[..at], c, &k[at..]) } else { format!("{}{}{}", &k[..at], c, &k[(at + 1).min(k.len())..]) };
        diff(&format!("digraph{{{}[x=y]}}", s))
    };
    quoted => {
        let k = ["node", "edge", "graph", "strict", "digraph", "subgraph"][pick(0, 5) as usize];
        diff(&format!("digraph \"{}\"{{\"{}\" -> \"{}\"[\"{}\"=\"{}\"]}}", k, k, k, k, k))
    };
    longid => diff(&format!("digraph{{a -> {} -> b}}", stretch("k")));
    longstr => diff(&format!("digraph{{a -> \"{}\" -> b}}", stretch(["k", " ", "é", "\\\""][pick(0, 3) as usize])));
    longnum => diff(&format!("digraph{{a[b={}]c}}", stretch("7")));
    longcomment => diff(&format!("digraph{{a/*{}*/b}}", stretch(["k", "*"][pick(0, 1) as usize])));
    longspace => diff(&format!("digraph{{a{}b}}", stretch([" ", "\n", "\t"][pick(0, 2) as usize])));
    longport => diff(&format!("digraph{{a:{} -> b[{}=c]}}", stretch("k"), "d".repeat(70)));
    unistr => diff(&format!("digraph{{\"{}\"[a=b]}}", uni()));
    unicomment => diff(&format!("digraph{{a/*{}*/b//{}\nc}}", uni(), "é"));
    deep => nest();
    many => wide();
    tok7 => toks(vec![], 7);
    tok9 => toks(vec![], 9);
    doc7 => close(vec![Tok::Digraph, Tok::LC], 7);
    doc8 => close(vec![Tok::Digraph, Tok::LC], 8);
    edge7 => close(vec![Tok::Digraph, id("g"), Tok::LC, id("a"), Tok::Arrow], 7);
    attrs7 => close(vec![Tok::Graph, Tok::LC, id("a"), Tok::LB, id("k"), Tok::Eq, id("v")], 7);
    sub7 => close(vec![Tok::Strict, Tok::Graph, Tok::LC, Tok::Subgraph, id("s"), Tok::LC], 7);
}
