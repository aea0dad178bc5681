//! C01: parsing is total.
use layout::gv::DotParser;
use sym::*;

fn go(s: &str) {
    if verbose() {
        println!("text: {:?}", s);
    }
    let mut p = DotParser::new(s);
    match p.process() {
        Ok(g) => {
            reach(1);
            observe(g.list.list.len() as u64 + 100);
            layout::gv::dump_ast(&g);
        }
        Err(e) => {
            reach(2);
            check(!e.is_empty(), 1);
            observe(1);
            p.print_error();
        }
    }
}
fn size() -> usize {
    [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000][pick(0, 19) as usize]
}
/// Blocks in blocks, open or closed again, around any text.
fn deep(n: usize) -> String {
    let d = [8, 9, 16, 17, 32, 33, 64, 65, 128, 300][pick(0, 9) as usize];
    let open = ["{", "subgraph s{", "a{", "\n{x;"][pick(0, 3) as usize];
    let closed = [0, 1, d - 1, d, d + 1][pick(0, 4) as usize];
    format!("graph{{{}{}{}", open.repeat(d), ascii(n, 0, 127), "}".repeat(closed))
}
/// A long word, number, string, comment or gap around any text.
fn long(n: usize) -> String {
    let k = size();
    let how = pick(0, 8) as usize;
    let c = ["a", "9", "a ", "/", "\\\"", "*", "\n", "é", "-"][how];
    let open = ["", "a=", "\"", "//", "\"", "/*", "", "\"", "a[b="][how];
    format!("graph{{{}{}{}{}", open, c.repeat(k), ascii(n, 0, 127), ["", "}", "\"}", "\n}", "*/}"][pick(0, 4) as usize])
}
/// Many statements, attributes, edges, lists before any text.
fn many(n: usize) -> String {
    let k = size();
    let unit = ["a;", "a->", "b=c\n", "a[", "a[b=c]", "node[a=b];", ",", "\r\n", "a:b:n--"][pick(0, 8) as usize];
    let open = ["graph{", "strict digraph é{", "graph{a[x=y,"][pick(0, 2) as usize];
    format!("{}{}{}}}", open, unit.repeat(k), ascii(n, 0, 127))
}
/// Errors in every line of a text of several lines, with lines of several lengths.
fn lines() -> String {
    let k = pick(0, 12) as usize;
    let line = ["\n", "a;\n", "abcdefghijklmnopqrstuvwxyz_0123456789 -> \"é😀\";\r\n", "\t\u{2003}b\n"][pick(0, 3) as usize];
    format!("digraph {{{}{}{}{}", line.repeat(k), ascii(2, 0, 127), line.repeat(pick(0, 2) as usize), ["", "]", "}", "\"é", "/*"][pick(0, 4) as usize])
}
macro_rules! e {
    ($($n:ident = $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { go(&$t) })* entries!($($n),*); }
}
e! {
    text4 = text(4);
    open5 = format!("graph{{{}", text(5));
    open6 = format!("graph{{{}", ascii(6, 0, 127));
    body5 = format!("digraph g{{{}}}", text(5));
    body6 = format!("digraph g{{{}}}", ascii(6, 0, 127));
    body7 = format!("digraph g{{{}}}", ascii(7, 0, 127));
    tail4 = format!("graph{{}}{}", text(4));
    head5 = format!("graph{}{{}}", text(5));
    attr5 = format!("graph{{a[{}", text(5));
    attr6 = format!("graph{{a[b={}", ascii(6, 0, 127));
    edge5 = format!("graph{{a->{}", text(5));
    edge6 = format!("graph{{a->{}", ascii(6, 0, 127));
    str5 = format!("graph{{\"{}", text(5));
    node5 = format!("graph{{node {}", text(5));
    sub5 = format!("graph{{subgraph {}", text(5));
    comment5 = format!("graph{{/*{}}}", text(5));
    deep2 = deep(2);
    deep3 = deep(3);
    long2 = long(2);
    long3 = long(3);
    many2 = many(2);
    many3 = many(3);
    lines2 = lines();
}
