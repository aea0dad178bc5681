//! C22: the command line tool writes the drawing of its input, with the settings it was given.
//! Its source is compiled into this binary; the command line and the file system are stand-ins.
#![allow(invalid_runtime_symbol_definitions, static_mut_refs)]
use layout::backends::svg::SVGWriter;
use layout::gv::parser::DotParser;
use layout::gv::GraphBuilder;
use sym::*;

#[path = "../world.rs"]
mod world;
use world::*;

#[allow(dead_code, unused_imports)]
mod cli {
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
}
/// The drawing that the library makes, or nothing when the document has an error.
fn draw(doc: &str, debug: bool, no_opt: bool, no_layout: bool) -> Option<String> {
    let mut p = DotParser::new(doc);
    let g = p.process().ok()?;
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let mut vg = b.get();
    let mut svg = SVGWriter::new();
    vg.do_it(debug, no_opt, no_layout, &mut svg);
    Some(svg.finalize())
}
fn tool(doc: &str, any_order: bool, faults: u32) {
    let (debug, no_opt, no_layout, ast) = (flag(), flag(), flag(), flag());
    let out = pick(0, 2);
    let mut line: Vec<Vec<&str>> = vec![];
    let long = flag();
    if debug {
        line.push(vec![if long { "--debug" } else { "-d" }]);
    }
    if no_layout {
        line.push(vec!["--no-layout"]);
    }
    if no_opt {
        line.push(vec!["--no-optz"]);
    }
    if ast {
        line.push(vec![if long { "--ast" } else { "-a" }]);
    }
    let path = ["/tmp/out.svg", "drawing", "other dir/x.svg"][out as usize];
    if out > 0 {
        line.push(vec![if long { "--output" } else { "-o" }, path]);
    }
    let at = if any_order { pick(0, line.len() as u64) as usize } else { line.len() };
    line.insert(at, vec!["in.dot"]);
    let mut args = vec!["layout".to_string()];
    args.extend(line.concat().iter().map(|x| x.to_string()));
    let old = flag();
    let w = world();
    *w = World { on: true, disk: vec![], open: vec![], fault: None, left: 0, long: true, out: [vec![], vec![]], faulty: vec![] };
    w.disk.push((b"in.dot".to_vec(), doc.as_bytes().to_vec()));
    w.disk.push((b"other".to_vec(), b"not this one".to_vec()));
    if old {
        w.disk.push((path.as_bytes().to_vec(), b"an old drawing".to_vec()));
    }
    // only the drawing may be hard to write
    w.faulty = path.as_bytes().to_vec();
    w.left = faults;
    unsafe {
        clap::LINE = args.clone();
        log::ERRORS.clear();
    }
    __sym_real_print();
    cli::run();
    let _ = std::io::Write::flush(&mut std::io::stdout());
    let w = world();
    w.on = false;
    let want = draw(doc, debug, no_opt, no_layout);
    if verbose() {
        println!("command line {:?}", args);
        println!("document {:?}", doc);
        for f in &w.disk {
            println!("file {:?}: {} bytes {:?}", String::from_utf8_lossy(&f.0), f.1.len(), String::from_utf8_lossy(&f.1[..f.1.len().min(60)]));
        }
        println!("printed {:?}", String::from_utf8_lossy(&w.out[0]));
        println!("errors {:?}, fault {:?}", unsafe { &log::ERRORS }, w.fault);
        println!("drawing of the library: {:?} bytes", want.as_ref().map(|x| x.len()));
    }
    let errors = unsafe { log::ERRORS.len() };
    check(file(b"in.dot").map_or(false, |i| w.disk[i].1 == doc.as_bytes()), 3);
    check(file(b"other").map_or(false, |i| w.disk[i].1 == b"not this one"), 3);
    let got = file(path.as_bytes()).map(|i| &w.disk[i].1);
    match want {
        Some(svg) => {
            if w.fault.is_none() {
                check(got.is_some(), 1);
                check(got.unwrap() == svg.as_bytes(), 1);
                check(errors == 0, 4);
                // the tree is printed on request
                check(w.out[0].is_empty() != ast, 5);
                check(w.disk.len() == 3, 3);
                reach(1);
            } else {
                // told, not hidden
                check(errors > 0 || !w.out[1].is_empty(), 4);
                reach(3);
            }
        }
        None => {
            // nothing is written, and the error is told
            check(got.map_or(!old, |x| old && x == b"an old drawing"), 2);
            check(w.disk.len() == 2 + old as usize, 3);
            check(errors > 0 || !w.out[1].is_empty(), 4);
            check(doc.is_empty() || !w.out[0].is_empty() || !w.out[1].is_empty(), 4);
            reach(2);
        }
    }
    observe(w.disk.len() as u64);
}
fn document() -> &'static str {
    [
        "digraph {}",
        "digraph G { a -> b [label=\"x\"]; b -> c; a -> c; c -> a; d }",
        "graph { rankdir=LR; a -- b -- c -- d; a -- d; a [shape=record label=\"{<p>p|q}\"] }",
        "digraph { a -> b -> c -> d; a -> e; b -> f; c -> e; a -> d; f -> e; e -> e }",
        "digraph { a -> b",
        "digrap { a }",
        "digraph {\n a -> b;\n b -> ;\n}\n",
        "",
    ][pick(0, 7) as usize]
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
e! {
    settings => tool(document(), false, 0);
    order => tool("digraph { a -> b -> c; a -> c [label=\"x\"] }", true, 0);
    faults => tool("digraph { a -> b }", false, 3);
    chars2 => {
        hash_mode(1);
        let s = format!("digraph {{{}}}", ascii(2, 32, 126));
        tool(&s, false, 0)
    };
}
/// Printing reaches the stand-ins of the system calls.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_real_print() -> u64 {
    unsafe { W_USED += 1 };
    unsafe { W_USED }
}
static mut W_USED: u64 = 0;
