//! C17: saving a file reports success only when everything was written.
//! The system calls are stand-ins that decide their own results; nothing reaches the file system.
#![allow(invalid_runtime_symbol_definitions)]
use layout::core::utils::save_to_file;
use sym::*;

#[path = "../world.rs"]
mod world;
use world::*;

/// Saves the content over an old file (or none), while up to `faults` calls do something odd.
fn save(path: &str, content: &str, old: Option<&str>, faults: u32, long: bool) {
    let w = world();
    *w = World { on: true, disk: vec![], open: vec![], fault: None, left: faults, long, out: [vec![], vec![]], faulty: vec![] };
    w.disk.push((b"other".to_vec(), b"not this one".to_vec()));
    if let Some(o) = old {
        w.disk.push((path.as_bytes().to_vec(), o.as_bytes().to_vec()));
    }
    let r = save_to_file(path, content);
    let w = world();
    w.on = false;
    if verbose() {
        println!("path {:?}, {} bytes over {:?}: {:?}", path, content.len(), old, r);
        for f in &w.disk {
            println!("file {:?}: {} bytes {:?}", String::from_utf8_lossy(&f.0), f.1.len(), String::from_utf8_lossy(&f.1[..f.1.len().min(40)]));
        }
        println!("first fault {:?}", w.fault);
    }
    check(file(b"other").map_or(false, |i| w.disk[i].1 == b"not this one"), 4);
    let nul = path.bytes().any(|c| c == 0);
    match r {
        Ok(()) => {
            reach(1);
            check(w.fault.is_none(), 2);
            check(!nul, 2);
            let f = file(path.as_bytes());
            check(f.is_some(), 1);
            let got = &w.disk[f.unwrap()].1;
            check(got.len() == content.len(), 1);
            check(got == content.as_bytes(), 1);
            check(w.open.iter().all(|x| x.is_none()), 5);
        }
        Err(e) => {
            reach(2);
            check(w.fault.is_some() || nul, 3);
            match w.fault {
                Some(0) | None => {}
                Some(n) => check(e.raw_os_error() == Some(n), 3),
            }
        }
    }
    observe(w.disk.len() as u64);
}
macro_rules! e {
    ($($n:ident => $t:expr;)*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $t }) * entries!($($n),*); }
}
fn old() -> Option<&'static str> {
    [None, Some(""), Some("an older and longer content")][pick(0, 2) as usize]
}
e! {
    bytes3 => {
        let n = pick(0, 3) as usize;
        save("out.svg", &ascii(n, 0, 127), old(), 3, false)
    };
    bytes4 => save("out.svg", &ascii(4, 0, 127), old(), 5, false);
    uni => save("öut.svg", &text(3), old(), 3, false);
    long => {
        let n = [100, 5000, 20000][pick(0, 2) as usize];
        let s: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        save("out.svg", &s, old(), 3, true)
    };
    bytes8 => save("out.svg", &ascii(8, 0, 127), old(), 7, false);
    many8 => {
        let s = "0123456789abcdef";
        save("o", s, old(), 8, true)
    };
    many => {
        let s = "0123456789abcdef";
        save("o", s, old(), 6, true)
    };
    path3 => {
        let n = pick(1, 3) as usize;
        save(&ascii(n, 0, 127), "content", old(), 1, false)
    };
}
