//! Symbolic inputs and assertions. Under the symbolic executor the `__sym_*` functions are
//! intercepted by name; natively (replay) they read the inputs of one path from stdin.
pub mod dot;
pub mod gr;
pub mod rec;
pub mod xml;
use std::hint::black_box;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

static INPUTS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static POS: AtomicUsize = AtomicUsize::new(0);
static OBS: AtomicU64 = AtomicU64::new(0);
static ALLOW: AtomicBool = AtomicBool::new(false);
static VERBOSE: AtomicBool = AtomicBool::new(false);

fn next(lo: u64, hi: u64, signed: bool) -> u64 {
    let p = POS.fetch_add(1, Relaxed);
    let v = INPUTS.lock().unwrap().get(p).copied().unwrap_or(lo);
    let ok = if signed { (v as i64) >= lo as i64 && (v as i64) <= hi as i64 } else { v >= lo && v <= hi };
    if ok { v } else { lo }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_int(lo: u64, hi: u64, bits: u64) -> u64 {
    black_box(bits);
    black_box(next(black_box(lo), black_box(hi), false))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_pick(lo: u64, hi: u64) -> u64 {
    black_box(next(black_box(lo), black_box(hi), false))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_f64(lo: i64, hi: i64, den_log2: u64) -> f64 {
    let v = next(black_box(lo) as u64, black_box(hi) as u64, true) as i64;
    black_box(v as f64 * 2f64.powi(-(black_box(den_log2) as i32)))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_pin(v: u64) -> u64 {
    black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_pinf(v: f64) -> f64 {
    black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assume(c: u64) {
    if black_box(c) & 1 == 0 {
        println!("\nRESULT assume");
        std::process::exit(11);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assert(c: u64, id: u64) {
    if black_box(c) & 1 == 0 {
        println!("\nRESULT assert {}", black_box(id));
        std::process::exit(10);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_reach(id: u64) {
    black_box(id ^ 0x51);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_observe(v: u64) {
    let o = OBS.load(Relaxed);
    OBS.store((o ^ black_box(v)).wrapping_mul(0x100000001b3).rotate_left(13), Relaxed);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_allow_panic(v: u64) {
    ALLOW.store(black_box(v) != 0, Relaxed);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_hash_mode(v: u64) {
    black_box(v ^ 0x62);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_stop() {
    if black_box(true) {
        println!("\nRESULT ok {}", OBS.load(Relaxed));
        std::process::exit(0);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_verbose() -> u64 {
    black_box(VERBOSE.load(Relaxed) as u64)
}

// ---- the interface harnesses use

/// Any integer in lo..=hi, symbolic.
pub fn int(lo: u64, hi: u64) -> u64 {
    let bits = if hi < 2 { 8 } else if hi < 256 { 8 } else if hi < 65536 { 16 } else if hi <= u32::MAX as u64 { 32 } else { 64 };
    __sym_int(lo, hi, bits)
}
/// Any byte in lo..=hi, symbolic.
pub fn byte(lo: u8, hi: u8) -> u8 {
    __sym_int(lo as u64, hi as u64, 8) as u8
}
/// Any integer in lo..=hi, one execution path per value.
pub fn pick(lo: u64, hi: u64) -> u64 {
    if lo == hi {
        return lo;
    }
    __sym_pick(lo, hi)
}
pub fn flag() -> bool {
    pick(0, 1) == 1
}
/// A symbolic double k / 2^den_log2, lo <= k <= hi.
pub fn f64_grid(lo: i64, hi: i64, den_log2: u64) -> f64 {
    __sym_f64(lo, hi, den_log2)
}
pub fn assume(c: bool) {
    __sym_assume(c as u64)
}
pub fn check(c: bool, id: u64) {
    __sym_assert(c as u64, id)
}
pub fn reach(id: u64) {
    __sym_reach(id)
}
pub fn observe(v: u64) {
    __sym_observe(__sym_pin(v))
}
pub fn observe_bytes(b: &[u8]) {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    observe(h);
}
/// The rest of the path may end in a panic (a documented precondition).
pub fn allow_panic(v: bool) {
    __sym_allow_panic(v as u64)
}
/// 0: the real hash functions, 1: constant, 2..: an arbitrary function, one per number
pub fn hash_mode(v: u64) {
    __sym_hash_mode(v)
}
/// Ends the path here, successfully.
pub fn stop() {
    __sym_stop()
}
pub fn verbose() -> bool {
    __sym_verbose() != 0
}

#[inline(never)]
pub fn run_main(entries: &[(&str, extern "C" fn())]) {
    use std::io::Read;
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if ALLOW.load(Relaxed) {
            println!("\nRESULT allowed");
            std::process::exit(12);
        }
        eprintln!("{}", i);
        std::process::exit(13);
    }));
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let go = |name: &str, inp: &str| {
        *INPUTS.lock().unwrap() = inp.trim().split(',').filter_map(|x| x.parse::<u64>().ok()).collect();
        POS.store(0, Relaxed);
        OBS.store(0x1234, Relaxed);
        ALLOW.store(false, Relaxed);
        let e = entries.iter().find(|e| e.0 == name).expect("no such entry");
        (e.1)();
        println!("\nRESULT ok {}", OBS.load(Relaxed));
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            VERBOSE.store(std::env::var("SYM_VERBOSE").is_ok(), Relaxed);
            go(&a[2], &s);
        }
        _ => {
            for e in entries {
                println!("{}", e.0);
            }
        }
    }
}

#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn main() {
            sym::run_main(&[$((stringify!($n), $n as extern "C" fn())),*]);
        }
    };
}

/// A string of exactly `n` symbolic ASCII characters in lo..=hi (hi <= 127).
pub fn ascii(n: usize, lo: u8, hi: u8) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte(lo, hi));
    }
    // every byte is below 128
    unsafe { String::from_utf8_unchecked(v) }
}

/// A string of exactly `n` characters: any ASCII ones, but one may be one of a few others.
pub fn text(n: usize) -> String {
    let at = pick(0, n as u64) as usize;
    let mut s = String::new();
    if at > 0 {
        s.push_str(&ascii(at - 1, 0, 127));
        s.push(match pick(0, 4) {
            0 => 'é',
            1 => '٣', // a digit that is not ASCII
            2 => '\u{2003}', // a space that is not ASCII
            3 => '\u{ffff}',
            _ => '😀',
        });
        s.push_str(&ascii(n - at, 0, 127));
    } else {
        s.push_str(&ascii(n, 0, 127));
    }
    s
}
