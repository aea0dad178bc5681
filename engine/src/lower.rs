//! Lowers parsed LLVM IR to a compact register code executed by `exec.rs`.
use crate::ll::*;
use std::collections::HashMap;

pub const BASE: u64 = 0x1000_0000; // address of the first arena byte
pub const FN_BASE: u64 = 0x4_0000_0000; // function "addresses"
pub const EXT_BASE: u64 = 0x5_0000_0000; // declared-only functions

pub const CONST_BIT: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Max,
    Min,
    CopySign,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FU {
    Neg,
    Abs,
    Sqrt,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BU {
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    Abs,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ovf {
    UAdd,
    USub,
    UMul,
    SAdd,
    SSub,
    SMul,
}

#[derive(Clone, Copy, Debug)]
pub struct Edge {
    pub pc: u32,
    pub cp: u32, // index into copies
    pub n: u32,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin { o: B, w: u8, d: u32, a: u32, b: u32 },
    Icmp { p: Pred, w: u8, d: u32, a: u32, b: u32 },
    FBin { o: FB, d: u32, a: u32, b: u32 },
    FUn { o: FU, d: u32, a: u32 },
    Fcmp { p: u8, d: u32, a: u32, b: u32 }, // bits: 1 eq, 2 gt, 4 lt, 8 uno
    FIsClass { d: u32, a: u32, mask: u32 },
    Un { o: BU, w: u8, d: u32, a: u32 },
    OvfOp { o: Ovf, w: u8, d: u32, a: u32, b: u32 }, // d: result, d+1: flag
    Cmp3 { signed: bool, w: u8, dw: u8, d: u32, a: u32, b: u32 },
    Fsh { left: bool, w: u8, d: u32, a: u32, b: u32, c: u32 },
    Zext { d: u32, a: u32, from: u8, to: u8 },
    Sext { d: u32, a: u32, from: u8, to: u8 },
    Trunc { d: u32, a: u32, from: u8, to: u8 },
    Mov { d: u32, a: u32 },
    FToI { d: u32, a: u32, w: u8, signed: bool },
    IToF { d: u32, a: u32, w: u8, signed: bool },
    Select { d: u32, c: u32, a: u32, b: u32, w: u8, fl: bool },
    Load { d: u32, a: u32, off: i64, bytes: u8, bits: u8 },
    Store { v: u32, a: u32, off: i64, bytes: u8 },
    Gep1 { d: u32, a: u32, off: i64, i: u32, iw: u8, scale: i64 },
    GepK { d: u32, a: u32, off: i64 },
    GatherBits { d: u32, a: u32, n: u8 }, // <n x i1> -> iN
    Wide { o: WOp, d: u32, a: u32, b: u32, n: u32 },
    F32 { o: SOp, d: u32, a: u32, b: u32 }, // single precision; the operands are made concrete
    Alloca { d: u32, size: u64, align: u64, n: u32 },
    Br { e: u32 },
    CondBr { c: u32, t: u32, f: u32 },
    Switch { v: u32, w: u8, tab: u32 },
    Call { f: u32, args: u32, n: u32, d: u32 },
    CallB { b: Builtin, args: u32, n: u32, d: u32, nr: u8 },
    CallInd { p: u32, args: u32, n: u32, d: u32, nr: u8 },
    Ret { args: u32, n: u32 },
    Memcpy { d: u32, s: u32, n: u32 },
    Memset { d: u32, v: u32, n: u32 },
    Unreachable,
    Nop,
    Rmw { o: u8, bytes: u8, d: u32, p: u32, v: u32 },
    CmpXchg { bytes: u8, d: u32, p: u32, e: u32, n: u32 },
    LoadRel { d: u32, p: u32, o: u32 },
    Bad { msg: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WOp {
    Mul,
    Add,
    Sub,
    UDiv,
    URem,
    Shl,
    LShr,
    And,
    Or,
    Xor,
    IcmpEq,
    IcmpNe,
    IcmpUlt,
    IcmpUle,
    IcmpUgt,
    IcmpUge,
    IcmpSlt,
    Ctlz,
    Cttz,
    SDiv,
    SRem,
    AShr,
    IcmpSle,
    IcmpSgt,
    IcmpSge,
    OUAdd, // with overflow: 2 result slots and the flag
    OUSub,
    OUMul,
    OSAdd,
    OSSub,
    OSMul,
    UMin,
    UMax,
    SMin,
    SMax,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Max,
    Min,
    CopySign,
    Neg,
    Abs,
    Sqrt,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Cmp(u8),
    From64,
    To64,
    FromInt(bool, u8), // signed, width
    ToInt(bool, u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Builtin {
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Panic,
    Abort,
    SymStop,
    NoopZero, // returns 0
    NoopUnit,
    RandomKeys,
    HashOne,
    SymInt,
    SymPick,
    SymF64,
    SymPin,
    SymPinF,
    SymAssume,
    SymAssert,
    SymReach,
    SymObserve,
    SymAllowPanic,
    SymHashMode,
    SymPrefer,
    Errno,
    Write,
    Libm(u8), // index into LIBM
    Hypot,
    Fma,
    Powi,
    ClockZero,
    Unknown(u32),
}

pub struct SwitchTab {
    pub cases: Vec<(u64, u32)>, // value, edge
    pub map: HashMap<u64, u32>,
    pub default: u32,
}

pub struct Code {
    pub name: String,
    pub short: String,
    pub ops: Vec<Op>,
    pub lines: Vec<u32>,
    pub edges: Vec<Edge>,
    pub copies: Vec<(u32, u32)>,
    pub args: Vec<u32>,
    pub consts: Vec<u64>,
    pub switches: Vec<SwitchTab>,
    pub nslots: u32,
    pub nparams: u32,
    pub msgs: Vec<String>,
    pub crate_layout: bool,
    pub nret: u32,
}

pub struct Program {
    pub funcs: Vec<Code>,
    pub by_name: HashMap<String, u32>,
    pub ext_names: Vec<String>,
    pub ext_builtin: Vec<Builtin>,
    pub globals_image: Vec<u8>,
    pub globals_end: u64, // address
    pub const_end: u64,   // constants live in [BASE, const_end)
    pub errno_addr: u64,
    pub builtin_of: Vec<Option<Builtin>>, // intercepted defined functions
    pub global_addr: HashMap<String, u64>,
}

pub fn demangle(n: &str) -> String {
    // A rough readable form of a v0 / legacy mangled name: the list of path identifiers.
    let b = n.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return n.to_string();
    }
    i += 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() {
                let id = &n[j..j + len];
                out.push(id.to_string());
                i = j + len;
                continue;
            }
            i = j;
            continue;
        }
        if b[i] == b'B' {
            // back reference B..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

/// Functions of libm: the arguments are made concrete.
pub const LIBM: [&str; 27] = [
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "exp2", "exp10", "expm1", "log", "log2", "log10",
    "log1p", "cbrt", "asinh", "acosh", "atanh", "pow", "atan2", "fmod", "fdim", "fmax", "fmin",
];
/// Printing is left out, unless the binary has a stand-in for what it does.
static REAL_PRINT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn builtin_for(name: &str, defined: bool) -> Option<Builtin> {
    use Builtin::*;
    Some(match name {
        "__sym_int" => SymInt,
        "__sym_pick" => SymPick,
        "__sym_f64" => SymF64,
        "__sym_pin" => SymPin,
        "__sym_pinf" => SymPinF,
        "__sym_assume" => SymAssume,
        "__sym_assert" => SymAssert,
        "__sym_reach" => SymReach,
        "__sym_observe" => SymObserve,
        "__sym_allow_panic" => SymAllowPanic,
        "__sym_hash_mode" => SymHashMode,
        "__sym_prefer" => SymPrefer,
        "__sym_verbose" => NoopZero,
        "__sym_stop" => SymStop,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => Memalign,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "strlen" => Strlen,
        "abort" | "exit" | "_exit" => Abort,
        "__errno_location" => Errno,
        "write" if !defined => Write,
        "hypot" => Hypot,
        "fma" => Fma,
        "__powidf2" => Powi,
        "getenv" | "__cxa_thread_atexit_impl" if !defined => NoopZero,
        "clock_gettime" if !defined => ClockZero,
        x if !defined && LIBM.contains(&x) => Libm(LIBM.iter().position(|y| *y == x).unwrap() as u8),
        _ => {
            if name.contains("4core9panicking") || name.contains("13unwrap_failed") || name.contains("13expect_failed") {
                if name.contains("panic_const") || !name.contains("9panicking") {
                    return Some(Panic);
                }
                // helpers of core::panicking that do not panic do not exist
                return Some(Panic);
            }
            if name.contains("17rust_begin_unwind")
                || name.contains("begin_panic_handler")
                || name.contains("slice_index_fail")
                || name.contains("16slice_error_fail")
                || name.contains("19panic_already_borrow")
                || name.contains("23panic_already_mutably_borrow")
                || name.contains("raw_vec12handle_error")
                || name.contains("18handle_alloc_error")
                || name.contains("17capacity_overflow")
                || name.contains("25rust_panic_without_hook")
                || name.contains("begin_panic")
                || name.contains("len_mismatch_fail")
                || name.contains("split_at_fail")
            {
                return Some(Panic);
            }
            if name.contains("2io5stdio6__print") || name.contains("2io5stdio7__eprint") || name.contains("5stdio6_print") || name.contains("5stdio7_eprint") {
                return if REAL_PRINT.load(std::sync::atomic::Ordering::Relaxed) { None } else { Some(NoopUnit) };
            }
            if name.contains("hashmap_random_keys") {
                return Some(RandomKeys);
            }
            return None;
        }
    })
}

struct Lower<'a, 'm> {
    m: &'a Module<'m>,
    gaddr: &'a HashMap<String, u64>,
    fidx: &'a HashMap<String, u32>,
    ext: &'a HashMap<String, u32>,
    builtin_of: &'a Vec<Option<Builtin>>,
    ext_builtin: &'a Vec<Builtin>,
    slots: HashMap<String, (u32, Ty)>,
    nslots: u32,
    consts: Vec<u64>,
    cidx: HashMap<u64, u32>,
    ops: Vec<Op>,
    lines: Vec<u32>,
    edges: Vec<Edge>,
    copies: Vec<(u32, u32)>,
    args: Vec<u32>,
    switches: Vec<SwitchTab>,
    msgs: Vec<String>,
    line: u32,
}

type R<T> = Result<T, String>;

fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

fn const_addr(gaddr: &HashMap<String, u64>, fidx: &HashMap<String, u32>, ext: &HashMap<String, u32>, n: &str) -> R<u64> {
    if let Some(a) = gaddr.get(n) {
        return Ok(*a);
    }
    if let Some(i) = fidx.get(n) {
        return Ok(FN_BASE + 16 * *i as u64);
    }
    if let Some(i) = ext.get(n) {
        // weak symbols absent at link time would be null; we resolve all externals to a stub address
        return Ok(EXT_BASE + 16 * *i as u64);
    }
    Err(format!("unknown symbol {}", n))
}

fn const_scalars(
    gaddr: &HashMap<String, u64>,
    fidx: &HashMap<String, u32>,
    ext: &HashMap<String, u32>,
    t: &Ty,
    v: &Val,
    out: &mut Vec<u64>,
) -> R<()> {
    match v {
        Val::Undef | Val::Zero => {
            for _ in 0..t.nscalars() {
                out.push(0);
            }
        }
        Val::Int(x) => match t {
            Ty::Int(w) if *w > 64 => {
                let mut left = *w;
                let mut s = 0;
                while left > 0 {
                    let b = left.min(64);
                    out.push((x >> s) as u64 & mask(b));
                    s += 64;
                    left -= b;
                }
            }
            Ty::Int(w) => out.push(*x as u64 & mask(*w)),
            Ty::F64 => out.push((*x as i128 as f64).to_bits()),
            _ => out.push(*x as u64),
        },
        Val::Float(f) => match t {
            Ty::F32 => out.push((f64::from_bits(*f) as f32).to_bits() as u64),
            _ => out.push(*f),
        },
        Val::Global(n) => out.push(const_addr(gaddr, fidx, ext, n)?),
        Val::Splat(e) => {
            if let Ty::Vec(n, et) = t {
                for _ in 0..*n {
                    const_scalars(gaddr, fidx, ext, et, e, out)?;
                }
            } else {
                return Err("splat type".into());
            }
        }
        Val::Agg(items) => {
            for (it, iv) in items {
                const_scalars(gaddr, fidx, ext, it, iv, out)?;
            }
        }
        Val::Bytes(b) => {
            for x in b {
                out.push(*x as u64);
            }
        }
        Val::ConstGep { elem, base, idx } => {
            let mut bv = Vec::new();
            const_scalars(gaddr, fidx, ext, &Ty::Ptr, base, &mut bv)?;
            let mut a = bv[0];
            let mut cur = elem.clone();
            for (k, (it, iv)) in idx.iter().enumerate() {
                let mut x = Vec::new();
                const_scalars(gaddr, fidx, ext, it, iv, &mut x)?;
                let w = if let Ty::Int(w) = it { *w } else { 64 };
                let i = sext(x[0], w);
                if k == 0 {
                    a = a.wrapping_add((i * cur.size() as i64) as u64);
                } else {
                    let (o, t2) = {
                        let (o, t2) = match &cur {
                            Ty::Struct(..) => cur.field_off(i as usize),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => ((i * t.size() as i64) as u64, &**t),
                            _ => return Err("gep into scalar".into()),
                        };
                        (o, t2.clone())
                    };
                    a = a.wrapping_add(o);
                    cur = t2;
                }
            }
            out.push(a);
        }
        Val::ConstCast(op, tv, to) => {
            let mut x = Vec::new();
            const_scalars(gaddr, fidx, ext, &tv.0, &tv.1, &mut x)?;
            match (op.as_str(), to) {
                ("sext", Ty::Int(w)) => {
                    let fw = if let Ty::Int(w) = tv.0 { w } else { 64 };
                    out.push(sext(x[0], fw) as u64 & mask(*w));
                }
                (_, Ty::Int(w)) => out.push(x[0] & mask(*w)),
                _ => out.push(x[0]),
            }
        }
        Val::ConstBin(op, a, b) => {
            let mut x = Vec::new();
            const_scalars(gaddr, fidx, ext, &a.0, &a.1, &mut x)?;
            const_scalars(gaddr, fidx, ext, &b.0, &b.1, &mut x)?;
            let w = if let Ty::Int(w) = a.0 { w } else { 64 };
            let (p, q) = (x[0], x[1]);
            let r = match op.as_str() {
                "add" => p.wrapping_add(q),
                "sub" => p.wrapping_sub(q),
                "mul" => p.wrapping_mul(q),
                "xor" => p ^ q,
                "and" => p & q,
                "or" => p | q,
                "shl" => p.wrapping_shl(q as u32),
                "lshr" => p.wrapping_shr(q as u32),
                _ => return Err("const bin".into()),
            };
            out.push(r & mask(w));
        }
        Val::Local(_) | Val::Meta => return Err("local in constant".into()),
    }
    Ok(())
}

pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl<'a, 'm> Lower<'a, 'm> {
    fn cst(&mut self, v: u64) -> u32 {
        if let Some(i) = self.cidx.get(&v) {
            return CONST_BIT | i;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        self.cidx.insert(v, i);
        CONST_BIT | i
    }
    fn emit(&mut self, o: Op) {
        self.ops.push(o);
        self.lines.push(self.line);
    }
    fn new_slots(&mut self, n: usize) -> u32 {
        let s = self.nslots;
        self.nslots += n as u32;
        s
    }
    /// operands of a value: one u32 per scalar
    fn vals(&mut self, t: &Ty, v: &Val) -> R<Vec<u32>> {
        if let Val::Local(n) = v {
            let (s, st) = self.slots.get(n).ok_or_else(|| format!("unknown local {}", n))?;
            let k = st.nscalars() as u32;
            return Ok((*s..*s + k).collect());
        }
        let mut out = Vec::new();
        const_scalars(self.gaddr, self.fidx, self.ext, t, v, &mut out)?;
        Ok(out.into_iter().map(|x| self.cst(x)).collect())
    }
    fn val1(&mut self, t: &Ty, v: &Val) -> R<u32> {
        let x = self.vals(t, v)?;
        if x.len() != 1 {
            return Err(format!("scalar expected for {:?}", t));
        }
        Ok(x[0])
    }
    fn res(&mut self, i: &Inst) -> u32 {
        match &i.res {
            Some(n) => self.slots[n].0,
            None => {
                // unused result: scratch
                self.new_slots(4)
            }
        }
    }
    fn elem_w(t: &Ty) -> R<u8> {
        Ok(match t {
            Ty::Int(w) if *w <= 64 => *w as u8,
            Ty::Ptr => 64,
            Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, e) => return Lower::elem_w(e),
            _ => return Err(format!("width of {:?}", t)),
        })
    }
}

fn is_wide(t: &Ty) -> bool {
    matches!(t, Ty::Int(w) if *w > 64)
}

pub fn result_ty(i: &Inst, m: &Module) -> Option<Ty> {
    let _ = m;
    Some(match &i.op {
        IOp::Bin(_, t, _, _) => t.clone(),
        IOp::Icmp(_, t, _, _) | IOp::Fcmp(_, t, _, _) => match t {
            Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
            _ => Ty::Int(1),
        },
        IOp::Fneg(t, _) => t.clone(),
        IOp::Cast(_, _, _, to) => to.clone(),
        IOp::Select(_, _, t, _, _) => t.clone(),
        IOp::Load(t, _) => t.clone(),
        IOp::Gep(..) | IOp::Alloca(..) => Ty::Ptr,
        IOp::Call { ret, .. } => ret.clone(),
        IOp::Phi(t, _) => t.clone(),
        IOp::ExtractValue(t, _, ix) => {
            let mut c = t.clone();
            for i in ix {
                let n = c.field_off(*i as usize).1.clone();
                c = n;
            }
            c
        }
        IOp::InsertValue(t, ..) => t.clone(),
        IOp::ExtractElement(t, ..) => match t {
            Ty::Vec(_, e) => (**e).clone(),
            _ => return None,
        },
        IOp::InsertElement(t, ..) => t.clone(),
        IOp::Shuffle(t, _, _, mt, _) => match (t, mt) {
            (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(*n, e.clone()),
            _ => return None,
        },
        IOp::Freeze(t, _) => t.clone(),
        IOp::AtomicRmw(_, t, _, _) => t.clone(),
        IOp::CmpXchg(t, ..) => Ty::Struct(vec![t.clone(), Ty::Int(1)], false),
        IOp::Landing => Ty::Struct(vec![Ty::Ptr, Ty::Int(32)], false),
        _ => return None,
    })
}

pub fn lower_program(m: &Module) -> R<Program> {
    REAL_PRINT.store(m.funcs.iter().any(|f| f.name == "__sym_real_print"), std::sync::atomic::Ordering::Relaxed);
    // addresses: constants first, then writable globals
    let mut gaddr: HashMap<String, u64> = HashMap::new();
    let mut addr = BASE + 4096;
    for pass in 0..2 {
        for g in &m.globals {
            if (pass == 0) != g.constant {
                continue;
            }
            let al = g.align.max(16);
            addr = (addr + al - 1) / al * al;
            gaddr.insert(g.name.clone(), addr);
            addr += g.ty.size().max(1);
        }
        if pass == 0 {
            addr = (addr + 4095) / 4096 * 4096;
        }
    }
    let mut const_end = BASE + 4096;
    for g in &m.globals {
        if g.constant {
            const_end = const_end.max(gaddr[&g.name] + g.ty.size());
        }
    }
    let errno_addr = (addr + 15) / 16 * 16;
    addr = errno_addr + 16;
    let globals_end = addr;
    let mut fidx = HashMap::new();
    let mut builtin_of = Vec::new();
    for (i, f) in m.funcs.iter().enumerate() {
        fidx.insert(f.name.clone(), i as u32);
        builtin_of.push(builtin_for(&f.name, true));
    }
    let mut ext = HashMap::new();
    let mut ext_names = Vec::new();
    let mut ext_builtin = Vec::new();
    for d in &m.declares {
        if fidx.contains_key(d) {
            continue;
        }
        let i = ext_names.len() as u32;
        ext.insert(d.clone(), i);
        ext_names.push(d.clone());
        ext_builtin.push(builtin_for(d, false).unwrap_or(Builtin::Unknown(i)));
    }
    for (n, v) in &m.aliases {
        if let Val::Global(t) = v {
            if let Some(i) = fidx.get(t).cloned() {
                fidx.insert(n.clone(), i);
            } else if let Some(a) = gaddr.get(t).cloned() {
                gaddr.insert(n.clone(), a);
            }
        }
    }
    // image
    let mut image = vec![0u8; (globals_end - BASE) as usize];
    for g in &m.globals {
        if let Some(v) = &g.init {
            let a = gaddr[&g.name] - BASE;
            write_const(&gaddr, &fidx, &ext, &g.ty, v, a as usize, &mut image)
                .map_err(|e| format!("global {}: {}", g.name, e))?;
        }
    }
    // functions (parallel)
    let n = m.funcs.len();
    let mut funcs: Vec<Option<Code>> = Vec::new();
    for _ in 0..n {
        funcs.push(None);
    }
    let nth = 8;
    let chunk = (n + nth - 1) / nth;
    let errs = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for (ci, part) in funcs.chunks_mut(chunk.max(1)).enumerate() {
            let (gaddr, fidx, ext, builtin_of, ext_builtin, errs) = (&gaddr, &fidx, &ext, &builtin_of, &ext_builtin, &errs);
            s.spawn(move || {
                for (k, slot) in part.iter_mut().enumerate() {
                    let f = &m.funcs[ci * chunk + k];
                    match lower_func(m, f, gaddr, fidx, ext, builtin_of, ext_builtin) {
                        Ok(c) => *slot = Some(c),
                        Err(e) => errs.lock().unwrap().push(format!("{}: {}", f.name, e)),
                    }
                }
            });
        }
    });
    let e = errs.into_inner().unwrap();
    if !e.is_empty() {
        return Err(e.join("\n"));
    }
    let funcs: Vec<Code> = funcs.into_iter().map(|x| x.unwrap()).collect();
    Ok(Program {
        funcs,
        by_name: fidx,
        ext_names,
        ext_builtin,
        globals_image: image,
        globals_end,
        const_end,
        errno_addr,
        builtin_of,
        global_addr: gaddr,
    })
}

fn write_const(
    gaddr: &HashMap<String, u64>,
    fidx: &HashMap<String, u32>,
    ext: &HashMap<String, u32>,
    t: &Ty,
    v: &Val,
    at: usize,
    img: &mut [u8],
) -> R<()> {
    match v {
        Val::Zero | Val::Undef => {}
        Val::Bytes(b) => img[at..at + b.len()].copy_from_slice(b),
        Val::Agg(items) => {
            for (i, (it, iv)) in items.iter().enumerate() {
                let (o, _) = t.field_off(i);
                write_const(gaddr, fidx, ext, it, iv, at + o as usize, img)?;
            }
        }
        _ => {
            let mut out = Vec::new();
            const_scalars(gaddr, fidx, ext, t, v, &mut out)?;
            for (s, x) in t.flatten().iter().zip(out) {
                let nb = (s.bits as usize + 7) / 8;
                let o = at + s.off as usize;
                img[o..o + nb].copy_from_slice(&x.to_le_bytes()[..nb]);
            }
        }
    }
    Ok(())
}

fn lower_func(
    m: &Module,
    f: &Func,
    gaddr: &HashMap<String, u64>,
    fidx: &HashMap<String, u32>,
    ext: &HashMap<String, u32>,
    builtin_of: &Vec<Option<Builtin>>,
    ext_builtin: &Vec<Builtin>,
) -> R<Code> {
    let blocks = parse_body(m, f)?;
    let mut lw = Lower {
        m,
        gaddr,
        fidx,
        ext,
        builtin_of,
        ext_builtin,
        slots: HashMap::new(),
        nslots: 0,
        consts: Vec::new(),
        cidx: HashMap::new(),
        ops: Vec::new(),
        lines: Vec::new(),
        edges: Vec::new(),
        copies: Vec::new(),
        args: Vec::new(),
        switches: Vec::new(),
        msgs: Vec::new(),
        line: 0,
    };
    for (t, n) in &f.params {
        let s = lw.new_slots(t.nscalars());
        lw.slots.insert(n.clone(), (s, t.clone()));
    }
    let nparams = lw.nslots;
    for b in &blocks {
        for i in &b.insts {
            if let Some(n) = &i.res {
                if let Some(t) = result_ty(i, m) {
                    let s = lw.new_slots(t.nscalars());
                    lw.slots.insert(n.clone(), (s, t));
                }
            }
        }
    }
    let mut bidx: HashMap<&str, usize> = HashMap::new();
    for (i, b) in blocks.iter().enumerate() {
        bidx.insert(&b.label, i);
    }
    let mut starts = vec![0u32; blocks.len()];
    let mut pending: Vec<(usize, usize)> = Vec::new(); // (edge index, target block)
    for (bi, b) in blocks.iter().enumerate() {
        starts[bi] = lw.ops.len() as u32;
        for i in &b.insts {
            lw.line = i.line;
            let at = lw.ops.len();
            if let Err(e) = lower_inst(&mut lw, i, bi, &blocks, &bidx, &mut pending) {
                lw.ops.truncate(at);
                lw.lines.truncate(at);
                let k = lw.msgs.len() as u32;
                lw.msgs.push(format!("line {}: {}", i.line, e));
                lw.emit(Op::Bad { msg: k });
            }
        }
        if b.insts.is_empty() {
            lw.emit(Op::Unreachable);
        }
    }
    for (ei, tb) in pending {
        lw.edges[ei].pc = starts[tb];
    }
    let short = demangle(&f.name);
    Ok(Code {
        name: f.name.clone(),
        crate_layout: f.name.contains("_6layout"),
        short,
        ops: lw.ops,
        lines: lw.lines,
        edges: lw.edges,
        copies: lw.copies,
        args: lw.args,
        consts: lw.consts,
        switches: lw.switches,
        nslots: lw.nslots,
        nparams,
        msgs: lw.msgs,
        nret: f.ret.nscalars() as u32,
    })
}

fn mk_edge(
    lw: &mut Lower,
    from: usize,
    to: &str,
    blocks: &[Block],
    bidx: &HashMap<&str, usize>,
    pending: &mut Vec<(usize, usize)>,
) -> R<u32> {
    let tb = *bidx.get(to).ok_or_else(|| format!("unknown label {}", to))?;
    let cp = lw.copies.len() as u32;
    for i in &blocks[tb].insts {
        if let IOp::Phi(t, inc) = &i.op {
            let mut found = None;
            for (v, l) in inc {
                if *l == blocks[from].label || (from == 0 && !bidx.contains_key(l.as_str())) {
                    found = Some(v);
                    break;
                }
            }
            let v = found.ok_or_else(|| format!("phi without edge from {}", blocks[from].label))?;
            let src = lw.vals(t, v)?;
            let d = lw.slots[i.res.as_ref().unwrap()].0;
            for (k, s) in src.iter().enumerate() {
                lw.copies.push((d + k as u32, *s));
            }
        } else if let IOp::Nop = i.op {
        } else {
            break;
        }
    }
    let n = lw.copies.len() as u32 - cp;
    let ei = lw.edges.len();
    lw.edges.push(Edge { pc: 0, cp, n });
    pending.push((ei, tb));
    Ok(ei as u32)
}

fn pred(p: &str) -> R<Pred> {
    Ok(match p {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        _ => return Err(format!("predicate {}", p)),
    })
}

fn lower_inst(
    lw: &mut Lower,
    i: &Inst,
    bi: usize,
    blocks: &[Block],
    bidx: &HashMap<&str, usize>,
    pending: &mut Vec<(usize, usize)>,
) -> R<()> {
    match &i.op {
        IOp::Phi(..) | IOp::Nop => {}
        IOp::Landing => lw.emit(Op::Unreachable),
        IOp::Bad(s) => return Err(s.clone()),
        IOp::Unreachable => lw.emit(Op::Unreachable),
        IOp::Bin(o, t, a, b) => {
            let d = lw.res(i);
            if is_wide(t) {
                let (va, vb) = (lw.vals(t, a)?, lw.vals(t, b)?);
                if va.len() != 2 {
                    return Err("wide int".into());
                }
                let wo = match o.as_str() {
                    "mul" => WOp::Mul,
                    "add" => WOp::Add,
                    "sub" => WOp::Sub,
                    "udiv" => WOp::UDiv,
                    "urem" => WOp::URem,
                    "shl" => WOp::Shl,
                    "lshr" => WOp::LShr,
                    "and" => WOp::And,
                    "or" => WOp::Or,
                    "xor" => WOp::Xor,
                    "sdiv" => WOp::SDiv,
                    "srem" => WOp::SRem,
                    "ashr" => WOp::AShr,
                    _ => return Err(format!("wide {}", o)),
                };
                wide(lw, wo, d, &va, &vb);
                return Ok(());
            }
            let (va, vb) = (lw.vals(t, a)?, lw.vals(t, b)?);
            let w = Lower::elem_w(t)?;
            for k in 0..va.len() {
                let (x, y) = (va[k], vb[k]);
                let d = d + k as u32;
                let op = match o.as_str() {
                    "fadd" => Op::FBin { o: FB::Add, d, a: x, b: y },
                    "fsub" => Op::FBin { o: FB::Sub, d, a: x, b: y },
                    "fmul" => Op::FBin { o: FB::Mul, d, a: x, b: y },
                    "fdiv" => Op::FBin { o: FB::Div, d, a: x, b: y },
                    "frem" => Op::FBin { o: FB::Rem, d, a: x, b: y },
                    _ => {
                        let o = match o.as_str() {
                            "add" => B::Add,
                            "sub" => B::Sub,
                            "mul" => B::Mul,
                            "udiv" => B::UDiv,
                            "sdiv" => B::SDiv,
                            "urem" => B::URem,
                            "srem" => B::SRem,
                            "shl" => B::Shl,
                            "lshr" => B::LShr,
                            "ashr" => B::AShr,
                            "and" => B::And,
                            "or" => B::Or,
                            "xor" => B::Xor,
                            _ => return Err(format!("bin {}", o)),
                        };
                        Op::Bin { o, w, d, a: x, b: y }
                    }
                };
                let op = match op {
                    Op::FBin { o, d, a, b } if w != 64 => {
                        let o = match o {
                            FB::Add => SOp::Add,
                            FB::Sub => SOp::Sub,
                            FB::Mul => SOp::Mul,
                            FB::Div => SOp::Div,
                            _ => SOp::Rem,
                        };
                        Op::F32 { o, d, a, b }
                    }
                    op => op,
                };
                lw.emit(op);
            }
        }
        IOp::Icmp(p, t, a, b) => {
            let d = lw.res(i);
            let (va, vb) = (lw.vals(t, a)?, lw.vals(t, b)?);
            if is_wide(t) {
                let wo = match p.as_str() {
                    "eq" => WOp::IcmpEq,
                    "ne" => WOp::IcmpNe,
                    "ult" => WOp::IcmpUlt,
                    "ule" => WOp::IcmpUle,
                    "ugt" => WOp::IcmpUgt,
                    "uge" => WOp::IcmpUge,
                    "slt" => WOp::IcmpSlt,
                    "sle" => WOp::IcmpSle,
                    "sgt" => WOp::IcmpSgt,
                    "sge" => WOp::IcmpSge,
                    _ => return Err("wide icmp".into()),
                };
                wide(lw, wo, d, &va, &vb);
                return Ok(());
            }
            let w = Lower::elem_w(t)?;
            let p = pred(p)?;
            for k in 0..va.len() {
                lw.emit(Op::Icmp { p, w, d: d + k as u32, a: va[k], b: vb[k] });
            }
        }
        IOp::Fcmp(p, t, a, b) => {
            let d = lw.res(i);
            let (x, y) = (lw.vals(t, a)?, lw.vals(t, b)?);
            let single = Lower::elem_w(t)? == 32;
            let bits = match p.as_str() {
                "false" => 0,
                "oeq" => 1,
                "ogt" => 2,
                "oge" => 3,
                "olt" => 4,
                "ole" => 5,
                "one" => 6,
                "ord" => 7,
                "uno" => 8,
                "ueq" => 9,
                "ugt" => 10,
                "uge" => 11,
                "ult" => 12,
                "ule" => 13,
                "une" => 14,
                "true" => 15,
                _ => return Err("fcmp pred".into()),
            };
            for k in 0..x.len() {
                let d = d + k as u32;
                lw.emit(if single { Op::F32 { o: SOp::Cmp(bits), d, a: x[k], b: y[k] } } else { Op::Fcmp { p: bits, d, a: x[k], b: y[k] } });
            }
        }
        IOp::Fneg(t, v) => {
            let d = lw.res(i);
            let a = lw.vals(t, v)?;
            let single = Lower::elem_w(t)? == 32;
            for k in 0..a.len() {
                let d = d + k as u32;
                lw.emit(if single { Op::F32 { o: SOp::Neg, d, a: a[k], b: a[k] } } else { Op::FUn { o: FU::Neg, d, a: a[k] } });
            }
        }
        IOp::Cast(o, t, v, to) => {
            let d = lw.res(i);
            let a = lw.vals(t, v)?;
            if o == "bitcast" {
                let (ns, nd) = (t.nscalars(), to.nscalars());
                if ns == nd {
                    for k in 0..ns {
                        lw.emit(Op::Mov { d: d + k as u32, a: a[k] });
                    }
                    return Ok(());
                }
                if let (Ty::Vec(n, e), Ty::Int(w)) = (t, to) {
                    if **e == Ty::Int(1) && *n as u32 == *w && *w <= 64 {
                        // lanes are consecutive slots; constants are copied to slots first
                        let base = if a.iter().any(|x| x & CONST_BIT != 0) {
                            let s = lw.new_slots(ns);
                            for k in 0..ns {
                                lw.emit(Op::Mov { d: s + k as u32, a: a[k] });
                            }
                            s
                        } else {
                            a[0]
                        };
                        lw.emit(Op::GatherBits { d, a: base, n: *n as u8 });
                        return Ok(());
                    }
                }
                // general: through little-endian byte composition of scalars of equal size
                let fs = t.flatten();
                let fd = to.flatten();
                if fs.len() < fd.len() && fd.len() % fs.len() == 0 {
                    // split each source scalar
                    let r = fd.len() / fs.len();
                    let eb = fd[0].bits;
                    for k in 0..fd.len() {
                        let src = a[k / r];
                        let sh = (k % r) as u64 * eb as u64;
                        let c = lw.cst(sh);
                        let tmp = lw.new_slots(1);
                        lw.emit(Op::Bin { o: B::LShr, w: fs[0].bits, d: tmp, a: src, b: c });
                        lw.emit(Op::Trunc { d: d + k as u32, a: tmp, from: fs[0].bits, to: eb });
                    }
                    return Ok(());
                }
                if fs.len() > fd.len() && fs.len() % fd.len() == 0 {
                    let r = fs.len() / fd.len();
                    let eb = fs[0].bits;
                    let db = fd[0].bits;
                    for k in 0..fd.len() {
                        let mut acc = lw.cst(0);
                        for j in 0..r {
                            let z = lw.new_slots(3);
                            lw.emit(Op::Zext { d: z, a: a[k * r + j], from: eb, to: db });
                            let c = lw.cst(j as u64 * eb as u64);
                            lw.emit(Op::Bin { o: B::Shl, w: db, d: z + 1, a: z, b: c });
                            lw.emit(Op::Bin { o: B::Or, w: db, d: z + 2, a: acc, b: z + 1 });
                            acc = z + 2;
                        }
                        lw.emit(Op::Mov { d: d + k as u32, a: acc });
                    }
                    return Ok(());
                }
                return Err(format!("bitcast {:?} to {:?}", t, to));
            }
            if is_wide(t) || is_wide(to) {
                match o.as_str() {
                    "zext" => {
                        let f = Lower::elem_w(t)?;
                        lw.emit(Op::Zext { d, a: a[0], from: f, to: 64 });
                        let z = lw.cst(0);
                        lw.emit(Op::Mov { d: d + 1, a: z });
                    }
                    "sext" => {
                        let f = Lower::elem_w(t)?;
                        lw.emit(Op::Sext { d, a: a[0], from: f, to: 64 });
                        let c = lw.cst(63);
                        lw.emit(Op::Bin { o: B::AShr, w: 64, d: d + 1, a: d, b: c });
                    }
                    "trunc" => {
                        let w = Lower::elem_w(to)?;
                        lw.emit(Op::Trunc { d, a: a[0], from: 64, to: w });
                    }
                    _ => return Err(format!("wide cast {}", o)),
                }
                return Ok(());
            }
            let (f, w) = (Lower::elem_w(t)?, Lower::elem_w(to)?);
            for k in 0..a.len() {
                let d = d + k as u32;
                let x = a[k];
                let op = match o.as_str() {
                    "trunc" => Op::Trunc { d, a: x, from: f, to: w },
                    "zext" => Op::Zext { d, a: x, from: f, to: w },
                    "sext" => Op::Sext { d, a: x, from: f, to: w },
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if f > w {
                            Op::Trunc { d, a: x, from: f, to: w }
                        } else {
                            Op::Zext { d, a: x, from: f, to: w }
                        }
                    }
                    "fptoui" | "fptosi" => {
                        if f != 64 {
                            Op::F32 { o: SOp::ToInt(o == "fptosi", w), d, a: x, b: x }
                        } else {
                            Op::FToI { d, a: x, w, signed: o == "fptosi" }
                        }
                    }
                    "uitofp" | "sitofp" => {
                        if w != 64 {
                            Op::F32 { o: SOp::FromInt(o == "sitofp", f), d, a: x, b: x }
                        } else {
                            Op::IToF { d, a: x, w: f, signed: o == "sitofp" }
                        }
                    }
                    "fptrunc" if f == 64 && w == 32 => Op::F32 { o: SOp::From64, d, a: x, b: x },
                    "fpext" if f == 32 && w == 64 => Op::F32 { o: SOp::To64, d, a: x, b: x },
                    _ => return Err(format!("cast {}", o)),
                };
                lw.emit(op);
            }
        }
        IOp::Select(ct, c, t, a, b) => {
            let d = lw.res(i);
            let vc = lw.vals(ct, c)?;
            let (va, vb) = (lw.vals(t, a)?, lw.vals(t, b)?);
            let fl = t.flatten();
            for k in 0..va.len() {
                let cc = if vc.len() == 1 { vc[0] } else { vc[k] };
                lw.emit(Op::Select { d: d + k as u32, c: cc, a: va[k], b: vb[k], w: fl[k].bits, fl: fl[k].float });
            }
        }
        IOp::Load(t, p) => {
            let d = lw.res(i);
            let a = lw.val1(&Ty::Ptr, p)?;
            let fl = load_scalars(t)?;
            for (k, s) in fl.iter().enumerate() {
                lw.emit(Op::Load { d: d + k as u32, a, off: s.off as i64, bytes: (s.bits + 7) / 8, bits: s.bits });
            }
        }
        IOp::Store(t, v, p) => {
            let a = lw.val1(&Ty::Ptr, p)?;
            let vs = lw.vals(t, v)?;
            let fl = load_scalars(t)?;
            for (k, s) in fl.iter().enumerate() {
                lw.emit(Op::Store { v: vs[k], a, off: s.off as i64, bytes: (s.bits + 7) / 8 });
            }
        }
        IOp::Gep(t, b, idx, _) => {
            let d = lw.res(i);
            let base = lw.val1(&Ty::Ptr, b)?;
            let mut off = 0i64;
            let mut cur = t.clone();
            let mut var: Vec<(u32, u8, i64)> = Vec::new();
            for (k, (it, iv)) in idx.iter().enumerate() {
                let iw = if let Ty::Int(w) = it { *w } else { 64 };
                let cv = match iv {
                    Val::Int(x) => Some(sext(*x as u64 & mask(iw), iw)),
                    Val::Zero | Val::Undef => Some(0),
                    _ => None,
                };
                let scale;
                let next;
                if k == 0 {
                    scale = cur.size() as i64;
                    next = cur.clone();
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let c = cv.ok_or("variable struct index")?;
                            let (o, t2) = cur.field_off(c as usize);
                            off += o as i64;
                            let t2 = t2.clone();
                            cur = t2;
                            continue;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            scale = e.size() as i64;
                            next = (**e).clone();
                        }
                        _ => return Err("gep".into()),
                    }
                }
                cur = next;
                match cv {
                    Some(c) => off += c * scale,
                    None => {
                        let v = lw.val1(it, iv)?;
                        var.push((v, iw as u8, scale));
                    }
                }
            }
            if var.is_empty() {
                lw.emit(Op::GepK { d, a: base, off });
            } else {
                let mut b = base;
                for (k, (v, iw, scale)) in var.iter().enumerate() {
                    lw.emit(Op::Gep1 { d, a: b, off: if k == 0 { off } else { 0 }, i: *v, iw: *iw, scale: *scale });
                    b = d;
                }
            }
        }
        IOp::Alloca(t, n, al) => {
            let d = lw.res(i);
            let c = lw.val1(&Ty::Int(64), n)?;
            lw.emit(Op::Alloca { d, size: t.size(), align: (*al).max(1), n: c });
        }
        IOp::Br(l) => {
            let e = mk_edge(lw, bi, l, blocks, bidx, pending)?;
            lw.emit(Op::Br { e });
        }
        IOp::CondBr(c, a, b) => {
            let c = lw.val1(&Ty::Int(1), c)?;
            let t = mk_edge(lw, bi, a, blocks, bidx, pending)?;
            let f = mk_edge(lw, bi, b, blocks, bidx, pending)?;
            lw.emit(Op::CondBr { c, t, f });
        }
        IOp::Switch(t, v, dl, cs) => {
            let w = Lower::elem_w(t)?;
            let v = lw.val1(t, v)?;
            let default = mk_edge(lw, bi, dl, blocks, bidx, pending)?;
            let mut by_label: HashMap<String, u32> = HashMap::new();
            by_label.insert(dl.clone(), default);
            let mut cases = Vec::new();
            let mut map = HashMap::new();
            for (c, l) in cs {
                let e = match by_label.get(l) {
                    Some(e) => *e,
                    None => {
                        let e = mk_edge(lw, bi, l, blocks, bidx, pending)?;
                        by_label.insert(l.clone(), e);
                        e
                    }
                };
                let mut o = Vec::new();
                const_scalars(lw.gaddr, lw.fidx, lw.ext, t, c, &mut o)?;
                cases.push((o[0], e));
                map.insert(o[0], e);
            }
            let tab = lw.switches.len() as u32;
            lw.switches.push(SwitchTab { cases, map, default });
            lw.emit(Op::Switch { v, w, tab });
        }
        IOp::Ret(v) => {
            let a = lw.args.len() as u32;
            let mut n = 0;
            if let Some((t, v)) = v {
                let vs = lw.vals(t, v)?;
                n = vs.len() as u32;
                lw.args.extend(vs);
            }
            lw.emit(Op::Ret { args: a, n });
        }
        IOp::ExtractValue(t, v, ix) => {
            let d = lw.res(i);
            let vs = lw.vals(t, v)?;
            let (o, n) = agg_pos(t, ix);
            for k in 0..n {
                lw.emit(Op::Mov { d: d + k as u32, a: vs[o + k] });
            }
        }
        IOp::InsertValue(t, v, t2, v2, ix) => {
            let d = lw.res(i);
            let vs = lw.vals(t, v)?;
            let es = lw.vals(t2, v2)?;
            let (o, n) = agg_pos(t, ix);
            for k in 0..vs.len() {
                let a = if k >= o && k < o + n { es[k - o] } else { vs[k] };
                lw.emit(Op::Mov { d: d + k as u32, a });
            }
        }
        IOp::ExtractElement(t, v, ix) => {
            let d = lw.res(i);
            let vs = lw.vals(t, v)?;
            match ix {
                Val::Int(x) => lw.emit(Op::Mov { d, a: vs[*x as usize] }),
                Val::Zero => lw.emit(Op::Mov { d, a: vs[0] }),
                _ => return Err("variable extractelement".into()),
            }
        }
        IOp::InsertElement(t, v, e, ix) => {
            let d = lw.res(i);
            let vs = lw.vals(t, v)?;
            let et = if let Ty::Vec(_, e) = t { (**e).clone() } else { return Err("insertelement".into()) };
            let ev = lw.val1(&et, e)?;
            let x = match ix {
                Val::Int(x) => *x as usize,
                Val::Zero => 0,
                _ => return Err("variable insertelement".into()),
            };
            for k in 0..vs.len() {
                lw.emit(Op::Mov { d: d + k as u32, a: if k == x { ev } else { vs[k] } });
            }
        }
        IOp::Shuffle(t, a, b, mt, mk) => {
            let d = lw.res(i);
            let va = lw.vals(t, a)?;
            let vb = lw.vals(t, b)?;
            let mut ms = Vec::new();
            const_scalars(lw.gaddr, lw.fidx, lw.ext, mt, mk, &mut ms)?;
            for (k, x) in ms.iter().enumerate() {
                let x = *x as usize;
                let s = if x < va.len() { va[x] } else { vb[x - va.len()] };
                lw.emit(Op::Mov { d: d + k as u32, a: s });
            }
        }
        IOp::Freeze(t, v) => {
            let d = lw.res(i);
            let vs = lw.vals(t, v)?;
            for k in 0..vs.len() {
                lw.emit(Op::Mov { d: d + k as u32, a: vs[k] });
            }
        }
        IOp::AtomicRmw(o, t, p, v) => {
            let d = lw.res(i);
            let p = lw.val1(&Ty::Ptr, p)?;
            let v = lw.val1(t, v)?;
            let code = match o.as_str() {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                "umax" => 6,
                "umin" => 7,
                _ => return Err(format!("rmw {}", o)),
            };
            lw.emit(Op::Rmw { o: code, bytes: t.size() as u8, d, p, v });
        }
        IOp::CmpXchg(t, p, e, n) => {
            let d = lw.res(i);
            let p = lw.val1(&Ty::Ptr, p)?;
            let e = lw.val1(t, e)?;
            let n = lw.val1(t, n)?;
            lw.emit(Op::CmpXchg { bytes: t.size() as u8, d, p, e, n });
        }
        IOp::Call { ret, callee, args, invoke } => {
            lower_call(lw, i, ret, callee, args)?;
            if let Some(l) = invoke {
                let e = mk_edge(lw, bi, l, blocks, bidx, pending)?;
                lw.emit(Op::Br { e });
            }
        }
    }
    Ok(())
}

fn load_scalars(t: &Ty) -> R<Vec<Scalar>> {
    if let Ty::Vec(_, e) = t {
        if let Ty::Int(w) = **e {
            if w % 8 != 0 {
                return Err("sub-byte vector memory access".into());
            }
        }
    }
    Ok(t.flatten())
}

fn agg_pos(t: &Ty, ix: &[u64]) -> (usize, usize) {
    let mut o = 0;
    let mut c = t.clone();
    for i in ix {
        for k in 0..*i as usize {
            o += c.field_off(k).1.nscalars();
        }
        let n = c.field_off(*i as usize).1.clone();
        c = n;
    }
    (o, c.nscalars())
}

fn wide(lw: &mut Lower, o: WOp, d: u32, a: &[u32], b: &[u32]) {
    // operands copied to 4 consecutive slots
    let s = lw.new_slots(4);
    lw.emit(Op::Mov { d: s, a: a[0] });
    lw.emit(Op::Mov { d: s + 1, a: a[1] });
    if b.len() == 2 {
        lw.emit(Op::Mov { d: s + 2, a: b[0] });
        lw.emit(Op::Mov { d: s + 3, a: b[1] });
    } else {
        let z = lw.cst(0);
        lw.emit(Op::Mov { d: s + 2, a: z });
        lw.emit(Op::Mov { d: s + 3, a: z });
    }
    lw.emit(Op::Wide { o, d, a: s, b: s + 2, n: 2 });
}

fn lower_call(lw: &mut Lower, i: &Inst, ret: &Ty, callee: &Callee, args: &[(Ty, Val)]) -> R<()> {
    let name = match callee {
        Callee::Name(n) => n.clone(),
        Callee::Asm => {
            // black_box / barriers: no effect modelled, result undefined
            return Ok(());
        }
        Callee::Local(n) => {
            let p = lw.val1(&Ty::Ptr, &Val::Local(n.clone()))?;
            return call_ind(lw, i, ret, p, args);
        }
        Callee::Val(v) => {
            let p = lw.val1(&Ty::Ptr, v)?;
            return call_ind(lw, i, ret, p, args);
        }
    };
    if let Some(n) = name.strip_prefix("llvm.") {
        return intrinsic(lw, i, n, ret, args);
    }
    let d = lw.res_n(i, ret);
    let mut vs = Vec::new();
    for (t, v) in args {
        if *t == Ty::Meta {
            continue;
        }
        vs.extend(lw.vals(t, v)?);
    }
    let a = lw.args.len() as u32;
    let n = vs.len() as u32;
    lw.args.extend(vs);
    if let Some(f) = lw.fidx.get(&name) {
        if let Some(b) = lw.builtin_of[*f as usize] {
            lw.emit(Op::CallB { b, args: a, n, d, nr: ret.nscalars() as u8 });
        } else {
            lw.emit(Op::Call { f: *f, args: a, n, d });
        }
    } else if let Some(e) = lw.ext.get(&name) {
        let b = lw.ext_builtin[*e as usize];
        lw.emit(Op::CallB { b, args: a, n, d, nr: ret.nscalars() as u8 });
    } else {
        return Err(format!("call to unknown {}", name));
    }
    Ok(())
}

impl<'a, 'm> Lower<'a, 'm> {
    fn res_n(&mut self, i: &Inst, ret: &Ty) -> u32 {
        match &i.res {
            Some(n) => self.slots[n].0,
            None => {
                let n = ret.nscalars();
                self.new_slots(n)
            }
        }
    }
}

fn call_ind(lw: &mut Lower, i: &Inst, ret: &Ty, p: u32, args: &[(Ty, Val)]) -> R<()> {
    let d = lw.res_n(i, ret);
    let mut vs = Vec::new();
    for (t, v) in args {
        vs.extend(lw.vals(t, v)?);
    }
    let a = lw.args.len() as u32;
    let n = vs.len() as u32;
    lw.args.extend(vs);
    lw.emit(Op::CallInd { p, args: a, n, d, nr: ret.nscalars() as u8 });
    Ok(())
}

fn intrinsic(lw: &mut Lower, i: &Inst, n: &str, ret: &Ty, args: &[(Ty, Val)]) -> R<()> {
    let base: Vec<&str> = n.split('.').collect();
    match base[0] {
        "assume" | "lifetime" | "invariant" | "dbg" | "donothing" | "sideeffect" | "prefetch" => return Ok(()),
        "experimental" => {
            if n.contains("noalias.scope") {
                return Ok(());
            }
            return Err(format!("intrinsic {}", n));
        }
        "trap" | "ubsantrap" | "debugtrap" => {
            lw.emit(Op::Unreachable);
            return Ok(());
        }
        _ => {}
    }
    let d = lw.res_n(i, ret);
    let vs: Vec<Vec<u32>> = {
        let mut r = Vec::new();
        for (t, v) in args {
            r.push(if *t == Ty::Meta { vec![] } else { lw.vals(t, v)? });
        }
        r
    };
    let w = if let Some((t, _)) = args.get(0) { Lower::elem_w(t).unwrap_or(0) } else { 0 };
    match base[0] {
        "memcpy" | "memmove" => {
            lw.emit(Op::Memcpy { d: vs[0][0], s: vs[1][0], n: vs[2][0] });
        }
        "memset" => {
            lw.emit(Op::Memset { d: vs[0][0], v: vs[1][0], n: vs[2][0] });
        }
        "umax" | "umin" | "smax" | "smin" | "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
            if n.contains("with.overflow") {
                if is_wide(&args[0].0) {
                    let o = match base[0] {
                        "uadd" => WOp::OUAdd,
                        "usub" => WOp::OUSub,
                        "umul" => WOp::OUMul,
                        "sadd" => WOp::OSAdd,
                        "ssub" => WOp::OSSub,
                        "smul" => WOp::OSMul,
                        _ => return Err(n.to_string()),
                    };
                    let (a, b) = (vs[0].clone(), vs[1].clone());
                    wide(lw, o, d, &a, &b);
                    return Ok(());
                }
                let o = match base[0] {
                    "uadd" => Ovf::UAdd,
                    "usub" => Ovf::USub,
                    "umul" => Ovf::UMul,
                    "sadd" => Ovf::SAdd,
                    "ssub" => Ovf::SSub,
                    "smul" => Ovf::SMul,
                    _ => return Err(n.to_string()),
                };
                lw.emit(Op::OvfOp { o, w, d, a: vs[0][0], b: vs[1][0] });
                return Ok(());
            }
            if is_wide(&args[0].0) {
                let o = match base[0] {
                    "umax" => WOp::UMax,
                    "umin" => WOp::UMin,
                    "smax" => WOp::SMax,
                    "smin" => WOp::SMin,
                    _ => return Err(format!("wide {}", n)),
                };
                let (a, b) = (vs[0].clone(), vs[1].clone());
                wide(lw, o, d, &a, &b);
                return Ok(());
            }
            let o = match base[0] {
                "umax" => B::UMax,
                "umin" => B::UMin,
                "smax" => B::SMax,
                "smin" => B::SMin,
                "usub" => B::USubSat,
                "uadd" => B::UAddSat,
                "ssub" => B::SSubSat,
                "sadd" => B::SAddSat,
                _ => return Err(n.to_string()),
            };
            for k in 0..vs[0].len() {
                lw.emit(Op::Bin { o, w, d: d + k as u32, a: vs[0][k], b: vs[1][k] });
            }
        }
        "ctlz" | "cttz" if is_wide(&args[0].0) => {
            let o = if base[0] == "ctlz" { WOp::Ctlz } else { WOp::Cttz };
            let a = vs[0].clone();
            wide(lw, o, d, &a, &[]);
        }
        "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "abs" => {
            if is_wide(&args[0].0) {
                return Err(format!("wide {}", n));
            }
            let o = match base[0] {
                "ctlz" => BU::Ctlz,
                "cttz" => BU::Cttz,
                "ctpop" => BU::Ctpop,
                "bswap" => BU::Bswap,
                "bitreverse" => BU::BitRev,
                _ => BU::Abs,
            };
            for k in 0..vs[0].len() {
                lw.emit(Op::Un { o, w, d: d + k as u32, a: vs[0][k] });
            }
        }
        "fshl" | "fshr" | "ucmp" | "scmp" if is_wide(&args[0].0) => return Err(format!("wide {}", n)),
        "fshl" | "fshr" => {
            lw.emit(Op::Fsh { left: base[0] == "fshl", w, d, a: vs[0][0], b: vs[1][0], c: vs[2][0] });
        }
        "ucmp" | "scmp" => {
            let dw = Lower::elem_w(ret)?;
            lw.emit(Op::Cmp3 { signed: base[0] == "scmp", w, dw, d, a: vs[0][0], b: vs[1][0] });
        }
        "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
            let single = w == 32;
            let o = match base[0] {
                "fabs" => FU::Abs,
                "sqrt" => FU::Sqrt,
                "floor" => FU::Floor,
                "ceil" => FU::Ceil,
                "trunc" => FU::Trunc,
                "round" => FU::Round,
                _ => FU::RoundEven,
            };
            let so = match o {
                FU::Abs => SOp::Abs,
                FU::Sqrt => SOp::Sqrt,
                FU::Floor => SOp::Floor,
                FU::Ceil => SOp::Ceil,
                FU::Trunc => SOp::Trunc,
                FU::Round => SOp::Round,
                _ => SOp::RoundEven,
            };
            for k in 0..vs[0].len() {
                let (d, a) = (d + k as u32, vs[0][k]);
                lw.emit(if single { Op::F32 { o: so, d, a, b: a } } else { Op::FUn { o, d, a } });
            }
        }
        "maxnum" | "minnum" | "maximumnum" | "minimumnum" | "maximum" | "minimum" | "copysign" => {
            let single = w == 32;
            let o = match base[0] {
                "copysign" => FB::CopySign,
                x if x.starts_with("max") => FB::Max,
                _ => FB::Min,
            };
            let so = match o {
                FB::CopySign => SOp::CopySign,
                FB::Max => SOp::Max,
                _ => SOp::Min,
            };
            for k in 0..vs[0].len() {
                let (d, a, b) = (d + k as u32, vs[0][k], vs[1][k]);
                lw.emit(if single { Op::F32 { o: so, d, a, b } } else { Op::FBin { o, d, a, b } });
            }
        }
        "fma" | "fmuladd" | "powi" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "exp" | "exp2" | "exp10"
        | "log" | "log2" | "log10" | "pow" | "atan2" => {
            if args[0].0 != Ty::F64 {
                return Err(format!("intrinsic {}", n));
            }
            let b = match base[0] {
                "fma" | "fmuladd" => Builtin::Fma,
                "powi" => Builtin::Powi,
                x => Builtin::Libm(LIBM.iter().position(|y| *y == x).unwrap() as u8),
            };
            let all: Vec<u32> = vs.into_iter().flatten().collect();
            let a = lw.args.len() as u32;
            let n = all.len() as u32;
            lw.args.extend(all);
            lw.emit(Op::CallB { b, args: a, n, d, nr: 1 });
        }
        "fptoui" | "fptosi" => {
            // llvm.fptoui.sat
            let rw = Lower::elem_w(ret)?;
            if args[0].0 == Ty::F32 {
                lw.emit(Op::F32 { o: SOp::ToInt(base[0] == "fptosi", rw), d, a: vs[0][0], b: vs[0][0] });
                return Ok(());
            }
            if args[0].0 != Ty::F64 {
                return Err(format!("intrinsic {}", n));
            }
            lw.emit(Op::FToI { d, a: vs[0][0], w: rw, signed: base[0] == "fptosi" });
        }
        "is" if n.starts_with("is.constant") => {
            let z = lw.cst(0);
            lw.emit(Op::Mov { d, a: z });
        }
        "is" if n.starts_with("is.fpclass") => {
            let mk = match &args[1].1 {
                Val::Int(x) => *x as u32,
                _ => return Err("is.fpclass".into()),
            };
            lw.emit(Op::FIsClass { d, a: vs[0][0], mask: mk });
        }
        "threadlocal" | "expect" | "launder" | "strip" | "ptr" | "ssa" => {
            for k in 0..vs[0].len() {
                lw.emit(Op::Mov { d: d + k as u32, a: vs[0][k] });
            }
        }
        "load" if n.starts_with("load.relative") => {
            lw.emit(Op::LoadRel { d, p: vs[0][0], o: vs[1][0] });
        }
        "vector" if n.starts_with("vector.reduce.") => {
            let k = base[2];
            let w = Lower::elem_w(&args[0].0)?;
            let o = match k {
                "add" => B::Add,
                "or" => B::Or,
                "and" => B::And,
                "xor" => B::Xor,
                "umax" => B::UMax,
                "umin" => B::UMin,
                "mul" => B::Mul,
                _ => return Err(format!("intrinsic {}", n)),
            };
            let mut acc = vs[0][0];
            for j in 1..vs[0].len() {
                let t = lw.new_slots(1);
                lw.emit(Op::Bin { o, w, d: t, a: acc, b: vs[0][j] });
                acc = t;
            }
            lw.emit(Op::Mov { d, a: acc });
        }
        "x86" => {
            if n.contains("pause") {
                return Ok(());
            }
            return Err(format!("intrinsic {}", n));
        }
        _ => return Err(format!("intrinsic {}", n)),
    }
    Ok(())
}
