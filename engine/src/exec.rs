//! Concolic interpreter: concrete execution of the lowered IR with a symbolic shadow.
use crate::expr::*;
use crate::lower::*;
use std::collections::HashMap;

pub const ARENA: usize = 96 << 20;
const STACK: usize = 16 << 20;

pub struct Mem {
    pub m: Vec<u8>,
    pub sh: Vec<u32>,
    pub fl: Vec<u8>,
    pub flagged: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum Alt {
    Flip,
    Pin(Id),
    Multi(Vec<Id>),
    None,
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub cond: Id,
    pub alt: Alt,
    pub is_assert: bool,
    pub site: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Panic(String),
    AllowedPanic(String),
    AssertFail(u64),
    AssumeFail,
    Budget,
    Stack,
    Heap,
    Engine(String),
}

pub struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    ret: u32, // destination slot (absolute)
    sp: u64,
    hash: Option<(usize, u64, u64)>, // the result is replaced with an abstract hash value
}

pub struct Machine<'p> {
    pub prog: &'p Program,
    pub mem: Mem,
    pub pool: Pool,
    regs: Vec<u64>,
    rsh: Vec<u32>,
    frames: Vec<Frame>,
    heap: u64,
    heap_start: u64,
    stack_base: u64,
    sp: u64,
    sp_max: u64,
    free: HashMap<u64, Vec<u64>>,
    pub inputs: Vec<u64>,
    pub used: Vec<u64>,
    pub vinfo: Vec<VarInfo>,
    pub trace: Vec<Dec>,
    path: std::collections::HashSet<Id>,
    pub steps: u64,
    pub budget: u64,
    pub reach: HashMap<u64, u64>,
    pub obs: u64,
    pub allow_panic: bool,
    pub hash_mode: u64,
    pub incomplete: HashMap<String, u64>,
    pub covered: Vec<bool>,
    pub asserts: u64, // assertions evaluated (concrete or symbolic) on this path
    pub sym_asserts: u64,
    pub sym_branches: u64,
    pub prefix_check: Option<(usize, u64)>,
    pub roll: u64,
    pub diverged: bool,
    pub seed: u64,
    pub rand_fill: bool,
    hash_tab: HashMap<u64, (u64, u32)>,
    // negative doubles which were turned into the integer that orders like them (f64::total_cmp)
    keyed: Vec<(u32, u64)>,
    pub decided_end: bool,
}

type X<T> = Result<T, Outcome>;

fn eng<T>(s: impl Into<String>) -> X<T> {
    Err(Outcome::Engine(s.into()))
}

impl Mem {
    fn new() -> Mem {
        Mem { m: vec![0; ARENA], sh: vec![0; ARENA], fl: vec![0; ARENA / 64 + 2], flagged: Vec::new() }
    }
    #[inline]
    fn flag(&mut self, b: usize) {
        if self.fl[b] == 0 {
            self.fl[b] = 1;
            self.flagged.push(b as u32);
        }
    }
    fn clear_shadow(&mut self) {
        for b in self.flagged.drain(..) {
            let s = b as usize * 64;
            self.sh[s..s + 64].fill(0);
            self.fl[b as usize] = 0;
        }
    }
    #[inline]
    fn any_sym(&self, off: usize, n: usize) -> bool {
        if n == 0 {
            return false;
        }
        let (a, b) = (off / 64, (off + n - 1) / 64);
        for k in a..=b {
            if self.fl[k] != 0 {
                return true;
            }
        }
        false
    }
}

#[inline]
fn rd(m: &[u8], off: usize, n: usize) -> u64 {
    unsafe {
        let p = m.as_ptr().add(off);
        match n {
            1 => *p as u64,
            2 => (p as *const u16).read_unaligned() as u64,
            4 => (p as *const u32).read_unaligned() as u64,
            8 => (p as *const u64).read_unaligned(),
            _ => {
                let mut v = 0u64;
                for i in 0..n {
                    v |= (*p.add(i) as u64) << (8 * i);
                }
                v
            }
        }
    }
}

#[inline]
fn wr(m: &mut [u8], off: usize, n: usize, v: u64) {
    unsafe {
        let p = m.as_mut_ptr().add(off);
        match n {
            1 => *p = v as u8,
            2 => (p as *mut u16).write_unaligned(v as u16),
            4 => (p as *mut u32).write_unaligned(v as u32),
            8 => (p as *mut u64).write_unaligned(v),
            _ => {
                for i in 0..n {
                    *p.add(i) = (v >> (8 * i)) as u8;
                }
            }
        }
    }
}

macro_rules! g {
    ($s:ident, $c:ident, $base:ident, $o:expr) => {{
        let o = $o;
        if o & CONST_BIT != 0 {
            unsafe { *$c.consts.get_unchecked((o & !CONST_BIT) as usize) }
        } else {
            unsafe { *$s.regs.get_unchecked(($base + o) as usize) }
        }
    }};
}
macro_rules! h {
    ($s:ident, $base:ident, $o:expr) => {{
        let o = $o;
        if o & CONST_BIT != 0 {
            0u32
        } else {
            unsafe { *$s.rsh.get_unchecked(($base + o) as usize) }
        }
    }};
}
macro_rules! set {
    ($s:ident, $base:ident, $d:expr, $v:expr, $h:expr) => {{
        let i = ($base + $d) as usize;
        unsafe {
            *$s.regs.get_unchecked_mut(i) = $v;
            *$s.rsh.get_unchecked_mut(i) = $h;
        }
    }};
}

pub fn conc_bin(o: B, w: u8, a: u64, b: u64) -> Option<u64> {
    let m = mask(w);
    let sa = || sext(a, w as u32);
    let sb = || sext(b, w as u32);
    let half = || 1i128 << (w - 1);
    Some(
        (match o {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            B::SDiv => {
                if b == 0 {
                    return None;
                }
                sa().wrapping_div(sb()) as u64
            }
            B::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            B::SRem => {
                if b == 0 {
                    return None;
                }
                sa().wrapping_rem(sb()) as u64
            }
            B::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            B::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            B::AShr => (sa() >> b.min(w as u64 - 1)) as u64,
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::UMin => a.min(b),
            B::UMax => a.max(b),
            B::SMin => {
                if sa() < sb() {
                    a
                } else {
                    b
                }
            }
            B::SMax => {
                if sa() > sb() {
                    a
                } else {
                    b
                }
            }
            B::USubSat => a.saturating_sub(b),
            B::UAddSat => (a as u128 + b as u128).min(m as u128) as u64,
            B::SSubSat => (sa() as i128 - sb() as i128).clamp(-half(), half() - 1) as u64,
            B::SAddSat => (sa() as i128 + sb() as i128).clamp(-half(), half() - 1) as u64,
        }) & m,
    )
}

fn conc_pred(p: Pred, w: u8, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        _ => {
            let (x, y) = (sext(a, w as u32), sext(b, w as u32));
            match p {
                Pred::Slt => x < y,
                Pred::Sle => x <= y,
                Pred::Sgt => x > y,
                _ => x >= y,
            }
        }
    }
}

impl<'p> Machine<'p> {
    pub fn new(prog: &'p Program) -> Machine<'p> {
        let mut mem = Mem::new();
        let n = prog.globals_image.len();
        mem.m[..n].copy_from_slice(&prog.globals_image);
        let stack_base = (prog.globals_end + 4095) / 4096 * 4096;
        let heap_start = stack_base + STACK as u64;
        Machine {
            prog,
            mem,
            pool: Pool::new(),
            regs: vec![0; 1 << 16],
            rsh: vec![0; 1 << 16],
            frames: Vec::new(),
            heap: heap_start,
            heap_start,
            stack_base,
            sp: stack_base,
            sp_max: stack_base,
            free: HashMap::new(),
            inputs: Vec::new(),
            used: Vec::new(),
            vinfo: Vec::new(),
            trace: Vec::new(),
            path: Default::default(),
            steps: 0,
            budget: 50_000_000,
            reach: HashMap::new(),
            obs: 0,
            allow_panic: false,
            hash_mode: 0,
            incomplete: HashMap::new(),
            covered: vec![false; prog.funcs.len()],
            asserts: 0,
            sym_asserts: 0,
            sym_branches: 0,
            prefix_check: None,
            roll: 0,
            diverged: false,
            seed: 1,
            rand_fill: false,
            hash_tab: HashMap::new(),
            keyed: Vec::new(),
            decided_end: false,
        }
    }

    fn reset(&mut self) {
        // memory: writable globals, used stack, used heap
        let ce = (self.prog.const_end - BASE) as usize;
        let n = self.prog.globals_image.len();
        if ce < n {
            self.mem.m[ce..n].copy_from_slice(&self.prog.globals_image[ce..n]);
        }
        let sb = (self.stack_base - BASE) as usize;
        let sm = (self.sp_max - BASE) as usize;
        self.mem.m[sb..sm].fill(0);
        let hs = (self.heap_start - BASE) as usize;
        let he = (self.heap - BASE) as usize;
        self.mem.m[hs..he].fill(0);
        self.mem.clear_shadow();
        self.heap = self.heap_start;
        self.sp = self.stack_base;
        self.sp_max = self.stack_base;
        self.free.clear();
        self.frames.clear();
        self.used.clear();
        self.vinfo.clear();
        self.trace.clear();
        self.path.clear();
        self.steps = 0;
        self.reach.clear();
        self.obs = 0x1234;
        self.allow_panic = false;
        self.hash_mode = 0;
        self.asserts = 0;
        self.sym_asserts = 0;
        self.sym_branches = 0;
        self.roll = 0;
        self.diverged = false;
        self.hash_tab.clear();
        self.keyed.clear();
        self.decided_end = false;
    }

    #[inline]
    fn chk(&self, addr: u64, n: u64) -> X<usize> {
        let o = addr.wrapping_sub(BASE);
        if o < 4096 || o.wrapping_add(n) > ARENA as u64 || n > ARENA as u64 {
            return eng(format!("bad address {:#x} (+{}) in {}", addr, n, self.whereami()));
        }
        Ok(o as usize)
    }
    pub fn whereami(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(6) {
            let c = &self.prog.funcs[f.f as usize];
            let pc = (f.pc as usize).saturating_sub(1).min(c.lines.len() - 1);
            s += &format!("{}@{} < ", c.short, c.lines[pc]);
        }
        s
    }

    // ---- decisions
    fn record(&mut self, cond: Id, alt: Alt, is_assert: bool) {
        if self.pool.is_const(cond).is_some() {
            return;
        }
        if !self.path.insert(cond) {
            return;
        }
        // conjunctions are kept whole as a decision, but their parts are known facts
        let mut st = vec![cond];
        while let Some(c) = st.pop() {
            let n = *self.pool.node(c);
            if n.op == E::And && n.w == 1 {
                for x in [n.a, n.b] {
                    self.path.insert(x);
                    st.push(x);
                }
            }
        }
        let hsh = self.pool.node(cond).h;
        self.roll = (self.roll ^ hsh).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        let site = match self.frames.last() {
            Some(f) => (f.f as u64) << 32 | f.pc as u64,
            None => 0,
        };
        self.trace.push(Dec { cond, alt, is_assert, site });
        if let Some((n, hh)) = self.prefix_check {
            if self.trace.len() == n && self.roll != hh {
                self.diverged = true;
            }
        }
    }

    fn branch(&mut self, e: Id, taken: bool) {
        if self.pool.is_const(e).is_some() {
            return;
        }
        let ne = self.pool.not(e);
        let cond = if taken { e } else { ne };
        // already implied by an identical earlier fact
        if self.path.contains(&cond) {
            return;
        }
        self.sym_branches += 1;
        self.record(cond, Alt::Flip, false);
    }

    /// Make a symbolic bit-vector concrete on this path; other values are other paths.
    fn pin(&mut self, e: Id, v: u64) -> X<()> {
        if e == 0 || self.pool.is_const(e).is_some() {
            return Ok(());
        }
        let n = *self.pool.node(e);
        if n.w == 0 {
            return self.pin_float(e, v);
        }
        // Pin through injective wrappers, so that the enumeration is over the core value.
        if n.w == 1 {
            self.branch(e, v == 1);
            return Ok(());
        }
        if n.op == E::Ite {
            // split on the condition first
            self.pool.eval_begin();
            let used = std::mem::take(&mut self.used);
            let cv = self.pool.eval(n.a, &used);
            self.used = used;
            self.branch(n.a, cv == 1);
            return self.pin(if cv == 1 { n.b } else { n.c }, v);
        }
        let k = self.pool.konst(n.w, v);
        let c = self.pool.eq(e, k);
        if self.path.contains(&c) {
            return Ok(());
        }
        self.sym_branches += 1;
        self.record(c, Alt::Pin(e), false);
        Ok(())
    }
    fn pin_float(&mut self, e: Id, v: u64) -> X<()> {
        let k = self.pool.fconst(v);
        let c = self.pool.fcmp(E::FEq, e, k);
        if self.pool.is_const(c).is_none() && !self.path.contains(&c) {
            let n = *self.pool.node(e);
            if n.op == E::FVar {
                self.sym_branches += 1;
                self.record(c, Alt::Pin(e), false);
            } else {
                let site = self.whereami();
                *self.incomplete.entry(format!("float concretised at {}", site)).or_insert(0) += 1;
                self.record(c, Alt::None, false);
            }
        }
        Ok(())
    }

    /// id of an operand, concrete values become constants
    fn sid(&mut self, hid: u32, v: u64, w: u8) -> Id {
        if hid != 0 {
            hid
        } else {
            self.pool.konst(w, v)
        }
    }
    fn fid(&mut self, hid: u32, v: u64) -> Id {
        if hid != 0 {
            hid
        } else {
            self.pool.fconst(v)
        }
    }
    /// integer view of an operand that may carry a float expression
    fn as_int(&mut self, hid: u32, v: u64) -> X<u32> {
        if hid != 0 && self.pool.node(hid).w == 0 {
            self.pin_float(hid, v)?;
            return Ok(0);
        }
        Ok(hid)
    }
    fn as_float(&mut self, hid: u32, v: u64) -> X<u32> {
        if hid != 0 && self.pool.node(hid).w != 0 {
            // integer bits reinterpreted as a double: concretise
            self.pin(hid, v)?;
            return Ok(0);
        }
        Ok(hid)
    }

    // ---- memory
    #[inline]
    fn load(&mut self, off: usize, n: usize, bits: u8) -> X<(u64, u32)> {
        let v = rd(&self.mem.m, off, n);
        if !self.mem.any_sym(off, n) {
            return Ok((v & mask(bits), 0));
        }
        self.load_slow(off, n, bits, v)
    }
    fn load_slow(&mut self, off: usize, n: usize, bits: u8, v: u64) -> X<(u64, u32)> {
        let s0 = self.mem.sh[off];
        let mut all0 = true;
        let mut same = s0 != 0 && s0 & 7 == 0;
        for i in 0..n {
            let s = self.mem.sh[off + i];
            if s != 0 {
                all0 = false;
            }
            if s != (s0 & !7) | i as u32 {
                same = false;
            }
        }
        if all0 {
            return Ok((v & mask(bits), 0));
        }
        if same {
            let id = s0 >> 3;
            let w = self.pool.node(id).w;
            if w == 0 {
                if n == 8 {
                    return Ok((v, id));
                }
            } else if w as usize == n * 8 {
                let r = if bits < w { self.pool.extract(id, 0, bits) } else { id };
                return Ok((v & mask(bits), if self.pool.is_const(r).is_some() { 0 } else { r }));
            }
        }
        let mut acc: Option<Id> = None;
        for i in 0..n {
            let s = self.mem.sh[off + i];
            let byte = if s == 0 {
                self.pool.konst(8, self.mem.m[off + i] as u64)
            } else {
                let id = s >> 3;
                let w = self.pool.node(id).w;
                if w == 0 {
                    // part of a double read as bytes
                    let start = off + i - (s & 7) as usize;
                    let fv = rd(&self.mem.m, start, 8);
                    self.pin_float(id, fv)?;
                    self.pool.konst(8, self.mem.m[off + i] as u64)
                } else {
                    let k = (s & 7) as u8;
                    self.pool.extract(id, k * 8, 8)
                }
            };
            acc = Some(match acc {
                None => byte,
                Some(a) => self.pool.concat(byte, a),
            });
        }
        let mut r = acc.unwrap();
        if (bits as usize) < n * 8 {
            r = self.pool.extract(r, 0, bits);
        }
        if self.pool.is_const(r).is_some() {
            r = 0;
        }
        Ok((v & mask(bits), r))
    }
    #[inline]
    fn store(&mut self, off: usize, n: usize, v: u64, hid: u32) {
        wr(&mut self.mem.m, off, n, v);
        if hid == 0 {
            if self.mem.any_sym(off, n) {
                self.mem.sh[off..off + n].fill(0);
            }
        } else {
            self.store_sym(off, n, hid);
        }
    }
    fn store_sym(&mut self, off: usize, n: usize, hid: u32) {
        let w = self.pool.node(hid).w;
        let id = if w != 0 && (w as usize) < n * 8 { self.pool.zext(hid, (n * 8) as u8) } else { hid };
        if self.pool.is_const(id).is_some() {
            if self.mem.any_sym(off, n) {
                self.mem.sh[off..off + n].fill(0);
            }
            return;
        }
        for i in 0..n {
            self.mem.sh[off + i] = id << 3 | i as u32;
        }
        self.mem.flag(off / 64);
        self.mem.flag((off + n - 1) / 64);
    }
    fn copy(&mut self, d: usize, s: usize, n: usize) {
        if n == 0 {
            return;
        }
        let sym = self.mem.any_sym(s, n);
        let dsym = self.mem.any_sym(d, n);
        self.mem.m.copy_within(s..s + n, d);
        if sym {
            self.mem.sh.copy_within(s..s + n, d);
            for b in d / 64..=(d + n - 1) / 64 {
                self.mem.flag(b);
            }
        } else if dsym {
            self.mem.sh[d..d + n].fill(0);
        }
    }

    // ---- heap
    fn class(n: u64) -> u64 {
        let n = n.max(16);
        if n <= 1024 {
            (n + 15) / 16 * 16
        } else {
            n.next_power_of_two()
        }
    }
    fn malloc(&mut self, n: u64, align: u64, zero: bool) -> X<u64> {
        if n > (ARENA as u64) / 2 {
            return Err(Outcome::Heap);
        }
        let c = Self::class(n);
        if align <= 16 {
            if let Some(v) = self.free.get_mut(&c) {
                if let Some(p) = v.pop() {
                    let o = (p - BASE) as usize;
                    if self.mem.any_sym(o, c as usize) {
                        self.mem.sh[o..o + c as usize].fill(0);
                    }
                    if zero {
                        self.mem.m[o..o + n as usize].fill(0);
                    }
                    return Ok(p);
                }
            }
        }
        let al = align.max(16);
        let p = (self.heap + 16 + al - 1) / al * al;
        let end = p + c;
        if end > BASE + ARENA as u64 {
            return Err(Outcome::Heap);
        }
        self.heap = end;
        let ho = (p - 16 - BASE) as usize;
        wr(&mut self.mem.m, ho, 8, c);
        Ok(p)
    }
    fn mfree(&mut self, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let o = self.chk(p, 16)?;
        let c = rd(&self.mem.m, o - 16, 8);
        self.free.entry(c).or_default().push(p);
        Ok(())
    }

    fn new_var(&mut self, vi: VarInfo) -> (u64, Id) {
        let idx = self.used.len();
        let inr = |v: u64| {
            if vi.w == 0 {
                (v as i64) >= vi.lo as i64 && (v as i64) <= vi.hi as i64
            } else {
                v >= vi.lo && v <= vi.hi
            }
        };
        let mut v = vi.lo;
        if let Some(x) = self.inputs.get(idx) {
            if inr(*x) {
                v = *x;
            }
        } else if self.rand_fill || vi.w == 0 {
            let span = vi.hi.wrapping_sub(vi.lo);
            let mut r = self.seed ^ (idx as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
            r ^= r >> 29;
            r = r.wrapping_mul(0xBF58476D1CE4E5B9);
            r ^= r >> 32;
            v = if span == !0 { r } else { vi.lo.wrapping_add(r % (span + 1)) };
        }
        self.used.push(v);
        self.vinfo.push(vi);
        let id = self.pool.var(idx as u32, vi);
        (v, id)
    }

    fn location(&self, args: &[u64]) -> String {
        for a in args.iter().rev() {
            let o = a.wrapping_sub(BASE) as usize;
            if o < 4096 || o + 24 > self.prog.globals_image.len() {
                continue;
            }
            let p = rd(&self.mem.m, o, 8);
            let l = rd(&self.mem.m, o + 8, 8) as usize;
            let line = rd(&self.mem.m, o + 16, 4);
            let po = p.wrapping_sub(BASE) as usize;
            if po < 4096 || l > 400 || l < 4 || po + l > self.prog.globals_image.len() {
                continue;
            }
            if let Ok(s) = std::str::from_utf8(&self.mem.m[po..po + l]) {
                if s.contains(".rs") {
                    return format!("{}:{}", s, line);
                }
            }
        }
        "?".into()
    }

    // ---- run
    pub fn run(&mut self, entry: u32, inputs: &[u64]) -> Outcome {
        self.reset();
        self.inputs = inputs.to_vec();
        let r = self.exec(entry);
        match r {
            Ok(()) => Outcome::Ok,
            Err(o) => o,
        }
    }

    fn push_frame(&mut self, f: u32, ret: u32) -> u32 {
        let base = match self.frames.last() {
            Some(fr) => fr.base + self.prog.funcs[fr.f as usize].nslots,
            None => 0,
        };
        let need = (base + self.prog.funcs[f as usize].nslots + 64) as usize;
        if self.regs.len() < need {
            let n = need * 2;
            self.regs.resize(n, 0);
            self.rsh.resize(n, 0);
        }
        self.covered[f as usize] = true;
        self.frames.push(Frame { f, pc: 0, base, ret, sp: self.sp, hash: None });
        base
    }

    fn exec(&mut self, entry: u32) -> X<()> {
        let prog = self.prog;
        self.push_frame(entry, 0);
        let mut c: &Code = &prog.funcs[entry as usize];
        let mut base: u32 = 0;
        let mut pc: usize = 0;
        let mut tmp: Vec<(u64, u32)> = Vec::with_capacity(64);
        let s = self;
        macro_rules! go {
            ($e:expr) => {{
                let e = c.edges[$e as usize];
                if e.n == 1 {
                    let (d, a) = c.copies[e.cp as usize];
                    let v = g!(s, c, base, a);
                    let hh = h!(s, base, a);
                    set!(s, base, d, v, hh);
                } else if e.n > 1 {
                    tmp.clear();
                    for k in 0..e.n {
                        let (_, a) = c.copies[(e.cp + k) as usize];
                        tmp.push((g!(s, c, base, a), h!(s, base, a)));
                    }
                    for k in 0..e.n {
                        let (d, _) = c.copies[(e.cp + k) as usize];
                        let (v, hh) = tmp[k as usize];
                        set!(s, base, d, v, hh);
                    }
                }
                pc = e.pc as usize;
            }};
        }
        macro_rules! conc_addr {
            ($a:expr) => {{
                let v = g!(s, c, base, $a);
                let hh = h!(s, base, $a);
                if hh != 0 {
                    s.frames.last_mut().unwrap().pc = pc as u32;
                    s.pin(hh, v)?;
                }
                v
            }};
        }
        loop {
            let op = unsafe { c.ops.get_unchecked(pc) };
            pc += 1;
            s.steps += 1;
            if s.steps > s.budget {
                s.frames.last_mut().unwrap().pc = pc as u32;
                return Err(Outcome::Budget);
            }
            match op {
                Op::Bin { o, w, d, a, b } => {
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let v = match o {
                        B::Add => va.wrapping_add(vb) & mask(*w),
                        B::Sub => va.wrapping_sub(vb) & mask(*w),
                        B::And => va & vb,
                        B::Or => va | vb,
                        B::Xor => va ^ vb,
                        _ => match conc_bin(*o, *w, va, vb) {
                            Some(v) => v,
                            None => return eng("division by zero"),
                        },
                    };
                    let mut r = 0;
                    if ha | hb != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        r = s.sym_bin(*o, *w, va, vb, ha, hb)?;
                    }
                    set!(s, base, *d, v, r);
                }
                Op::Icmp { p, w, d, a, b } => {
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let v = conc_pred(*p, *w, va, vb) as u64;
                    let mut r = 0;
                    if ha | hb != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        r = s.sym_icmp(*p, *w, va, vb, ha, hb)?;
                    }
                    set!(s, base, *d, v, r);
                }
                Op::Mov { d, a } => {
                    let v = g!(s, c, base, *a);
                    let hh = h!(s, base, *a);
                    set!(s, base, *d, v, hh);
                }
                Op::Load { d, a, off, bytes, bits } => {
                    let ha = h!(s, base, *a);
                    let va = g!(s, c, base, *a);
                    if ha != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        if let Some((v, r)) = s.table_load(ha, va.wrapping_add(*off as u64), *off, *bytes, *bits)? {
                            set!(s, base, *d, v, r);
                            continue;
                        }
                        s.pin(ha, va)?;
                    }
                    let o = match s.chk(va.wrapping_add(*off as u64), *bytes as u64) {
                        Ok(o) => o,
                        Err(e) => {
                            s.frames.last_mut().unwrap().pc = pc as u32;
                            let _ = e;
                            return eng(format!("bad load {:#x} at {}", va, s.whereami()));
                        }
                    };
                    let (v, r) = s.load(o, *bytes as usize, *bits)?;
                    set!(s, base, *d, v, r);
                }
                Op::Store { v, a, off, bytes } => {
                    let va = conc_addr!(*a);
                    let val = g!(s, c, base, *v);
                    let hv = h!(s, base, *v);
                    let o = match s.chk(va.wrapping_add(*off as u64), *bytes as u64) {
                        Ok(o) => o,
                        Err(_) => {
                            s.frames.last_mut().unwrap().pc = pc as u32;
                            return eng(format!("bad store {:#x} at {}", va, s.whereami()));
                        }
                    };
                    s.store(o, *bytes as usize, val, hv);
                }
                Op::GepK { d, a, off } => {
                    let v = g!(s, c, base, *a).wrapping_add(*off as u64);
                    let ha = h!(s, base, *a);
                    let mut r = 0;
                    if ha != 0 {
                        let k = s.pool.konst(64, *off as u64);
                        r = s.pool.bin(E::Add, 64, ha, k);
                    }
                    set!(s, base, *d, v, r);
                }
                Op::Gep1 { d, a, off, i, iw, scale } => {
                    let vb = g!(s, c, base, *a);
                    let vi = g!(s, c, base, *i);
                    let si = sext(vi, *iw as u32);
                    let v = vb.wrapping_add(*off as u64).wrapping_add(si.wrapping_mul(*scale) as u64);
                    let (hb, hi) = (h!(s, base, *a), h!(s, base, *i));
                    let mut r = 0;
                    if hb | hi != 0 {
                        let mut idx = s.sid(hi, vi, *iw);
                        idx = s.pool.sext(idx, 64);
                        let k = s.pool.konst(64, *scale as u64);
                        let m = s.pool.bin(E::Mul, 64, idx, k);
                        let b = s.sid(hb, vb, 64);
                        let ko = s.pool.konst(64, *off as u64);
                        let t = s.pool.bin(E::Add, 64, b, ko);
                        r = s.pool.bin(E::Add, 64, t, m);
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, v, r);
                }
                Op::CondBr { c: cc, t, f } => {
                    let v = g!(s, c, base, *cc);
                    let hh = h!(s, base, *cc);
                    if hh != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        s.branch(hh, v == 1);
                        if s.diverged {
                            return eng("diverged");
                        }
                    }
                    if v == 1 {
                        go!(*t)
                    } else {
                        go!(*f)
                    }
                }
                Op::Br { e } => go!(*e),
                Op::Select { d, c: cc, a, b, w, fl } => {
                    let v = g!(s, c, base, *cc);
                    let hc = h!(s, base, *cc);
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let (rv, rh) = if v == 1 { (va, ha) } else { (vb, hb) };
                    let mut r = rh;
                    if hc != 0 {
                        let isf = *fl || (ha != 0 && s.pool.node(ha).w == 0) || (hb != 0 && s.pool.node(hb).w == 0);
                        if isf {
                            let (x, y) = (f64::from_bits(va), f64::from_bits(vb));
                            let okf = |s: &Machine, hid: u32, v: f64| (hid == 0 && v.is_finite()) || (hid != 0 && s.pool.node(hid).w == 0);
                            if okf(s, ha, x) && okf(s, hb, y) {
                                let ia = s.fid(ha, va);
                                let ib = s.fid(hb, vb);
                                r = s.fsel(hc, ia, ib);
                            } else {
                                s.branch(hc, v == 1);
                            }
                        } else {
                            let ia = s.sid(ha, va, *w);
                            let ib = s.sid(hb, vb, *w);
                            r = s.pool.ite(hc, ia, ib);
                        }
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, rv, r);
                }
                Op::Zext { d, a, from: _, to } => {
                    let v = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let mut r = ha;
                    if ha != 0 && s.pool.node(ha).w != 0 {
                        r = s.pool.zext(ha, *to);
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, v, r);
                }
                Op::Sext { d, a, from, to } => {
                    let v = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let mut r = 0;
                    if ha != 0 {
                        r = s.pool.sext(ha, *to);
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, sext(v, *from as u32) as u64 & mask(*to), r);
                }
                Op::Trunc { d, a, from: _, to } => {
                    let v = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let mut r = 0;
                    if ha != 0 {
                        if s.pool.node(ha).w == 0 {
                            if *to == 64 {
                                r = ha;
                            } else {
                                s.frames.last_mut().unwrap().pc = pc as u32;
                                s.pin_float(ha, v)?;
                            }
                        } else {
                            r = s.pool.extract(ha, 0, *to);
                            if s.pool.is_const(r).is_some() {
                                r = 0;
                            }
                        }
                    }
                    set!(s, base, *d, v & mask(*to), r);
                }
                Op::OvfOp { o, w, d, a, b } => {
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let (v, f) = conc_ovf(*o, *w, va, vb);
                    let (mut r, mut rf) = (0, 0);
                    if ha | hb != 0 {
                        let x = s.sym_ovf(*o, *w, va, vb, ha, hb)?;
                        r = x.0;
                        rf = x.1;
                    }
                    set!(s, base, *d, v, r);
                    set!(s, base, *d + 1, f as u64, rf);
                }
                Op::FBin { o, d, a, b } => {
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let (x, y) = (f64::from_bits(va), f64::from_bits(vb));
                    let v = match o {
                        FB::Add => x + y,
                        FB::Sub => x - y,
                        FB::Mul => x * y,
                        FB::Div => x / y,
                        FB::Rem => x % y,
                        FB::Max => x.max(y),
                        FB::Min => x.min(y),
                        FB::CopySign => x.copysign(y),
                    };
                    let mut r = 0;
                    if ha | hb != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        r = s.sym_fbin(*o, va, vb, ha, hb)?;
                    }
                    set!(s, base, *d, v.to_bits(), r);
                }
                Op::FUn { o, d, a } => {
                    let va = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let x = f64::from_bits(va);
                    let v = match o {
                        FU::Neg => -x,
                        FU::Abs => x.abs(),
                        FU::Sqrt => x.sqrt(),
                        FU::Floor => x.floor(),
                        FU::Ceil => x.ceil(),
                        FU::Trunc => x.trunc(),
                        FU::Round => x.round(),
                        FU::RoundEven => x.round_ties_even(),
                    };
                    let mut r = 0;
                    if ha != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        r = s.sym_fun(*o, va, ha)?;
                    }
                    set!(s, base, *d, v.to_bits(), r);
                }
                Op::Fcmp { p, d, a, b } => {
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let (x, y) = (f64::from_bits(va), f64::from_bits(vb));
                    let rel = if x.is_nan() || y.is_nan() {
                        8
                    } else if x == y {
                        1
                    } else if x > y {
                        2
                    } else {
                        4
                    };
                    let v = (rel & p != 0) as u64;
                    let mut r = 0;
                    if ha | hb != 0 && rel != 8 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        r = s.sym_fcmp(*p, va, vb, ha, hb)?;
                    }
                    set!(s, base, *d, v, r);
                }
                Op::FIsClass { d, a, mask: mk } => {
                    let va = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let x = f64::from_bits(va);
                    let neg = x.is_sign_negative();
                    let cls = match x.classify() {
                        std::num::FpCategory::Nan => 0x3,
                        std::num::FpCategory::Infinite => {
                            if neg {
                                4
                            } else {
                                0x200
                            }
                        }
                        std::num::FpCategory::Normal => {
                            if neg {
                                8
                            } else {
                                0x100
                            }
                        }
                        std::num::FpCategory::Subnormal => {
                            if neg {
                                0x10
                            } else {
                                0x80
                            }
                        }
                        std::num::FpCategory::Zero => {
                            if neg {
                                0x20
                            } else {
                                0x40
                            }
                        }
                    };
                    let v = (cls & *mk != 0) as u64;
                    let mut r = 0;
                    if ha != 0 {
                        let fin = *mk & 0x1f8;
                        if fin != 0 && fin != 0x1f8 {
                            // sign / zero tests on a symbolic double
                            let z = s.pool.fconst(0);
                            let hid = s.as_float(ha, va)?;
                            if hid != 0 {
                                let lt = s.pool.fcmp(E::FLt, hid, z);
                                let eq = s.pool.fcmp(E::FEq, hid, z);
                                let gt = s.pool.fcmp(E::FLt, z, hid);
                                let mut acc = s.pool.fals();
                                if fin & 0x18 != 0 {
                                    acc = s.pool.bin(E::Or, 1, acc, lt);
                                }
                                if fin & 0x60 != 0 {
                                    acc = s.pool.bin(E::Or, 1, acc, eq);
                                }
                                if fin & 0x180 != 0 {
                                    acc = s.pool.bin(E::Or, 1, acc, gt);
                                }
                                r = acc;
                                if s.pool.is_const(r).is_some() {
                                    r = 0;
                                }
                            }
                        }
                    }
                    set!(s, base, *d, v, r);
                }
                Op::Un { o, w, d, a } => {
                    let va = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let mut r = 0;
                    if ha != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        r = s.sym_un(*o, *w, va, ha)?;
                    }
                    let wv = *w as u32;
                    let v = match o {
                        BU::Ctlz => va.leading_zeros() as u64 - (64 - wv as u64),
                        BU::Cttz => (va.trailing_zeros() as u64).min(wv as u64),
                        BU::Ctpop => va.count_ones() as u64,
                        BU::Bswap => va.swap_bytes() >> (64 - wv),
                        BU::BitRev => va.reverse_bits() >> (64 - wv),
                        BU::Abs => (sext(va, wv).wrapping_abs() as u64) & mask(*w),
                    };
                    set!(s, base, *d, v, r);
                }
                Op::Cmp3 { signed, w, dw, d, a, b } => {
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (ha, hb) = (h!(s, base, *a), h!(s, base, *b));
                    let lt = if *signed { sext(va, *w as u32) < sext(vb, *w as u32) } else { va < vb };
                    let v = if va == vb {
                        0
                    } else if lt {
                        mask(*dw)
                    } else {
                        1
                    };
                    let mut r = 0;
                    let (mut ha, mut hb) = (ha, hb);
                    if (ha != 0 && s.pool.node(ha).w == 0) || (hb != 0 && s.pool.node(hb).w == 0) {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        match s.float_keys(*signed && *w == 64, va, vb, ha, hb) {
                            Some((a, b, x, y)) => {
                                let l = s.pool.fcmp(E::FLt, a, b);
                                let e = s.pool.fcmp(E::FEq, a, b);
                                s.branch(l, x < y);
                                s.branch(e, x == y);
                                (ha, hb) = (0, 0);
                            }
                            None => {
                                ha = s.as_int(ha, va)?;
                                hb = s.as_int(hb, vb)?;
                            }
                        }
                    }
                    if ha | hb != 0 {
                        let (x, y) = (s.sid(ha, va, *w), s.sid(hb, vb, *w));
                        let e = s.pool.eq(x, y);
                        let l = if *signed { s.pool.slt(x, y) } else { s.pool.ult(x, y) };
                        let m1 = s.pool.konst(*dw, !0);
                        let p1 = s.pool.konst(*dw, 1);
                        let z = s.pool.konst(*dw, 0);
                        let t = s.pool.ite(l, m1, p1);
                        r = s.pool.ite(e, z, t);
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, v, r);
                }
                Op::Fsh { left, w, d, a, b, c: cc } => {
                    let (va, vb, vc) = (g!(s, c, base, *a), g!(s, c, base, *b), g!(s, c, base, *cc));
                    let (ha, hb, hc) = (h!(s, base, *a), h!(s, base, *b), h!(s, base, *cc));
                    if hc != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        s.pin(hc, vc)?;
                    }
                    let w8 = *w as u64;
                    let k = vc % w8;
                    let (l, rr) = if *left { (k, w8 - k) } else { (w8 - k, k) };
                    let v = if k == 0 {
                        if *left {
                            va
                        } else {
                            vb
                        }
                    } else {
                        ((va << l) | (vb >> rr)) & mask(*w)
                    };
                    let mut r = 0;
                    if ha | hb != 0 {
                        let (x, y) = (s.sid(ha, va, *w), s.sid(hb, vb, *w));
                        if k == 0 {
                            r = if *left { x } else { y };
                        } else {
                            let kl = s.pool.konst(*w, l);
                            let kr = s.pool.konst(*w, rr);
                            let p = s.pool.bin(E::Shl, *w, x, kl);
                            let q = s.pool.bin(E::LShr, *w, y, kr);
                            r = s.pool.bin(E::Or, *w, p, q);
                        }
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, v, r);
                }
                Op::FToI { d, a, w, signed } => {
                    let va = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let v = f2i(f64::from_bits(va), *w, *signed);
                    if ha != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        let hf = s.as_float(ha, va)?;
                        if hf != 0 {
                            let e = s.pool.ftoi(*signed, *w, hf);
                            s.pin(e, v)?;
                        }
                    }
                    set!(s, base, *d, v, 0);
                }
                Op::IToF { d, a, w, signed } => {
                    let va = g!(s, c, base, *a);
                    let ha = h!(s, base, *a);
                    let v = if *signed { sext(va, *w as u32) as f64 } else { va as f64 };
                    let mut r = 0;
                    if ha != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        let n = *s.pool.node(ha);
                        let mut v0 = ha;
                        while s.pool.node(v0).op == E::Zext {
                            v0 = s.pool.node(v0).a;
                        }
                        let nv = *s.pool.node(v0);
                        if nv.op == E::Var && nv.hi < 1 << 52 && (!*signed || n.hi < 1u64 << (n.w - 1)) {
                            // the same variable, seen as a number
                            r = s.pool.var(nv.k as u32, VarInfo { lo: nv.lo, hi: nv.hi, w: 0, den: 0 });
                        } else if n.hi - n.lo <= 64 && n.w > 0 {
                            // finite case split inside one expression
                            let mut acc = s.pool.fconst((n.hi as f64).to_bits());
                            let mut k = n.hi;
                            while k > n.lo {
                                k -= 1;
                                let kc = s.pool.konst(n.w, k);
                                let e = s.pool.eq(ha, kc);
                                let fc = s.pool.fconst((k as f64).to_bits());
                                acc = s.pool.fite(e, fc, acc);
                            }
                            r = acc;
                            if s.pool.is_const(r).is_some() {
                                r = 0;
                            }
                        } else {
                            s.pin(ha, va)?;
                        }
                    }
                    set!(s, base, *d, v.to_bits(), r);
                }
                Op::GatherBits { d, a, n } => {
                    let mut v = 0u64;
                    let mut any = false;
                    for k in 0..*n as u32 {
                        let i = (base + *a + k) as usize;
                        v |= (s.regs[i] & 1) << k;
                        any |= s.rsh[i] != 0;
                    }
                    let mut r = 0;
                    if any {
                        let mut acc: Option<Id> = None;
                        for k in 0..*n as u32 {
                            let i = (base + *a + k) as usize;
                            let (hv, vv) = (s.rsh[i], s.regs[i] & 1);
                            let b = s.sid(hv, vv, 1);
                            acc = Some(match acc {
                                None => b,
                                Some(x) => s.pool.concat(b, x),
                            });
                        }
                        r = acc.unwrap();
                        if s.pool.is_const(r).is_some() {
                            r = 0;
                        }
                    }
                    set!(s, base, *d, v, r);
                }
                Op::F32 { o, d, a, b } => {
                    for k in [*a, *b] {
                        let (v, h) = (g!(s, c, base, k), h!(s, base, k));
                        if h != 0 {
                            s.frames.last_mut().unwrap().pc = pc as u32;
                            if s.pool.node(h).w == 0 {
                                s.pin_float(h, v)?;
                            } else {
                                s.pin(h, v)?;
                            }
                        }
                    }
                    let (va, vb) = (g!(s, c, base, *a), g!(s, c, base, *b));
                    let (x, y) = (f32::from_bits(va as u32), f32::from_bits(vb as u32));
                    let f = |x: f32| x.to_bits() as u64;
                    let v = match *o {
                        SOp::Add => f(x + y),
                        SOp::Sub => f(x - y),
                        SOp::Mul => f(x * y),
                        SOp::Div => f(x / y),
                        SOp::Rem => f(x % y),
                        SOp::Max => f(x.max(y)),
                        SOp::Min => f(x.min(y)),
                        SOp::CopySign => f(x.copysign(y)),
                        SOp::Neg => f(-x),
                        SOp::Abs => f(x.abs()),
                        SOp::Sqrt => f(x.sqrt()),
                        SOp::Floor => f(x.floor()),
                        SOp::Ceil => f(x.ceil()),
                        SOp::Trunc => f(x.trunc()),
                        SOp::Round => f(x.round()),
                        SOp::RoundEven => f(x.round_ties_even()),
                        SOp::Cmp(p) => {
                            let rel = if x.is_nan() || y.is_nan() {
                                8
                            } else if x == y {
                                1
                            } else if x > y {
                                2
                            } else {
                                4
                            };
                            (rel & p != 0) as u64
                        }
                        SOp::From64 => f(f64::from_bits(va) as f32),
                        SOp::To64 => (x as f64).to_bits(),
                        SOp::FromInt(signed, w) => f(if signed { sext(va, w as u32) as f32 } else { va as f32 }),
                        SOp::ToInt(signed, w) => f2i(x as f64, w, signed),
                    };
                    set!(s, base, *d, v, 0);
                }
                Op::Wide { o, d, a, b, n: _ } => {
                    let (a0, a1) = ((base + *a) as usize, (base + *a + 1) as usize);
                    let (b0, b1) = ((base + *b) as usize, (base + *b + 1) as usize);
                    for i in [a0, a1, b0, b1] {
                        if s.rsh[i] != 0 {
                            s.frames.last_mut().unwrap().pc = pc as u32;
                            let (hh, vv) = (s.rsh[i], s.regs[i]);
                            s.pin(hh, vv)?;
                        }
                    }
                    let x = s.regs[a0] as u128 | (s.regs[a1] as u128) << 64;
                    let y = s.regs[b0] as u128 | (s.regs[b1] as u128) << 64;
                    let mut flag = None;
                    let (xs, ys) = (x as i128, y as i128);
                    let ov = match o {
                        WOp::OUAdd => Some(x.overflowing_add(y)),
                        WOp::OUSub => Some(x.overflowing_sub(y)),
                        WOp::OUMul => Some(x.overflowing_mul(y)),
                        WOp::OSAdd => Some(xs.overflowing_add(ys)).map(|r| (r.0 as u128, r.1)),
                        WOp::OSSub => Some(xs.overflowing_sub(ys)).map(|r| (r.0 as u128, r.1)),
                        WOp::OSMul => Some(xs.overflowing_mul(ys)).map(|r| (r.0 as u128, r.1)),
                        _ => None,
                    };
                    if let Some((_, f)) = ov {
                        set!(s, base, *d + 2, f as u64, 0);
                    }
                    let r: u128 = match o {
                        WOp::Mul => x.wrapping_mul(y),
                        WOp::Add => x.wrapping_add(y),
                        WOp::Sub => x.wrapping_sub(y),
                        WOp::UDiv => {
                            if y == 0 {
                                return eng("wide division by zero");
                            }
                            x / y
                        }
                        WOp::URem => {
                            if y == 0 {
                                return eng("wide division by zero");
                            }
                            x % y
                        }
                        WOp::Shl => {
                            if y > 127 {
                                0
                            } else {
                                x << y
                            }
                        }
                        WOp::LShr => {
                            if y > 127 {
                                0
                            } else {
                                x >> y
                            }
                        }
                        WOp::And => x & y,
                        WOp::Or => x | y,
                        WOp::Xor => x ^ y,
                        WOp::Ctlz => x.leading_zeros() as u128,
                        WOp::Cttz => x.trailing_zeros() as u128,
                        WOp::IcmpEq => {
                            flag = Some(x == y);
                            0
                        }
                        WOp::IcmpNe => {
                            flag = Some(x != y);
                            0
                        }
                        WOp::IcmpUlt => {
                            flag = Some(x < y);
                            0
                        }
                        WOp::IcmpUle => {
                            flag = Some(x <= y);
                            0
                        }
                        WOp::IcmpUgt => {
                            flag = Some(x > y);
                            0
                        }
                        WOp::IcmpUge => {
                            flag = Some(x >= y);
                            0
                        }
                        WOp::IcmpSlt => {
                            flag = Some(xs < ys);
                            0
                        }
                        WOp::IcmpSle => {
                            flag = Some(xs <= ys);
                            0
                        }
                        WOp::IcmpSgt => {
                            flag = Some(xs > ys);
                            0
                        }
                        WOp::IcmpSge => {
                            flag = Some(xs >= ys);
                            0
                        }
                        WOp::SDiv | WOp::SRem => {
                            if y == 0 || (xs == i128::MIN && ys == -1) {
                                return eng("wide division");
                            }
                            if *o == WOp::SDiv { (xs / ys) as u128 } else { (xs % ys) as u128 }
                        }
                        WOp::AShr => (xs >> y.min(127)) as u128,
                        WOp::UMin => x.min(y),
                        WOp::UMax => x.max(y),
                        WOp::SMin => xs.min(ys) as u128,
                        WOp::SMax => xs.max(ys) as u128,
                        WOp::OUAdd | WOp::OUSub | WOp::OUMul | WOp::OSAdd | WOp::OSSub | WOp::OSMul => ov.unwrap().0,
                    };
                    match flag {
                        Some(f) => set!(s, base, *d, f as u64, 0),
                        None => {
                            set!(s, base, *d, r as u64, 0);
                            set!(s, base, *d + 1, (r >> 64) as u64, 0);
                        }
                    }
                }
                Op::Alloca { d, size, align, n } => {
                    let k = g!(s, c, base, *n);
                    let p = (s.sp + align - 1) / align * align;
                    s.sp = p + size * k;
                    if s.sp > s.sp_max {
                        s.sp_max = s.sp;
                        if s.sp_max > s.stack_base + (STACK as u64) - 4096 {
                            s.sp_max = s.stack_base + (STACK as u64) - 4096;
                            return Err(Outcome::Stack);
                        }
                    }
                    // fresh memory carries no shadow
                    let o = (p - BASE) as usize;
                    let sz = (size * k) as usize;
                    if s.mem.any_sym(o, sz) {
                        s.mem.sh[o..o + sz].fill(0);
                    }
                    set!(s, base, *d, p, 0);
                }
                Op::Switch { v, w, tab } => {
                    let val = g!(s, c, base, *v);
                    let hv = h!(s, base, *v);
                    let t = &c.switches[*tab as usize];
                    let e = match t.map.get(&val) {
                        Some(e) => *e,
                        None => t.default,
                    };
                    if hv != 0 {
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        let hv = s.as_int(hv, val)?;
                        if hv != 0 {
                            s.sym_switch(hv, *w, t, e);
                            if s.diverged {
                                return eng("diverged");
                            }
                        }
                    }
                    go!(e)
                }
                Op::Call { f, args, n, d } => {
                    let f = *f;
                    if s.frames.len() > 20000 {
                        return Err(Outcome::Stack);
                    }
                    let mut hash = None;
                    let mut keys = false;
                    if s.hash_mode != 0 && prog.funcs[f as usize].name.contains("8hash_one") {
                        // abstract hash function (see Builtin::SymHashMode)
                        if s.hash_mode == 1 {
                            set!(s, base, *d, 0, 0);
                            continue;
                        }
                        // the keys of the map come first, by value or in memory; they are set to 0
                        hash = Some((0, 0, 0));
                        let a0 = g!(s, c, base, c.args[*args as usize]);
                        match s.chk(a0, 16) {
                            Ok(o) => {
                                hash = Some((o, rd(&s.mem.m, o, 8), rd(&s.mem.m, o + 8, 8)));
                                s.mem.m[o..o + 16].fill(0);
                            }
                            Err(_) => keys = true,
                        }
                    }
                    s.frames.last_mut().unwrap().pc = pc as u32;
                    let abs = base + *d;
                    let nb = s.push_frame(f, abs);
                    if hash.is_some() {
                        s.frames.last_mut().unwrap().hash = hash;
                    }
                    for k in 0..*n {
                        let a = c.args[(*args + k) as usize];
                        let v = g!(s, c, base, a);
                        let hh = h!(s, base, a);
                        set!(s, nb, k, v, hh);
                    }
                    if keys && *n >= 2 {
                        set!(s, nb, 0, 0, 0);
                        set!(s, nb, 1, 0, 0);
                    }
                    c = &prog.funcs[f as usize];
                    base = nb;
                    pc = 0;
                }
                Op::CallInd { p, args, n, d, nr } => {
                    let pv = conc_addr!(*p);
                    let fi = pv.wrapping_sub(FN_BASE) / 16;
                    if pv >= FN_BASE && (fi as usize) < prog.funcs.len() && prog.builtin_of[fi as usize].is_none() {
                        if s.frames.len() > 20000 {
                            return Err(Outcome::Stack);
                        }
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        let f = fi as u32;
                        let abs = base + *d;
                        let nb = s.push_frame(f, abs);
                        for k in 0..*n {
                            let a = c.args[(*args + k) as usize];
                            let v = g!(s, c, base, a);
                            let hh = h!(s, base, a);
                            set!(s, nb, k, v, hh);
                        }
                        c = &prog.funcs[f as usize];
                        base = nb;
                        pc = 0;
                    } else {
                        let b = if pv >= FN_BASE && (fi as usize) < prog.funcs.len() {
                            prog.builtin_of[fi as usize].unwrap()
                        } else {
                            let ei = pv.wrapping_sub(EXT_BASE) / 16;
                            if pv >= EXT_BASE && (ei as usize) < prog.ext_builtin.len() {
                                prog.ext_builtin[ei as usize]
                            } else {
                                s.frames.last_mut().unwrap().pc = pc as u32;
                                return eng(format!("indirect call to {:#x} at {}", pv, s.whereami()));
                            }
                        };
                        s.frames.last_mut().unwrap().pc = pc as u32;
                        s.builtin(b, c, base, *args, *n, *d, *nr)?;
                    }
                }
                Op::CallB { b, args, n, d, nr } => {
                    s.frames.last_mut().unwrap().pc = pc as u32;
                    s.builtin(*b, c, base, *args, *n, *d, *nr)?;
                    if s.diverged {
                        return eng("diverged");
                    }
                }
                Op::Ret { args, n } => {
                    let fr = s.frames.pop().unwrap();
                    if s.frames.is_empty() {
                        return Ok(());
                    }
                    for k in 0..*n {
                        let a = c.args[(*args + k) as usize];
                        let v = g!(s, c, base, a);
                        let hh = h!(s, base, a);
                        let i = (fr.ret + k) as usize;
                        s.regs[i] = v;
                        s.rsh[i] = hh;
                    }
                    s.sp = fr.sp;
                    if let (Some((o, k0, k1)), 1) = (fr.hash, *n) {
                        if o != 0 {
                            wr(&mut s.mem.m, o, 8, k0);
                            wr(&mut s.mem.m, o + 8, 8, k1);
                        }
                        let i = fr.ret as usize;
                        let (v, hh) = (s.regs[i], s.rsh[i]);
                        if hh != 0 {
                            s.pin(hh, v)?;
                        }
                        s.regs[i] = s.abstract_hash(v)?;
                        s.rsh[i] = 0;
                    }
                    let t = s.frames.last().unwrap();
                    c = &prog.funcs[t.f as usize];
                    base = t.base;
                    pc = t.pc as usize;
                }
                Op::Memcpy { d, s: src, n } => {
                    let n = conc_addr!(*n);
                    let d = conc_addr!(*d);
                    let sr = conc_addr!(*src);
                    if n > 0 {
                        let (dd, ss) = (s.chk(d, n)?, s.chk(sr, n)?);
                        s.copy(dd, ss, n as usize);
                        s.steps += n / 16;
                    }
                }
                Op::Memset { d, v, n } => {
                    let n = conc_addr!(*n);
                    let d = conc_addr!(*d);
                    let val = conc_addr!(*v);
                    if n > 0 {
                        let dd = s.chk(d, n)?;
                        s.mem.m[dd..dd + n as usize].fill(val as u8);
                        if s.mem.any_sym(dd, n as usize) {
                            s.mem.sh[dd..dd + n as usize].fill(0);
                        }
                        s.steps += n / 16;
                    }
                }
                Op::Rmw { o, bytes, d, p, v } => {
                    let pa = conc_addr!(*p);
                    let val = conc_addr!(*v);
                    let off = s.chk(pa, *bytes as u64)?;
                    let (old, ho) = s.load(off, *bytes as usize, *bytes * 8)?;
                    if ho != 0 {
                        s.pin(ho, old)?;
                    }
                    let w = *bytes * 8;
                    let nv = match o {
                        0 => val,
                        1 => old.wrapping_add(val),
                        2 => old.wrapping_sub(val),
                        3 => old & val,
                        4 => old | val,
                        5 => old ^ val,
                        6 => old.max(val),
                        _ => old.min(val),
                    } & mask(w);
                    s.store(off, *bytes as usize, nv, 0);
                    set!(s, base, *d, old, 0);
                }
                Op::CmpXchg { bytes, d, p, e, n } => {
                    let pa = conc_addr!(*p);
                    let ev = conc_addr!(*e);
                    let nv = conc_addr!(*n);
                    let off = s.chk(pa, *bytes as u64)?;
                    let (old, ho) = s.load(off, *bytes as usize, *bytes * 8)?;
                    if ho != 0 {
                        s.pin(ho, old)?;
                    }
                    let ok = old == ev;
                    if ok {
                        s.store(off, *bytes as usize, nv, 0);
                    }
                    set!(s, base, *d, old, 0);
                    set!(s, base, *d + 1, ok as u64, 0);
                }
                Op::LoadRel { d, p, o } => {
                    let pa = conc_addr!(*p);
                    let ov = conc_addr!(*o);
                    let off = s.chk(pa.wrapping_add(ov), 4)?;
                    let v = rd(&s.mem.m, off, 4) as u32 as i32 as i64;
                    set!(s, base, *d, pa.wrapping_add(v as u64), 0);
                }
                Op::Unreachable => {
                    s.frames.last_mut().unwrap().pc = pc as u32;
                    if s.allow_panic {
                        return Err(Outcome::AllowedPanic("unreachable".into()));
                    }
                    return Err(Outcome::Panic(format!("unreachable/abort in {}", c.short)));
                }
                Op::Nop => {}
                Op::Bad { msg } => {
                    s.frames.last_mut().unwrap().pc = pc as u32;
                    return eng(format!("unsupported: {} in {}", c.msgs[*msg as usize], s.whereami()));
                }
            }
        }
    }

    fn fsel(&mut self, c: Id, a: Id, b: Id) -> Id {
        // recognise max/min written as select(x < y, y, x)
        let n = *self.pool.node(c);
        if n.op == E::FLt || n.op == E::FLe {
            if n.a == b && n.b == a {
                // b < a ? a : b
                return self.pool.fbin(E::FMax, a, b);
            }
            if n.a == a && n.b == b {
                return self.pool.fbin(E::FMin, a, b);
            }
        }
        if n.op == E::Not {
            let k = *self.pool.node(n.a);
            if k.op == E::FLt || k.op == E::FLe {
                if k.a == a && k.b == b {
                    return self.pool.fbin(E::FMax, a, b);
                }
                if k.a == b && k.b == a {
                    return self.pool.fbin(E::FMin, a, b);
                }
            }
        }
        self.pool.fite(c, a, b)
    }

    fn norm(&self, r: Id) -> u32 {
        if self.pool.is_const(r).is_some() {
            0
        } else {
            r
        }
    }

    fn sym_bin(&mut self, o: B, w: u8, va: u64, vb: u64, ha: u32, hb: u32) -> X<u32> {
        // bit tricks on doubles
        for (hx, ky, hy) in [(ha, vb, hb), (hb, va, ha)] {
            if hx != 0 && self.pool.node(hx).w == 0 && hy == 0 {
                if o == B::And && ky == 0x7fff_ffff_ffff_ffff {
                    let r = self.pool.fun(E::FAbs, hx, 0);
                    return Ok(self.norm(r));
                }
                if o == B::Xor && ky == 1u64 << 63 {
                    let r = self.pool.fun(E::FNeg, hx, 0);
                    return Ok(self.norm(r));
                }
                if matches!(o, B::Xor | B::Or | B::Add) && ky == 0 {
                    return Ok(hx);
                }
                let vx = if hx == ha { va } else { vb };
                let x = f64::from_bits(vx);
                if hx == ha && matches!(o, B::AShr | B::LShr) && ky == 63 && w == 64 && x.is_finite() && !self.is_key(hx, vx) {
                    // the sign
                    if x == 0.0 && x.is_sign_negative() {
                        self.pin_float(hx, vx)?;
                        return Ok(0);
                    }
                    let z = self.pool.fconst(0);
                    let lt = self.pool.fcmp(E::FLt, hx, z);
                    self.branch(lt, x < 0.0);
                    return Ok(0);
                }
                if o == B::Xor && ky == !0 >> 1 && x.is_finite() && x < 0.0 && !self.is_key(hx, vx) {
                    let z = self.pool.fconst(0);
                    let lt = self.pool.fcmp(E::FLt, hx, z);
                    self.branch(lt, true);
                    if !self.keyed.contains(&(hx, vx)) {
                        self.keyed.push((hx, vx));
                    }
                    return Ok(hx);
                }
            }
        }
        let ha = self.as_int(ha, va)?;
        let hb = self.as_int(hb, vb)?;
        if ha | hb == 0 {
            return Ok(0);
        }
        let (x, y) = (self.sid(ha, va, w), self.sid(hb, vb, w));
        let p = &mut self.pool;
        let r = match o {
            B::UMin => {
                let l = p.ult(x, y);
                p.ite(l, x, y)
            }
            B::UMax => {
                let l = p.ult(x, y);
                p.ite(l, y, x)
            }
            B::SMin => {
                let l = p.slt(x, y);
                p.ite(l, x, y)
            }
            B::SMax => {
                let l = p.slt(x, y);
                p.ite(l, y, x)
            }
            B::USubSat => {
                let l = p.ult(x, y);
                let z = p.konst(w, 0);
                let d = p.bin(E::Sub, w, x, y);
                p.ite(l, z, d)
            }
            B::UAddSat => {
                let sum = p.bin(E::Add, w, x, y);
                let l = p.ult(sum, x);
                let m = p.konst(w, !0);
                p.ite(l, m, sum)
            }
            B::SSubSat | B::SAddSat => {
                self.pin(x, va)?;
                self.pin(y, vb)?;
                return Ok(0);
            }
            B::UDiv | B::SDiv | B::URem | B::SRem => {
                // a zero divisor is guarded by an explicit check in Rust code
                let e = Pool::bin_of(o).unwrap();
                p.bin(e, w, x, y)
            }
            _ => {
                let e = Pool::bin_of(o).unwrap();
                p.bin(e, w, x, y)
            }
        };
        Ok(self.norm(r))
    }

    fn is_key(&self, h: u32, v: u64) -> bool {
        self.keyed.iter().any(|&(i, raw)| i == h && raw != v)
    }

    /// Two doubles behind integers that are compared, if the integers are in the order of the doubles.
    fn float_keys(&mut self, signed: bool, va: u64, vb: u64, ha: u32, hb: u32) -> Option<(u32, u32, f64, f64)> {
        if !signed {
            return None;
        }
        let mut r = [(0, 0.0); 2];
        for (k, (v, h)) in [(va, ha), (vb, hb)].into_iter().enumerate() {
            let key = (v as i64) < 0;
            let x = f64::from_bits(if key { v ^ (!0 >> 1) } else { v });
            if !x.is_finite() || (x == 0.0 && key) {
                return None;
            }
            if h != 0 && (self.pool.node(h).w != 0 || (key && !self.is_key(h, v))) {
                return None;
            }
            r[k] = (if h != 0 { h } else { self.pool.fconst(x.to_bits()) }, x);
        }
        Some((r[0].0, r[1].0, r[0].1, r[1].1))
    }

    fn sym_icmp(&mut self, pr: Pred, w: u8, va: u64, vb: u64, ha: u32, hb: u32) -> X<u32> {
        let fa = ha != 0 && self.pool.node(ha).w == 0;
        let fb = hb != 0 && self.pool.node(hb).w == 0;
        if fa && hb == 0 && ((pr == Pred::Slt && vb == 0) || (pr == Pred::Sgt && vb == !0)) {
            // sign bit test
            let z = self.pool.fconst(0);
            let lt = self.pool.fcmp(E::FLt, ha, z);
            let r = if pr == Pred::Slt { lt } else { self.pool.not(lt) };
            return Ok(self.norm(r));
        }
        if fa || fb {
            let signed = w == 64 && matches!(pr, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge | Pred::Eq | Pred::Ne);
            if let Some((a, b, _, _)) = self.float_keys(signed, va, vb, ha, hb) {
                let p = &mut self.pool;
                let r = match pr {
                    Pred::Slt => p.fcmp(E::FLt, a, b),
                    Pred::Sle => p.fcmp(E::FLe, a, b),
                    Pred::Sgt => p.fcmp(E::FLt, b, a),
                    Pred::Sge => p.fcmp(E::FLe, b, a),
                    Pred::Eq => p.fcmp(E::FEq, a, b),
                    _ => {
                        let e = p.fcmp(E::FEq, a, b);
                        p.not(e)
                    }
                };
                return Ok(self.norm(r));
            }
        }
        let (ha, hb) = if fa || fb { (self.as_int(ha, va)?, self.as_int(hb, vb)?) } else { (ha, hb) };
        if ha | hb == 0 {
            return Ok(0);
        }
        let (x, y) = (self.sid(ha, va, w), self.sid(hb, vb, w));
        let p = &mut self.pool;
        let r = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => p.ne(x, y),
            Pred::Ult => p.ult(x, y),
            Pred::Ule => p.ule(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => p.ule(y, x),
            Pred::Slt => p.slt(x, y),
            Pred::Sle => p.sle(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => p.sle(y, x),
        };
        Ok(self.norm(r))
    }

    fn sym_ovf(&mut self, o: Ovf, w: u8, va: u64, vb: u64, ha: u32, hb: u32) -> X<(u32, u32)> {
        let ha = self.as_int(ha, va)?;
        let hb = self.as_int(hb, vb)?;
        let (x, y) = (self.sid(ha, va, w), self.sid(hb, vb, w));
        let p = &mut self.pool;
        let (r, f) = match o {
            Ovf::UAdd => {
                let s = p.bin(E::Add, w, x, y);
                let (nx, ny) = (*p.node(x), *p.node(y));
                let f = if nx.hi.checked_add(ny.hi).map_or(false, |v| v <= mask(w)) { p.fals() } else { p.ult(s, x) };
                (s, f)
            }
            Ovf::USub => (p.bin(E::Sub, w, x, y), p.ult(x, y)),
            Ovf::UMul => (p.bin(E::Mul, w, x, y), p.umul_ovf(x, y)),
            Ovf::SAdd | Ovf::SSub => {
                let s = p.bin(if o == Ovf::SAdd { E::Add } else { E::Sub }, w, x, y);
                let (sx, sy, ss) = (p.extract(x, w - 1, 1), p.extract(y, w - 1, 1), p.extract(s, w - 1, 1));
                let same = p.eq(sx, sy);
                let same = if o == Ovf::SAdd { same } else { p.not(same) };
                let df = p.eq(sx, ss);
                let df = p.not(df);
                (s, p.bin(E::And, 1, same, df))
            }
            Ovf::SMul => (p.bin(E::Mul, w, x, y), p.smul_ovf(x, y)),
        };
        Ok((self.norm(r), self.norm(f)))
    }

    fn sym_un(&mut self, o: BU, w: u8, va: u64, ha: u32) -> X<u32> {
        let ha = self.as_int(ha, va)?;
        if ha == 0 {
            return Ok(0);
        }
        let p = &mut self.pool;
        match o {
            BU::Cttz | BU::Ctlz => {
                let mut acc = p.konst(w, w as u64);
                for k in 0..w {
                    let bit = if o == BU::Cttz { w - 1 - k } else { k };
                    let b = p.extract(ha, bit, 1);
                    let v = p.konst(w, if o == BU::Cttz { bit as u64 } else { (w - 1 - bit) as u64 });
                    acc = p.ite(b, v, acc);
                }
                Ok(self.norm(acc))
            }
            BU::Abs => {
                let z = p.konst(w, 0);
                let neg = p.slt(ha, z);
                let m = p.bin(E::Sub, w, z, ha);
                let r = p.ite(neg, m, ha);
                Ok(self.norm(r))
            }
            BU::Bswap => {
                let mut acc = p.extract(ha, 0, 8);
                let mut k = 8;
                while k < w {
                    let b = p.extract(ha, k, 8);
                    acc = p.concat(acc, b);
                    k += 8;
                }
                Ok(self.norm(acc))
            }
            BU::Ctpop => {
                let mut acc = p.konst(w, 0);
                for k in 0..w {
                    let b = p.extract(ha, k, 1);
                    let z = p.zext(b, w);
                    acc = p.bin(E::Add, w, acc, z);
                }
                Ok(self.norm(acc))
            }
            _ => {
                self.pin(ha, va)?;
                Ok(0)
            }
        }
    }

    fn sym_fbin(&mut self, o: FB, va: u64, vb: u64, ha: u32, hb: u32) -> X<u32> {
        let ha = self.as_float(ha, va)?;
        let hb = self.as_float(hb, vb)?;
        if ha | hb == 0 {
            return Ok(0);
        }
        let (x, y) = (f64::from_bits(va), f64::from_bits(vb));
        // a concrete non-finite operand
        if (ha == 0 && !x.is_finite()) || (hb == 0 && !y.is_finite()) {
            match o {
                FB::Max | FB::Min => {
                    let (cv, hs) = if ha == 0 { (x, hb) } else { (y, ha) };
                    if cv.is_nan() {
                        return Ok(hs);
                    }
                    let pos = cv > 0.0;
                    // max(inf, s) = inf; max(-inf, s) = s
                    return Ok(if (o == FB::Max) == pos { 0 } else { hs });
                }
                FB::Add | FB::Sub => return Ok(0),
                _ => {
                    let (hs, vs) = if ha == 0 { (hb, vb) } else { (ha, va) };
                    self.pin_float(hs, vs)?;
                    return Ok(0);
                }
            }
        }
        let (ia, ib) = (self.fid(ha, va), self.fid(hb, vb));
        let e = match o {
            FB::Add => E::FAdd,
            FB::Sub => E::FSub,
            FB::Mul => E::FMul,
            FB::Div => {
                let n = *self.pool.node(ib);
                if !(n.flo() > 0.0 || n.fhi() < 0.0) {
                    let z = self.pool.fconst(0);
                    let isz = self.pool.fcmp(E::FEq, ib, z);
                    if hb != 0 {
                        self.branch(isz, y == 0.0);
                    }
                    if y == 0.0 {
                        // infinite or NaN: depends only on the sign of the numerator
                        if ha != 0 {
                            let lt = self.pool.fcmp(E::FLt, ia, z);
                            let eq = self.pool.fcmp(E::FEq, ia, z);
                            self.branch(lt, x < 0.0);
                            self.branch(eq, x == 0.0);
                        }
                        return Ok(0);
                    }
                }
                E::FDiv
            }
            FB::Max => E::FMax,
            FB::Min => E::FMin,
            FB::CopySign if !(y == 0.0 && y.is_sign_negative()) => {
                let z = self.pool.fconst(0);
                let lt = self.pool.fcmp(E::FLt, ib, z);
                if hb != 0 {
                    self.branch(lt, y < 0.0);
                }
                let m = self.pool.fun(E::FAbs, ia, 0);
                let r = if y.is_sign_negative() { self.pool.fun(E::FNeg, m, 0) } else { m };
                return Ok(self.norm(r));
            }
            FB::Rem | FB::CopySign => {
                self.pin_float(ia, va)?;
                self.pin_float(ib, vb)?;
                return Ok(0);
            }
        };
        let r = self.pool.fbin(e, ia, ib);
        Ok(self.norm(r))
    }

    fn sym_fun(&mut self, o: FU, va: u64, ha: u32) -> X<u32> {
        let ha = self.as_float(ha, va)?;
        if ha == 0 {
            return Ok(0);
        }
        let r = match o {
            FU::Neg => self.pool.fun(E::FNeg, ha, 0),
            FU::Abs => self.pool.fun(E::FAbs, ha, 0),
            FU::Sqrt => {
                let z = self.pool.fconst(0);
                let neg = self.pool.fcmp(E::FLt, ha, z);
                let x = f64::from_bits(va);
                self.branch(neg, x < 0.0);
                if x < 0.0 {
                    return Ok(0);
                }
                self.pool.fun(E::FSqrt, ha, 0)
            }
            FU::Floor => self.pool.fun(E::FRound, ha, 0),
            FU::Ceil => self.pool.fun(E::FRound, ha, 1),
            FU::Trunc => self.pool.fun(E::FRound, ha, 2),
            FU::Round => self.pool.fun(E::FRound, ha, 3),
            FU::RoundEven => self.pool.fun(E::FRound, ha, 4),
        };
        Ok(self.norm(r))
    }

    fn sym_fcmp(&mut self, p: u8, va: u64, vb: u64, ha: u32, hb: u32) -> X<u32> {
        let ha = self.as_float(ha, va)?;
        let hb = self.as_float(hb, vb)?;
        if ha | hb == 0 {
            return Ok(0);
        }
        let (a, b) = (self.fid(ha, va), self.fid(hb, vb));
        let q = p & 7;
        let r = match q {
            0 => return Ok(0),
            7 => return Ok(0),
            1 => self.pool.fcmp(E::FEq, a, b),
            2 => self.pool.fcmp(E::FLt, b, a),
            3 => self.pool.fcmp(E::FLe, b, a),
            4 => self.pool.fcmp(E::FLt, a, b),
            5 => self.pool.fcmp(E::FLe, a, b),
            _ => {
                let e = self.pool.fcmp(E::FEq, a, b);
                self.pool.not(e)
            }
        };
        Ok(self.norm(r))
    }

    fn sym_switch(&mut self, hv: Id, w: u8, t: &SwitchTab, taken: u32) {
        let mut groups: Vec<(u32, Id)> = Vec::new();
        let mut any = self.pool.fals();
        for (v, e) in &t.cases {
            let k = self.pool.konst(w, *v);
            let q = self.pool.eq(hv, k);
            any = self.pool.bin(E::Or, 1, any, q);
            match groups.iter_mut().find(|g| g.0 == *e) {
                Some(g) => g.1 = self.pool.bin(E::Or, 1, g.1, q),
                None => groups.push((*e, q)),
            }
        }
        let dflt = self.pool.not(any);
        match groups.iter_mut().find(|g| g.0 == t.default) {
            Some(g) => g.1 = self.pool.bin(E::Or, 1, g.1, dflt),
            None => groups.push((t.default, dflt)),
        }
        let mut cond = 0;
        let mut alts = Vec::new();
        for (e, q) in groups {
            if e == taken {
                cond = q;
            } else if self.pool.is_const(q) != Some(0) {
                alts.push(q);
            }
        }
        if self.path.contains(&cond) {
            return;
        }
        self.sym_branches += 1;
        self.record(cond, Alt::Multi(alts), false);
    }

    /// Load through a symbolic address inside constant data: a table lookup expression.
    fn table_load(&mut self, ha: Id, addr: u64, off: i64, bytes: u8, bits: u8) -> X<Option<(u64, u32)>> {
        let n = *self.pool.node(ha);
        if n.w != 64 || n.op != E::Add {
            return Ok(None);
        }
        let kb = match self.pool.is_const(n.b) {
            Some(k) => k.wrapping_add(off as u64),
            None => return Ok(None),
        };
        // kb + scale * x
        let (x, scale) = {
            let m = *self.pool.node(n.a);
            match m.op {
                E::Mul => match self.pool.is_const(m.b) {
                    Some(k) => (m.a, k),
                    None => return Ok(None),
                },
                E::Shl => match self.pool.is_const(m.b) {
                    Some(k) if k < 16 => (m.a, 1u64 << k),
                    _ => return Ok(None),
                },
                _ => (n.a, 1),
            }
        };
        let mut x = x;
        while self.pool.node(x).op == E::Zext {
            x = self.pool.node(x).a;
        }
        let nx = *self.pool.node(x);
        if nx.hi - nx.lo > 4096 {
            return Ok(None);
        }
        // inner additive constant (x = y + c) keeps the index small and non-negative through the range
        let first = kb.wrapping_add(scale.wrapping_mul(nx.lo));
        let last = kb.wrapping_add(scale.wrapping_mul(nx.hi));
        let ce = self.prog.const_end;
        if first < BASE + 4096 || last.wrapping_add(bytes as u64) > ce || first > last {
            return Ok(None);
        }
        let mut t = vec![0u64; nx.hi as usize + 1];
        let mut hsh = 0xcbf29ce484222325u64;
        for i in nx.lo..=nx.hi {
            let a = kb.wrapping_add(scale.wrapping_mul(i));
            let v = rd(&self.mem.m, (a - BASE) as usize, bytes as usize) & mask(bits);
            t[i as usize] = v;
        }
        for i in 0..nx.lo {
            t[i as usize] = t[nx.lo as usize];
        }
        for v in &t {
            hsh = (hsh ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
        }
        let conc = rd(&self.mem.m, (addr - BASE) as usize, bytes as usize) & mask(bits);
        // pointers in tables must be pinned: keep it simple
        if bits == 64 {
            return Ok(None);
        }
        let t = std::sync::Arc::new(t);
        let r = self.pool.table(&t, hsh, bits, x);
        let r = self.norm(r);
        Ok(Some((conc, r)))
    }

    // Hash modes: 1 makes every hash value 0. A mode m of 2 or more makes the hash function an
    // uninterpreted function of the key: the real hash function is run, with its keys set to 0, and
    // its result only serves as the name of a fresh unknown value below m.
    fn abstract_hash(&mut self, real: u64) -> X<u64> {
        let kk = real ^ self.hash_mode.wrapping_mul(0x9E3779B97F4A7C15);
        if let Some((v, _)) = self.hash_tab.get(&kk) {
            return Ok(*v);
        }
        let vi = VarInfo { lo: 0, hi: self.hash_mode - 1, w: 8, den: 0 };
        let (v, id) = self.new_var(vi);
        self.pin(id, v)?;
        let hv = v | v << 57;
        self.hash_tab.insert(kk, (hv, id));
        Ok(hv)
    }

    fn builtin(&mut self, b: Builtin, c: &Code, base: u32, args: u32, n: u32, d: u32, nr: u8) -> X<()> {
        let s = self;
        let mut av: [u64; 12] = [0; 12];
        let mut ah: [u32; 12] = [0; 12];
        for k in 0..(n as usize).min(12) {
            let a = c.args[args as usize + k];
            av[k] = g!(s, c, base, a);
            ah[k] = h!(s, base, a);
        }
        macro_rules! pinall {
            ($($k:expr),*) => {{ $( if ah[$k] != 0 { s.pin(ah[$k], av[$k])?; } )* }};
        }
        match b {
            Builtin::Malloc => {
                pinall!(0);
                let p = s.malloc(av[0], 16, false)?;
                set!(s, base, d, p, 0);
            }
            Builtin::Calloc => {
                pinall!(0, 1);
                let p = s.malloc(av[0] * av[1], 16, true)?;
                set!(s, base, d, p, 0);
            }
            Builtin::Realloc => {
                pinall!(0, 1);
                let old = av[0];
                let p = s.malloc(av[1], 16, false)?;
                if old != 0 {
                    let oo = s.chk(old, 16)?;
                    let oc = rd(&s.mem.m, oo - 16, 8);
                    let k = oc.min(av[1]);
                    let po = s.chk(p, k)?;
                    s.copy(po, oo, k as usize);
                    s.mfree(old)?;
                }
                set!(s, base, d, p, 0);
            }
            Builtin::Free => {
                pinall!(0);
                s.mfree(av[0])?;
            }
            Builtin::Memalign => {
                pinall!(0, 1, 2);
                let p = s.malloc(av[2], av[1], false)?;
                let o = s.chk(av[0], 8)?;
                s.store(o, 8, p, 0);
                set!(s, base, d, 0, 0);
            }
            Builtin::Bcmp | Builtin::Memcmp => {
                pinall!(0, 1, 2);
                let k = av[2] as usize;
                if k == 0 {
                    set!(s, base, d, 0, 0);
                    return Ok(());
                }
                let (x, y) = (s.chk(av[0], k as u64)?, s.chk(av[1], k as u64)?);
                let cmp = {
                    let (p, q) = (&s.mem.m[x..x + k], &s.mem.m[y..y + k]);
                    p.cmp(q)
                };
                let v = match cmp {
                    std::cmp::Ordering::Equal => 0,
                    _ if b == Builtin::Bcmp => 1,
                    std::cmp::Ordering::Less => 0xffff_ffffu64,
                    std::cmp::Ordering::Greater => 1,
                };
                s.steps += k as u64 / 8;
                let mut r = 0;
                if s.mem.any_sym(x, k) || s.mem.any_sym(y, k) {
                    if b == Builtin::Bcmp {
                        let mut acc = s.pool.tru();
                        for i in 0..k {
                            let (p, hp) = s.load(x + i, 1, 8)?;
                            let (q, hq) = s.load(y + i, 1, 8)?;
                            let ip = s.sid(hp, p, 8);
                            let iq = s.sid(hq, q, 8);
                            let e = s.pool.eq(ip, iq);
                            acc = s.pool.bin(E::And, 1, acc, e);
                            if s.pool.is_const(acc) == Some(0) {
                                break;
                            }
                        }
                        let z = s.pool.konst(32, 0);
                        let o = s.pool.konst(32, v.max(1));
                        let o = if v == 0 { s.pool.konst(32, 1) } else { o };
                        r = s.pool.ite(acc, z, o);
                    } else {
                        let mut acc = s.pool.konst(32, 0);
                        for i in (0..k).rev() {
                            let (p, hp) = s.load(x + i, 1, 8)?;
                            let (q, hq) = s.load(y + i, 1, 8)?;
                            let ip = s.sid(hp, p, 8);
                            let iq = s.sid(hq, q, 8);
                            let e = s.pool.eq(ip, iq);
                            let l = s.pool.ult(ip, iq);
                            let m1 = s.pool.konst(32, !0);
                            let p1 = s.pool.konst(32, 1);
                            let t = s.pool.ite(l, m1, p1);
                            acc = s.pool.ite(e, acc, t);
                        }
                        r = acc;
                    }
                    r = s.norm(r);
                }
                set!(s, base, d, v, r);
            }
            Builtin::Strlen => {
                pinall!(0);
                let o = s.chk(av[0], 1)?;
                let mut k = 0;
                while s.mem.m[o + k] != 0 {
                    if s.mem.any_sym(o + k, 1) {
                        let (v, hh) = s.load(o + k, 1, 8)?;
                        if hh != 0 {
                            s.pin(hh, v)?;
                        }
                    }
                    k += 1;
                }
                set!(s, base, d, k as u64, 0);
            }
            Builtin::Panic | Builtin::Abort => {
                let loc = if b == Builtin::Panic { s.location(&av[..(n as usize).min(12)]) } else { "abort".into() };
                if s.allow_panic {
                    return Err(Outcome::AllowedPanic(loc));
                }
                return Err(Outcome::Panic(loc));
            }
            Builtin::NoopZero | Builtin::NoopUnit => {
                for k in 0..nr as u32 {
                    set!(s, base, d + k, 0, 0);
                }
            }
            Builtin::RandomKeys => {
                set!(s, base, d, 0x0123_4567_89ab_cdef, 0);
                set!(s, base, d + 1, 0xfedc_ba98_7654_3210, 0);
            }
            Builtin::HashOne => {
                return eng("hash_one builtin");
            }
            Builtin::Errno => {
                let p = s.prog.errno_addr;
                set!(s, base, d, p, 0);
            }
            Builtin::Write => {
                // only reached for stdout/stderr of the harness
                pinall!(0, 1, 2);
                set!(s, base, d, av[2], 0);
            }
            Builtin::SymInt | Builtin::SymPick => {
                pinall!(0, 1, 2);
                let (lo, hi) = (av[0], av[1]);
                let bits = if b == Builtin::SymPick { 32 } else { av[2] as u8 };
                let bits = if hi > mask(bits) { 64 } else { bits };
                if lo > hi {
                    return eng("empty symbolic range");
                }
                let (v, id) = s.new_var(VarInfo { lo, hi, w: bits, den: 0 });
                let z = s.pool.zext(id, 64);
                if b == Builtin::SymPick {
                    if lo != hi {
                        s.pin(id, v)?;
                    }
                    set!(s, base, d, v, 0);
                } else {
                    let z = if lo == hi { 0 } else { z };
                    set!(s, base, d, v, z);
                }
            }
            Builtin::SymF64 => {
                pinall!(0, 1, 2);
                let (v, id) = s.new_var(VarInfo { lo: av[0], hi: av[1], w: 0, den: av[2] as u8 });
                let f = (v as i64) as f64 * 2f64.powi(-(av[2] as i32));
                let id = if av[0] == av[1] { 0 } else { id };
                set!(s, base, d, f.to_bits(), id);
            }
            Builtin::SymPin | Builtin::SymPinF => {
                pinall!(0);
                set!(s, base, d, av[0], 0);
            }
            Builtin::SymAssume => {
                let v = av[0] & 1;
                if ah[0] != 0 {
                    let bit = s.pool.extract(ah[0], 0, 1);
                    let ne = s.pool.not(bit);
                    if v == 1 {
                        s.record(bit, Alt::None, false);
                    } else {
                        s.record(ne, Alt::Flip, false);
                    }
                }
                if v == 0 {
                    return Err(Outcome::AssumeFail);
                }
            }
            Builtin::SymAssert => {
                let v = av[0] & 1;
                s.asserts += 1;
                if ah[0] != 0 {
                    let bit = s.pool.extract(ah[0], 0, 1);
                    let ne = s.pool.not(bit);
                    if s.pool.is_const(bit).is_none() {
                        s.sym_asserts += 1;
                    }
                    s.record(if v == 1 { bit } else { ne }, Alt::Flip, true);
                }
                if v == 0 {
                    return Err(Outcome::AssertFail(av[1]));
                }
            }
            Builtin::SymReach => {
                if ah[0] != 0 {
                    s.pin(ah[0], av[0])?;
                }
                *s.reach.entry(av[0]).or_insert(0) += 1;
            }
            Builtin::SymObserve => {
                s.obs = (s.obs ^ av[0]).wrapping_mul(0x100000001b3).rotate_left(13);
            }
            Builtin::SymAllowPanic => {
                s.allow_panic = av[0] != 0;
            }
            Builtin::SymHashMode => {
                s.hash_mode = av[0];
            }
            Builtin::Libm(k) => {
                for i in 0..n as usize {
                    let h = s.as_float(ah[i], av[i])?;
                    if h != 0 {
                        s.pin_float(h, av[i])?;
                    }
                }
                let (x, y) = (f64::from_bits(av[0]), f64::from_bits(av[1]));
                let r = match crate::lower::LIBM[k as usize] {
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    "tan" => x.tan(),
                    "asin" => x.asin(),
                    "acos" => x.acos(),
                    "atan" => x.atan(),
                    "sinh" => x.sinh(),
                    "cosh" => x.cosh(),
                    "tanh" => x.tanh(),
                    "exp" => x.exp(),
                    "exp2" => x.exp2(),
                    "exp10" => 10f64.powf(x),
                    "expm1" => x.exp_m1(),
                    "log" => x.ln(),
                    "log2" => x.log2(),
                    "log10" => x.log10(),
                    "log1p" => x.ln_1p(),
                    "cbrt" => x.cbrt(),
                    "asinh" => x.asinh(),
                    "acosh" => x.acosh(),
                    "atanh" => x.atanh(),
                    "pow" => x.powf(y),
                    "atan2" => x.atan2(y),
                    "fmod" => x % y,
                    "fdim" => {
                        if x > y {
                            x - y
                        } else {
                            0.
                        }
                    }
                    "fmax" => x.max(y),
                    _ => x.min(y),
                };
                set!(s, base, d, r.to_bits(), 0);
            }
            Builtin::Hypot => {
                let (x, y) = (f64::from_bits(av[0]), f64::from_bits(av[1]));
                if ah[0] | ah[1] == 0 {
                    set!(s, base, d, x.hypot(y).to_bits(), 0);
                } else {
                    // up to the rounding
                    let (xx, yy) = (x * x, y * y);
                    let a = s.sym_fbin(FB::Mul, av[0], av[0], ah[0], ah[0])?;
                    let b = s.sym_fbin(FB::Mul, av[1], av[1], ah[1], ah[1])?;
                    let q = xx + yy;
                    let c = s.sym_fbin(FB::Add, xx.to_bits(), yy.to_bits(), a, b)?;
                    let r = s.sym_fun(FU::Sqrt, q.to_bits(), c)?;
                    set!(s, base, d, q.sqrt().to_bits(), r);
                }
            }
            Builtin::Fma => {
                let (x, y, z) = (f64::from_bits(av[0]), f64::from_bits(av[1]), f64::from_bits(av[2]));
                if ah[0] | ah[1] | ah[2] == 0 {
                    set!(s, base, d, x.mul_add(y, z).to_bits(), 0);
                } else {
                    // up to the rounding
                    let m = s.sym_fbin(FB::Mul, av[0], av[1], ah[0], ah[1])?;
                    let r = s.sym_fbin(FB::Add, (x * y).to_bits(), av[2], m, ah[2])?;
                    set!(s, base, d, (x * y + z).to_bits(), r);
                }
            }
            Builtin::Powi => {
                pinall!(1);
                let k = av[1] as i32;
                let x = f64::from_bits(av[0]);
                if ah[0] == 0 || k < 0 || k > 64 {
                    let h = s.as_float(ah[0], av[0])?;
                    if h != 0 {
                        s.pin_float(h, av[0])?;
                    }
                    set!(s, base, d, x.powi(k).to_bits(), 0);
                } else {
                    // as compiler-rt computes it
                    let (mut a, mut ha, mut r, mut hr, mut k) = (x, ah[0], 1.0f64, 0, k);
                    loop {
                        if k & 1 == 1 {
                            hr = s.sym_fbin(FB::Mul, r.to_bits(), a.to_bits(), hr, ha)?;
                            r *= a;
                        }
                        k /= 2;
                        if k == 0 {
                            break;
                        }
                        ha = s.sym_fbin(FB::Mul, a.to_bits(), a.to_bits(), ha, ha)?;
                        a *= a;
                    }
                    set!(s, base, d, r.to_bits(), hr);
                }
            }
            Builtin::ClockZero => {
                pinall!(0, 1);
                let o = s.chk(av[1], 16)?;
                s.store(o, 8, 0, 0);
                s.store(o + 8, 8, 0, 0);
                set!(s, base, d, 0, 0);
            }
            Builtin::SymPrefer => {}
            Builtin::SymStop => return Err(Outcome::Ok),
            Builtin::Unknown(i) => {
                let name = &s.prog.ext_names[i as usize];
                return eng(format!("external function {} at {}", name, s.whereami()));
            }
        }
        Ok(())
    }
}

fn conc_ovf(o: Ovf, w: u8, a: u64, b: u64) -> (u64, bool) {
    let m = mask(w);
    let (sa, sb) = (sext(a, w as u32) as i128, sext(b, w as u32) as i128);
    let half = 1i128 << (w - 1);
    match o {
        Ovf::UAdd => {
            let r = a as u128 + b as u128;
            (r as u64 & m, r > m as u128)
        }
        Ovf::USub => (a.wrapping_sub(b) & m, a < b),
        Ovf::UMul => {
            let r = a as u128 * b as u128;
            (r as u64 & m, r > m as u128)
        }
        Ovf::SAdd => {
            let r = sa + sb;
            (r as u64 & m, r >= half || r < -half)
        }
        Ovf::SSub => {
            let r = sa - sb;
            (r as u64 & m, r >= half || r < -half)
        }
        Ovf::SMul => {
            let r = sa * sb;
            (r as u64 & m, r >= half || r < -half)
        }
    }
}
