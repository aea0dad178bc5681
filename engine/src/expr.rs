//! Hash-consed symbolic expressions: bit-vectors (w = 1..64, w = 1 are booleans) and doubles (w = 0).
use std::collections::HashMap;
use std::rc::Rc;
use crate::lower::{sext, B};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum E {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not, // boolean
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Zext,
    Sext,
    Extract, // k = low bit
    Concat,  // a high, b low
    Ite,
    UMulOvf,
    SMulOvf,
    Table, // k = table id (index into tables), a = index
    // floats
    FConst,
    FVar, // k = var index | den << 32
    FAdd,
    FSub,
    FMul,
    FDiv,
    FNeg,
    FAbs,
    FMax,
    FMin,
    FIte,
    FSqrt,
    FFromU,
    FFromS,
    FLt,
    FLe,
    FEq,
    FToI, // float -> int (truncation), w bits, k = signed
    FRound, // k: 0 floor 1 ceil 2 trunc 3 round
}

pub const NOGRID: i16 = i16::MAX;

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: E,
    pub w: u8,
    pub grid: i16, // floats: every value is a multiple of 2^grid
    pub exact: bool, // floats: result of the operation is exactly representable
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
    pub lo: u64, // range (unsigned), or f64 bits
    pub hi: u64,
    pub h: u64,
    pub vars: u128,
}

impl Node {
    pub fn flo(&self) -> f64 {
        f64::from_bits(self.lo)
    }
    pub fn fhi(&self) -> f64 {
        f64::from_bits(self.hi)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VarInfo {
    pub lo: u64, // for floats: i64 as u64
    pub hi: u64,
    pub w: u8, // 0: float on a grid
    pub den: u8,
}

/// A sum of atoms with coefficients and a constant, exact in real arithmetic.
#[derive(Clone, Debug)]
pub struct Lin {
    t: Vec<(Id, f64)>, // sorted by the hash of the atom
    k: f64,
}

fn small(x: f64) -> bool {
    x == 0.0 || (x.abs() < 1e12 && x.abs() > 1e-9 && (x * 1073741824.0 * 1024.0).fract() == 0.0 && (x.to_bits() & 0xff) == 0)
}

pub struct Pool {
    pub n: Vec<Node>,
    tab: Vec<u32>,
    mask: usize,
    pub tables: Vec<std::sync::Arc<Vec<u64>>>,
    pub tab_hash: Vec<u64>,
    lins: HashMap<Id, Option<Rc<Lin>>>,
    // evaluation memo
    stamp: Vec<u32>,
    memo: Vec<u64>,
    cur: u32,
}

fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_mul(0x9E3779B97F4A7C15);
    h = h.rotate_left(29).wrapping_mul(0xBF58476D1CE4E5B9);
    h ^ (h >> 32)
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

pub type Id = u32;

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: Vec::new(),
            tab: vec![0; 1 << 16],
            mask: (1 << 16) - 1,
            tables: Vec::new(),
            tab_hash: Vec::new(),
            lins: HashMap::new(),
            stamp: Vec::new(),
            memo: Vec::new(),
            cur: 0,
        };
        // id 0 is reserved for "concrete"
        p.n.push(Node { op: E::Const, w: 64, grid: 0, exact: true, a: 0, b: 0, c: 0, k: 0, lo: 0, hi: 0, h: 0, vars: 0 });
        p
    }

    fn intern(&mut self, op: E, w: u8, a: Id, b: Id, c: Id, k: u64) -> Id {
        let mut h = mix(op as u64 + 1, w as u64);
        h = mix(h, k);
        if a != 0 {
            h = mix(h, self.n[a as usize].h);
        }
        if b != 0 {
            h = mix(h, self.n[b as usize].h ^ 0x5555);
        }
        if c != 0 {
            h = mix(h, self.n[c as usize].h ^ 0xaaaa);
        }
        self.intern_h(op, w, a, b, c, k, h)
    }
    fn intern_h(&mut self, op: E, w: u8, a: Id, b: Id, c: Id, k: u64, h: u64) -> Id {
        let mut i = h as usize & self.mask;
        loop {
            let x = self.tab[i];
            if x == 0 {
                break;
            }
            let n = &self.n[x as usize];
            if n.h == h && n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.k == k {
                return x;
            }
            i = (i + 1) & self.mask;
        }
        let id = self.n.len() as u32;
        let mut vars = 0u128;
        for x in [a, b, c] {
            if x != 0 {
                vars |= self.n[x as usize].vars;
            }
        }
        let mut n = Node { op, w, grid: NOGRID, exact: true, a, b, c, k, lo: 0, hi: mask(w), h, vars };
        self.range(&mut n);
        self.n.push(n);
        self.tab[i] = id;
        if self.n.len() * 2 > self.mask {
            let nm = (self.mask + 1) * 2;
            self.tab = vec![0; nm];
            self.mask = nm - 1;
            for j in 1..self.n.len() {
                let mut i = self.n[j].h as usize & self.mask;
                while self.tab[i] != 0 {
                    i = (i + 1) & self.mask;
                }
                self.tab[i] = j as u32;
            }
        }
        id
    }

    fn range(&mut self, n: &mut Node) {
        let m = mask(n.w);
        let g = |i: Id| -> (u64, u64) {
            let x = &self.n[i as usize];
            (x.lo, x.hi)
        };
        let f = |i: Id| -> &Node { &self.n[i as usize] };
        let setf = |n: &mut Node, lo: f64, hi: f64, grid: i16, exact_op: bool| {
            // exactness: value multiple of 2^grid and magnitude below 2^(53+grid)
            let mag = lo.abs().max(hi.abs());
            let exact = exact_op || (grid != NOGRID && grid > -1000 && grid < 900 && mag <= 2f64.powi(53 + grid as i32));
            n.exact = exact;
            if exact {
                n.grid = grid;
                n.lo = lo.to_bits();
                n.hi = hi.to_bits();
            } else {
                let slack = mag * 2f64.powi(-50) + 1e-300;
                n.grid = NOGRID;
                n.lo = (lo - slack).to_bits();
                n.hi = (hi + slack).to_bits();
            }
        };
        let gmin = |a: i16, b: i16| if a == NOGRID || b == NOGRID { NOGRID } else { a.min(b) };
        match n.op {
            E::Const => {
                n.lo = n.k;
                n.hi = n.k;
            }
            E::Var => {} // set by var()
            E::Add => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                if let Some(h) = ah.checked_add(bh) {
                    if h <= m {
                        n.lo = al + bl;
                        n.hi = h;
                        return;
                    }
                }
                // adding a "negative" constant: a - k without wrap
                if bl == bh && n.w > 1 {
                    let neg = (0u64.wrapping_sub(bl)) & m;
                    if neg <= al {
                        n.lo = al - neg;
                        n.hi = ah - neg;
                    }
                }
            }
            E::Sub => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                if al >= bh {
                    n.lo = al - bh;
                    n.hi = ah - bl;
                }
            }
            E::Mul => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                if let Some(h) = ah.checked_mul(bh) {
                    if h <= m {
                        n.lo = al * bl;
                        n.hi = h;
                    }
                }
            }
            E::UDiv => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                if bl > 0 {
                    n.lo = al / bh;
                    n.hi = ah / bl;
                }
            }
            E::URem => {
                let ((_, ah), (bl, bh)) = (g(n.a), g(n.b));
                if bl > 0 {
                    n.hi = (bh - 1).min(ah);
                }
            }
            E::Shl => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                if bl == bh && bh < n.w as u64 && ah <= m >> bh {
                    n.lo = al << bh;
                    n.hi = ah << bh;
                }
            }
            E::LShr => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                if bl == bh && bh < n.w as u64 {
                    n.lo = al >> bh;
                    n.hi = ah >> bh;
                } else {
                    n.hi = ah;
                }
            }
            E::And => {
                let ((_, ah), (_, bh)) = (g(n.a), g(n.b));
                n.hi = ah.min(bh);
            }
            E::Or => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                n.lo = al.max(bl);
                let t = ah | bh;
                n.hi = if t == 0 { 0 } else { (!0u64 >> t.leading_zeros()) & m };
            }
            E::Xor => {
                let ((_, ah), (_, bh)) = (g(n.a), g(n.b));
                let t = ah | bh;
                n.hi = if t == 0 { 0 } else { (!0u64 >> t.leading_zeros()) & m };
            }
            E::Zext => {
                let (l, h) = g(n.a);
                n.lo = l;
                n.hi = h;
            }
            E::Sext => {
                let (l, h) = g(n.a);
                let aw = f(n.a).w;
                if h < 1u64 << (aw - 1) {
                    n.lo = l;
                    n.hi = h;
                }
            }
            E::Extract => {
                let (l, h) = g(n.a);
                if n.k == 0 && h <= m {
                    n.lo = l;
                    n.hi = h;
                } else if (h >> n.k) <= m {
                    n.lo = l >> n.k;
                    n.hi = h >> n.k;
                }
            }
            E::Concat => {
                let ((al, ah), (bl, bh)) = (g(n.a), g(n.b));
                let bw = f(n.b).w;
                n.lo = (al << bw) | bl;
                n.hi = (ah << bw) | bh;
            }
            E::Ite => {
                let ((al, ah), (bl, bh)) = (g(n.b), g(n.c));
                n.lo = al.min(bl);
                n.hi = ah.max(bh);
            }
            E::Table => {
                let t = &self.tables[n.k as usize];
                let (l, h) = g(n.a);
                let s = &t[(l as usize).min(t.len() - 1)..=(h as usize).min(t.len() - 1)];
                n.lo = *s.iter().min().unwrap();
                n.hi = *s.iter().max().unwrap();
            }
            E::FConst => {
                let v = f64::from_bits(n.k);
                n.lo = n.k;
                n.hi = n.k;
                n.grid = grid_of(v);
            }
            E::FVar => {} // set by fvar()
            E::FAdd => {
                let (x, y) = (f(n.a), f(n.b));
                setf(n, x.flo() + y.flo(), x.fhi() + y.fhi(), gmin(x.grid, y.grid), false);
            }
            E::FSub => {
                let (x, y) = (f(n.a), f(n.b));
                setf(n, x.flo() - y.fhi(), x.fhi() - y.flo(), gmin(x.grid, y.grid), false);
            }
            E::FMul => {
                let (x, y) = (f(n.a), f(n.b));
                let ps = [x.flo() * y.flo(), x.flo() * y.fhi(), x.fhi() * y.flo(), x.fhi() * y.fhi()];
                let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                let lo = if n.a == n.b { lo.max(0.0) } else { lo };
                let gr = if x.grid == NOGRID || y.grid == NOGRID { NOGRID } else { x.grid.saturating_add(y.grid) };
                let pow2 = |z: &Node| z.op == E::FConst && is_pow2(z.flo());
                setf(n, lo, hi, gr, false);
                if !n.exact && (pow2(x) || pow2(y)) {
                    n.exact = true; // scaling by a power of two never rounds in our ranges
                    n.lo = lo.to_bits();
                    n.hi = hi.to_bits();
                }
            }
            E::FDiv => {
                let (x, y) = (f(n.a), f(n.b));
                if y.flo() > 0.0 || y.fhi() < 0.0 {
                    let ps = [x.flo() / y.flo(), x.flo() / y.fhi(), x.fhi() / y.flo(), x.fhi() / y.fhi()];
                    let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min);
                    let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    if y.op == E::FConst && is_pow2(y.flo()) {
                        let e = grid_of(y.flo());
                        let gr = if x.grid == NOGRID { NOGRID } else { x.grid.saturating_sub(e) };
                        n.exact = true;
                        n.grid = gr;
                        n.lo = lo.to_bits();
                        n.hi = hi.to_bits();
                    } else {
                        setf(n, lo, hi, NOGRID, false);
                    }
                } else {
                    n.exact = false;
                    n.lo = f64::NEG_INFINITY.to_bits();
                    n.hi = f64::INFINITY.to_bits();
                }
            }
            E::FNeg => {
                let x = f(n.a);
                let (l, h, gr) = (-x.fhi(), -x.flo(), x.grid);
                setf(n, l, h, gr, true);
            }
            E::FAbs => {
                let x = f(n.a);
                let gr = x.grid;
                let (l, h) = (x.flo(), x.fhi());
                let lo = if l > 0.0 {
                    l
                } else if h < 0.0 {
                    -h
                } else {
                    0.0
                };
                setf(n, lo, l.abs().max(h.abs()), gr, true);
            }
            E::FMax => {
                let (x, y) = (f(n.a), f(n.b));
                setf(n, x.flo().max(y.flo()), x.fhi().max(y.fhi()), gmin(x.grid, y.grid), true);
            }
            E::FMin => {
                let (x, y) = (f(n.a), f(n.b));
                setf(n, x.flo().min(y.flo()), x.fhi().min(y.fhi()), gmin(x.grid, y.grid), true);
            }
            E::FIte => {
                let (x, y) = (f(n.b), f(n.c));
                setf(n, x.flo().min(y.flo()), x.fhi().max(y.fhi()), gmin(x.grid, y.grid), true);
            }
            E::FSqrt => {
                let x = f(n.a);
                setf(n, x.flo().max(0.0).sqrt(), x.fhi().max(0.0).sqrt(), NOGRID, false);
            }
            E::FFromU => {
                let (l, h) = g(n.a);
                setf(n, l as f64, h as f64, 0, false);
            }
            E::FFromS => {
                let x = f(n.a);
                let half = 1u64 << (x.w - 1);
                if x.hi < half {
                    let (l, h) = (x.lo, x.hi);
                    setf(n, l as f64, h as f64, 0, false);
                } else {
                    let w = x.w;
                    setf(n, sext(half, w as u32) as f64, (half - 1) as f64, 0, false);
                }
            }
            E::FRound => {
                let x = f(n.a);
                let (l, h) = (x.flo().floor(), x.fhi().ceil());
                setf(n, l, h, 0, true);
            }
            _ => {}
        }
    }

    pub fn is_const(&self, i: Id) -> Option<u64> {
        let n = &self.n[i as usize];
        if n.op == E::Const || n.op == E::FConst {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, w: u8, v: u64) -> Id {
        self.intern(E::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn fconst(&mut self, bits: u64) -> Id {
        self.intern(E::FConst, 0, 0, 0, 0, bits)
    }
    pub fn tru(&mut self) -> Id {
        self.konst(1, 1)
    }
    pub fn fals(&mut self) -> Id {
        self.konst(1, 0)
    }
    pub fn var(&mut self, idx: u32, vi: VarInfo) -> Id {
        let h = mix(mix(mix(mix(77, idx as u64), vi.w as u64), vi.lo), vi.hi);
        if vi.w == 0 {
            let k = idx as u64 | (vi.den as u64) << 32;
            // range is part of the identity through the hash
            let id = self.intern_h(E::FVar, 0, 0, 0, 0, k, mix(h, vi.den as u64));
            let s = 2f64.powi(-(vi.den as i32));
            let n = &mut self.n[id as usize];
            n.lo = ((vi.lo as i64) as f64 * s).to_bits();
            n.hi = ((vi.hi as i64) as f64 * s).to_bits();
            n.grid = -(vi.den as i16);
            n.exact = true;
            n.vars = 1u128 << (idx % 128);
            id
        } else {
            let id = self.intern_h(E::Var, vi.w, 0, 0, 0, idx as u64, h);
            let n = &mut self.n[id as usize];
            n.lo = vi.lo;
            n.hi = vi.hi;
            n.vars = 1u128 << (idx % 128);
            id
        }
    }
    /// k/32: is this node a variable carrying its own range, for the solver
    pub fn node(&self, i: Id) -> &Node {
        &self.n[i as usize]
    }

    fn fold(&mut self, op: E, w: u8, a: u64, b: u64) -> u64 {
        let m = mask(w);
        let (sa, sb) = (sext(a, w as u32), sext(b, w as u32));
        (match op {
            E::Add => a.wrapping_add(b),
            E::Sub => a.wrapping_sub(b),
            E::Mul => a.wrapping_mul(b),
            E::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            E::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            E::SDiv => {
                if sb == 0 {
                    if sa >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    sa.wrapping_div(sb) as u64
                }
            }
            E::SRem => {
                if sb == 0 {
                    a
                } else {
                    sa.wrapping_rem(sb) as u64
                }
            }
            E::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            E::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            E::AShr => {
                let s = b.min(w as u64 - 1);
                (sa >> s) as u64
            }
            E::And => a & b,
            E::Or => a | b,
            E::Xor => a ^ b,
            _ => unreachable!(),
        }) & m
    }

    pub fn bin_of(o: B) -> Option<E> {
        Some(match o {
            B::Add => E::Add,
            B::Sub => E::Sub,
            B::Mul => E::Mul,
            B::UDiv => E::UDiv,
            B::SDiv => E::SDiv,
            B::URem => E::URem,
            B::SRem => E::SRem,
            B::Shl => E::Shl,
            B::LShr => E::LShr,
            B::AShr => E::AShr,
            B::And => E::And,
            B::Or => E::Or,
            B::Xor => E::Xor,
            _ => return None,
        })
    }

    pub fn bin(&mut self, op: E, w: u8, mut a: Id, mut b: Id) -> Id {
        let (mut ca, mut cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = self.fold(op, w, x, y);
            return self.konst(w, v);
        }
        let commut = matches!(op, E::Add | E::Mul | E::And | E::Or | E::Xor);
        if commut && ca.is_some() {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        if w == 1 {
            // booleans
            match op {
                E::And => {
                    if a == b {
                        return a;
                    }
                    if let Some(c) = cb {
                        return if c == 1 { a } else { b };
                    }
                    if self.neg_of(a, b) {
                        return self.fals();
                    }
                }
                E::Or => {
                    if a == b {
                        return a;
                    }
                    if let Some(c) = cb {
                        return if c == 1 { b } else { a };
                    }
                    if self.neg_of(a, b) {
                        return self.tru();
                    }
                }
                E::Xor | E::Add | E::Sub => {
                    if a == b {
                        return self.fals();
                    }
                    if let Some(c) = cb {
                        return if c == 1 { self.not(a) } else { a };
                    }
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                _ => {}
            }
        }
        match op {
            E::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.n[a as usize];
                    if na.op == E::Add {
                        if let Some(x) = self.is_const(na.b) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(E::Add, w, na.a, k);
                        }
                    }
                    if na.op == E::Sub {
                        if let Some(x) = self.is_const(na.a) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(E::Sub, w, k, na.b);
                        }
                    }
                    if let Some(r) = self.push_ite(op, w, a, b) {
                        return r;
                    }
                }
                // (x - y) + y
                let na = self.n[a as usize];
                if na.op == E::Sub && na.b == b {
                    return na.a;
                }
                let nb = self.n[b as usize];
                if nb.op == E::Sub && nb.b == a {
                    return nb.a;
                }
            }
            E::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.konst(w, 0u64.wrapping_sub(y));
                    return self.bin(E::Add, w, a, k);
                }
                let na = self.n[a as usize];
                if na.op == E::Add && na.a == b {
                    return na.b;
                }
                if na.op == E::Add && na.b == b {
                    return na.a;
                }
            }
            E::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if cb.is_some() {
                    if let Some(r) = self.push_ite(op, w, a, b) {
                        return r;
                    }
                }
            }
            E::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            E::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    let na = self.n[a as usize];
                    // low mask covering the whole range
                    if y.wrapping_add(1).is_power_of_two() && na.hi <= y {
                        return a;
                    }
                    if na.op == E::And {
                        if let Some(x) = self.is_const(na.b) {
                            let k = self.konst(w, x & y);
                            return self.bin(E::And, w, na.a, k);
                        }
                    }
                    if y.wrapping_add(1).is_power_of_two() {
                        let bits = y.count_ones() as u8;
                        if bits < w && (bits == 8 || bits == 16 || bits == 32 || bits == 1) {
                            let t = self.extract(a, 0, bits);
                            return self.zext(t, w);
                        }
                    }
                    if let Some(r) = self.push_ite(op, w, a, b) {
                        return r;
                    }
                    if na.op == E::Zext {
                        let iw = self.n[na.a as usize].w;
                        let k = self.konst(iw, y);
                        let t = self.bin(E::And, iw, na.a, k);
                        return self.zext(t, w);
                    }
                }
            }
            E::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(y) = cb {
                    let na = self.n[a as usize];
                    if let Some(r) = self.push_ite(op, w, a, b) {
                        return r;
                    }
                    if na.op == E::Zext {
                        let iw = self.n[na.a as usize].w;
                        if y <= mask(iw) {
                            let k = self.konst(iw, y);
                            let t = self.bin(E::Or, iw, na.a, k);
                            return self.zext(t, w);
                        }
                    }
                }
            }
            E::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb.is_some() {
                    if let Some(r) = self.push_ite(op, w, a, b) {
                        return r;
                    }
                }
            }
            E::Shl | E::LShr | E::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u64 && op != E::AShr {
                        return self.konst(w, 0);
                    }
                    let na = self.n[a as usize];
                    if op == E::LShr {
                        if na.hi >> y == 0 {
                            return self.konst(w, 0);
                        }
                        // lshr(zext/concat) -> zext(extract)
                        let bits = w - y as u8;
                        if y % 8 == 0 || matches!(na.op, E::Zext | E::Concat) {
                            let t = self.extract(a, y as u8, bits);
                            return self.zext(t, w);
                        }
                    }
                    if op == E::AShr && na.hi < 1u64 << (w - 1) {
                        return self.bin(E::LShr, w, a, b);
                    }
                    if let Some(r) = self.push_ite(op, w, a, b) {
                        return r;
                    }
                }
            }
            _ => {}
        }
        if commut && cb.is_none() && self.n[a as usize].h > self.n[b as usize].h {
            std::mem::swap(&mut a, &mut b);
        }
        let id = self.intern(op, w, a, b, 0, 0);
        self.collapse(id)
    }
    /// An expression whose range is a single value is that value.
    fn collapse(&mut self, id: Id) -> Id {
        let n = self.n[id as usize];
        if n.op != E::Const && n.w != 0 && n.lo == n.hi {
            return self.konst(n.w, n.lo);
        }
        id
    }
    /// op(ite(c, k1, k2), k) -> ite(c, op(k1,k), op(k2,k))
    fn push_ite(&mut self, op: E, w: u8, a: Id, b: Id) -> Option<Id> {
        let na = self.n[a as usize];
        if na.op == E::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let x = self.bin(op, w, na.b, b);
            let y = self.bin(op, w, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        None
    }
    fn neg_of(&self, a: Id, b: Id) -> bool {
        let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
        (na.op == E::Not && na.a == b) || (nb.op == E::Not && nb.a == a)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n[a as usize];
        match n.op {
            E::Const => self.konst(1, n.k ^ 1),
            E::Not => n.a,
            E::Ult => self.ule(n.b, n.a),
            E::Ule => self.ult(n.b, n.a),
            E::Slt => self.sle(n.b, n.a),
            E::Sle => self.slt(n.b, n.a),
            _ => self.intern(E::Not, 1, a, 0, 0, 0),
        }
    }
    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b {
            return self.tru();
        }
        let (mut ca, mut cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(1, (x == y) as u64);
        }
        if ca.is_some() {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if na.hi < nb.lo || nb.hi < na.lo {
            if na.op != E::FToI {
                return self.fals();
            }
        }
        if let Some(y) = cb {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                E::Zext => {
                    let iw = self.n[na.a as usize].w;
                    if y > mask(iw) {
                        return self.fals();
                    }
                    let k = self.konst(iw, y);
                    return self.eq(na.a, k);
                }
                E::Sext => {
                    let iw = self.n[na.a as usize].w;
                    let t = y & mask(iw);
                    if (sext(t, iw as u32) as u64) & mask(w) != y {
                        return self.fals();
                    }
                    let k = self.konst(iw, t);
                    return self.eq(na.a, k);
                }
                E::Add => {
                    if let Some(x) = self.is_const(na.b) {
                        let k = self.konst(w, y.wrapping_sub(x));
                        return self.eq(na.a, k);
                    }
                }
                E::Sub => {
                    if let Some(x) = self.is_const(na.a) {
                        let k = self.konst(w, x.wrapping_sub(y));
                        return self.eq(na.b, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                E::Xor => {
                    if let Some(x) = self.is_const(na.b) {
                        let k = self.konst(w, x ^ y);
                        return self.eq(na.a, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                E::Or => {
                    if y == 0 {
                        let z = self.konst(w, 0);
                        let p = self.eq(na.a, z);
                        let q = self.eq(na.b, z);
                        return self.bin(E::And, 1, p, q);
                    }
                }
                E::Concat => {
                    let bw = self.n[na.b as usize].w;
                    let aw = self.n[na.a as usize].w;
                    let kh = self.konst(aw, y >> bw);
                    let kl = self.konst(bw, y);
                    let p = self.eq(na.a, kh);
                    let q = self.eq(na.b, kl);
                    return self.bin(E::And, 1, p, q);
                }
                E::Ite => {
                    let (tb, tc) = (self.is_const(na.b), self.is_const(na.c));
                    if tb.is_some() || tc.is_some() {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                E::Table => {
                    // index set with this value
                    let t = self.tables[na.k as usize].clone();
                    let ni = self.n[na.a as usize];
                    let iw = ni.w;
                    let mut r = self.fals();
                    let mut i = ni.lo as usize;
                    let end = ni.hi as usize;
                    let mut runs = 0;
                    while i <= end && i < t.len() {
                        if t[i] == y {
                            let st = i;
                            while i + 1 <= end && i + 1 < t.len() && t[i + 1] == y {
                                i += 1;
                            }
                            let kl = self.konst(iw, st as u64);
                            let kh = self.konst(iw, i as u64);
                            let p = self.ule(kl, na.a);
                            let q = self.ule(na.a, kh);
                            let pq = self.bin(E::And, 1, p, q);
                            r = self.bin(E::Or, 1, r, pq);
                            runs += 1;
                        }
                        i += 1;
                    }
                    let _ = runs;
                    return r;
                }
                _ => {}
            }
        } else {
            if na.op == E::Zext && nb.op == E::Zext {
                let (wa, wb) = (self.n[na.a as usize].w, self.n[nb.a as usize].w);
                if wa == wb {
                    return self.eq(na.a, nb.a);
                }
            }
            if na.op == E::Concat && nb.op == E::Concat && self.n[na.b as usize].w == self.n[nb.b as usize].w {
                let p = self.eq(na.a, nb.a);
                let q = self.eq(na.b, nb.b);
                return self.bin(E::And, 1, p, q);
            }
        }
        if cb.is_none() && na.h > nb.h {
            std::mem::swap(&mut a, &mut b);
        }
        self.intern(E::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: Id, b: Id) -> Id {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.fals();
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo {
            return self.tru();
        }
        if na.lo >= nb.hi {
            return self.fals();
        }
        if na.w == 1 {
            let x = self.not(a);
            return self.bin(E::And, 1, x, b);
        }
        if let Some(y) = self.is_const(b) {
            if y == na.lo.wrapping_add(1) && na.lo < !0 {
                let k = self.konst(na.w, na.lo);
                return self.eq(a, k);
            }
            if na.op == E::Zext {
                let iw = self.n[na.a as usize].w;
                // y <= mask(iw) because otherwise the range decides
                let k = self.konst(iw, y);
                return self.ult(na.a, k);
            }
            if na.op == E::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                let p = self.ult(na.b, b);
                let q = self.ult(na.c, b);
                return self.ite(na.a, p, q);
            }
        }
        if let Some(x) = self.is_const(a) {
            if nb.hi > 0 && x == nb.hi - 1 {
                let k = self.konst(nb.w, nb.hi);
                return self.eq(b, k);
            }
            if nb.op == E::Zext {
                let iw = self.n[nb.a as usize].w;
                let k = self.konst(iw, x);
                return self.ult(k, nb.a);
            }
            if nb.op == E::Ite && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
                let p = self.ult(a, nb.b);
                let q = self.ult(a, nb.c);
                return self.ite(nb.a, p, q);
            }
        }
        if na.op == E::Zext && nb.op == E::Zext && self.n[na.a as usize].w == self.n[nb.a as usize].w {
            return self.ult(na.a, nb.a);
        }
        self.intern(E::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.tru();
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi <= nb.lo {
            return self.tru();
        }
        if na.lo > nb.hi {
            return self.fals();
        }
        if na.w == 1 {
            let x = self.not(a);
            return self.bin(E::Or, 1, x, b);
        }
        if let Some(y) = self.is_const(b) {
            // a <= y  ==  a < y+1
            if y < mask(na.w) {
                let k = self.konst(na.w, y + 1);
                return self.ult(a, k);
            }
        }
        if let Some(x) = self.is_const(a) {
            if x > 0 {
                let k = self.konst(na.w, x - 1);
                return self.ult(k, b);
            }
        }
        if na.op == E::Zext && nb.op == E::Zext && self.n[na.a as usize].w == self.n[nb.a as usize].w {
            return self.ule(na.a, nb.a);
        }
        self.intern(E::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        self.scmp(a, b, true)
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        self.scmp(a, b, false)
    }
    fn scmp(&mut self, a: Id, b: Id, strict: bool) -> Id {
        if a == b {
            return self.konst(1, !strict as u64);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (sext(x, w as u32), sext(y, w as u32));
            return self.konst(1, (if strict { x < y } else { x <= y }) as u64);
        }
        let half = 1u64 << (w - 1);
        // same sign class: unsigned comparison
        let an = na.lo >= half;
        let ap = na.hi < half;
        let bn = nb.lo >= half;
        let bp = nb.hi < half;
        if (an && bn) || (ap && bp) {
            return if strict { self.ult(a, b) } else { self.ule(a, b) };
        }
        if an && bp {
            return self.tru();
        }
        if ap && bn {
            return self.fals();
        }
        if na.op == E::Sext && nb.op == E::Const {
            let iw = self.n[na.a as usize].w;
            let y = sext(nb.k, w as u32);
            let (mn, mx) = (sext(1u64 << (iw - 1), iw as u32), (1i64 << (iw - 1)) - 1);
            if y > mx {
                return self.tru();
            }
            if y >= mn && iw > 1 {
                let k = self.konst(iw, y as u64);
                return self.scmp(na.a, k, strict);
            }
        }
        if w == 1 {
            // signed i1: 1 is -1
            let (x, y) = if strict { (a, self.not(b)) } else { (self.not(b), a) };
            return self.bin(if strict { E::And } else { E::Or }, 1, x, y);
        }
        // a < 0  ->  top bit
        if strict && nb.op == E::Const && nb.k == 0 {
            return self.extract(a, w - 1, 1);
        }
        self.intern(if strict { E::Slt } else { E::Sle }, 1, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let na = self.n[a as usize];
        if na.w == w {
            return a;
        }
        match na.op {
            E::Const => self.konst(w, na.k),
            E::Zext => self.zext(na.a, w),
            E::Ite if self.is_const(na.b).is_some() && self.is_const(na.c).is_some() => {
                let x = self.zext(na.b, w);
                let y = self.zext(na.c, w);
                self.ite(na.a, x, y)
            }
            _ => self.intern(E::Zext, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let na = self.n[a as usize];
        if na.w == w {
            return a;
        }
        match na.op {
            E::Const => self.konst(w, sext(na.k, na.w as u32) as u64),
            _ if na.hi < 1u64 << (na.w - 1) => self.zext(a, w),
            E::Sext => self.sext(na.a, w),
            E::Ite if self.is_const(na.b).is_some() && self.is_const(na.c).is_some() => {
                let x = self.sext(na.b, w);
                let y = self.sext(na.c, w);
                self.ite(na.a, x, y)
            }
            _ if na.w == 1 => {
                let x = self.konst(w, !0);
                let y = self.konst(w, 0);
                self.ite(a, x, y)
            }
            _ => self.intern(E::Sext, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let na = self.n[a as usize];
        if lo == 0 && w == na.w {
            return a;
        }
        match na.op {
            E::Const => return self.konst(w, na.k >> lo),
            E::Extract => return self.extract(na.a, lo + na.k as u8, w),
            E::Concat => {
                let bw = self.n[na.b as usize].w;
                if lo >= bw {
                    return self.extract(na.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(na.b, lo, w);
                }
                let hi = self.extract(na.a, 0, lo + w - bw);
                let l = self.extract(na.b, lo, bw - lo);
                return self.concat(hi, l);
            }
            E::Zext => {
                let iw = self.n[na.a as usize].w;
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(na.a, lo, w);
                }
                let t = self.extract(na.a, lo, iw - lo);
                return self.zext(t, w);
            }
            E::Sext => {
                let iw = self.n[na.a as usize].w;
                if lo + w <= iw {
                    return self.extract(na.a, lo, w);
                }
            }
            E::Ite if self.is_const(na.b).is_some() && self.is_const(na.c).is_some() => {
                let x = self.extract(na.b, lo, w);
                let y = self.extract(na.c, lo, w);
                return self.ite(na.a, x, y);
            }
            E::And | E::Or | E::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.op, w, x, y);
            }
            E::Add | E::Sub | E::Mul if lo == 0 => {
                let x = self.extract(na.a, 0, w);
                let y = self.extract(na.b, 0, w);
                return self.bin(na.op, w, x, y);
            }
            E::Shl => {
                if let Some(k) = self.is_const(na.b) {
                    let k = k as u8;
                    if lo >= k {
                        return self.extract(na.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(w, 0);
                    }
                }
            }
            _ => {}
        }
        if na.hi >> lo == 0 {
            return self.konst(w, 0);
        }
        let id = self.intern(E::Extract, w, a, 0, 0, lo as u64);
        self.collapse(id)
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w + nb.w;
        if let (E::Const, E::Const) = (na.op, nb.op) {
            return self.konst(w, na.k << nb.w | nb.k);
        }
        if na.op == E::Const && na.k == 0 {
            return self.zext(b, w);
        }
        // adjacent extracts of one value
        if na.op == E::Extract && nb.op == E::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
            return self.extract(na.a, nb.k as u8, w);
        }
        // zext(x) high parts
        if nb.op == E::Extract && na.op == E::Concat {
            let nab = self.n[na.b as usize];
            if nab.op == E::Extract && nab.a == nb.a && nab.k == nb.k + nb.w as u64 {
                let t = self.extract(nb.a, nb.k as u8, nb.w + nab.w);
                return self.concat(na.a, t);
            }
        }
        self.intern(E::Concat, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == E::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.n[a as usize].w;
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(E::Or, 1, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(E::And, 1, n, b);
                }
                (None, Some(0)) => return self.bin(E::And, 1, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(E::Or, 1, n, a);
                }
                _ => {}
            }
        }
        self.intern(E::Ite, w, c, a, b, 0)
    }
    pub fn umul_ovf(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if let Some(h) = na.hi.checked_mul(nb.hi) {
            if h <= mask(w) {
                return self.fals();
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.is_const(x) {
                if k == 0 {
                    return self.fals();
                }
                let lim = self.konst(w, mask(w) / k);
                return self.ult(lim, y);
            }
        }
        self.intern(E::UMulOvf, 1, a, b, 0, 0)
    }
    pub fn smul_ovf(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let half = 1u64 << (na.w - 1);
        if na.hi < half && nb.hi < half {
            if let Some(h) = na.hi.checked_mul(nb.hi) {
                if h < half {
                    return self.fals();
                }
            }
        }
        self.intern(E::SMulOvf, 1, a, b, 0, 0)
    }
    pub fn table(&mut self, t: &std::sync::Arc<Vec<u64>>, h: u64, w: u8, idx: Id) -> Id {
        let k = match self.tab_hash.iter().position(|x| *x == h) {
            Some(k) => k,
            None => {
                self.tables.push(t.clone());
                self.tab_hash.push(h);
                self.tables.len() - 1
            }
        };
        let hh = mix(mix(mix(h, 991), self.n[idx as usize].h), w as u64);
        let id = self.intern_h(E::Table, w, idx, 0, 0, k as u64, hh);
        self.collapse(id)
    }

    // ---- exact linear forms
    fn lin(&mut self, id: Id) -> Rc<Lin> {
        let n = self.n[id as usize];
        if n.op == E::FConst && small(n.flo()) {
            return Rc::new(Lin { t: vec![], k: n.flo() });
        }
        if !matches!(n.op, E::FAdd | E::FSub | E::FNeg | E::FMul | E::FDiv) || !n.exact {
            return Rc::new(Lin { t: vec![(id, 1.0)], k: 0.0 });
        }
        if let Some(l) = self.lins.get(&id) {
            return match l {
                Some(l) => l.clone(),
                None => Rc::new(Lin { t: vec![(id, 1.0)], k: 0.0 }),
            };
        }
        let cst = |p: &Pool, i: Id| p.is_const(i).map(f64::from_bits);
        let r = match n.op {
            E::FAdd => {
                let (a, b) = (self.lin(n.a), self.lin(n.b));
                self.lin_add(&a, &b, 1.0)
            }
            E::FSub => {
                let (a, b) = (self.lin(n.a), self.lin(n.b));
                self.lin_add(&a, &b, -1.0)
            }
            E::FNeg => {
                let a = self.lin(n.a);
                self.lin_scale(&a, -1.0)
            }
            E::FMul => match (cst(self, n.a), cst(self, n.b)) {
                (Some(c), _) => {
                    let b = self.lin(n.b);
                    self.lin_scale(&b, c)
                }
                (_, Some(c)) => {
                    let a = self.lin(n.a);
                    self.lin_scale(&a, c)
                }
                _ => None,
            },
            _ => match cst(self, n.b) {
                Some(c) if is_pow2(c) => {
                    let a = self.lin(n.a);
                    self.lin_scale(&a, 1.0 / c)
                }
                _ => None,
            },
        };
        let r = r.filter(|l| l.t.len() <= 24).map(Rc::new);
        self.lins.insert(id, r.clone());
        r.unwrap_or_else(|| Rc::new(Lin { t: vec![(id, 1.0)], k: 0.0 }))
    }
    fn lin_scale(&self, a: &Lin, c: f64) -> Option<Lin> {
        let t: Vec<(Id, f64)> = if c == 0.0 { vec![] } else { a.t.iter().map(|x| (x.0, x.1 * c)).collect() };
        if !small(c) || !small(a.k * c) || t.iter().any(|x| !small(x.1)) {
            return None;
        }
        Some(Lin { t, k: a.k * c })
    }
    fn lin_add(&self, a: &Lin, b: &Lin, s: f64) -> Option<Lin> {
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            let ha = a.t.get(i).map(|x| (self.n[x.0 as usize].h, x.0));
            let hb = b.t.get(j).map(|x| (self.n[x.0 as usize].h, x.0));
            match (ha, hb) {
                (Some(x), Some(y)) if x == y => {
                    let c = a.t[i].1 + s * b.t[j].1;
                    if c != 0.0 {
                        t.push((x.1, c));
                    }
                    i += 1;
                    j += 1;
                }
                (Some(x), y) if y.is_none() || x < y.unwrap() => {
                    t.push(a.t[i]);
                    i += 1;
                }
                _ => {
                    t.push((b.t[j].0, s * b.t[j].1));
                    j += 1;
                }
            }
        }
        let k = a.k + s * b.k;
        if !small(k) || t.iter().any(|x| !small(x.1)) {
            return None;
        }
        Some(Lin { t, k })
    }
    /// The sum as an expression, if all of its steps are exact.
    fn lin_build(&mut self, l: &Lin, with_k: bool) -> Option<Id> {
        let mut acc: Option<Id> = None;
        for (id, c) in &l.t {
            let neg = *c < 0.0 && acc.is_some();
            let m = if neg { -c } else { *c };
            let term = if m == 1.0 {
                *id
            } else {
                let k = self.fconst(m.to_bits());
                let (mut x, mut y) = (k, *id);
                if self.n[x as usize].h > self.n[y as usize].h {
                    std::mem::swap(&mut x, &mut y);
                }
                self.intern(E::FMul, 0, x, y, 0, 0)
            };
            if m != 1.0 && !self.n[term as usize].exact {
                return None;
            }
            acc = Some(match acc {
                None => term,
                Some(a) => {
                    let r = if neg {
                        self.intern(E::FSub, 0, a, term, 0, 0)
                    } else {
                        let (mut x, mut y) = (a, term);
                        if self.n[x as usize].h > self.n[y as usize].h {
                            std::mem::swap(&mut x, &mut y);
                        }
                        self.intern(E::FAdd, 0, x, y, 0, 0)
                    };
                    if !self.n[r as usize].exact {
                        return None;
                    }
                    r
                }
            });
        }
        match acc {
            None => Some(self.fconst(if with_k { l.k.to_bits() } else { 0 })),
            Some(a) if with_k && l.k != 0.0 => {
                let k = self.fconst(l.k.to_bits());
                let (mut x, mut y) = (a, k);
                if self.n[x as usize].h > self.n[y as usize].h {
                    std::mem::swap(&mut x, &mut y);
                }
                let r = self.intern(E::FAdd, 0, x, y, 0, 0);
                if self.n[r as usize].exact {
                    Some(r)
                } else {
                    None
                }
            }
            a => a,
        }
    }
    fn lin_simplify(&mut self, id: Id) -> Id {
        let n = self.n[id as usize];
        if !n.exact || !matches!(n.op, E::FAdd | E::FSub) {
            return id;
        }
        let (a, b) = (self.lin(n.a), self.lin(n.b));
        let l = self.lin(id);
        if l.t.len() == 1 && l.t[0].0 == id {
            return id;
        }
        if l.t.len() < a.t.len() + b.t.len() || (a.k != 0.0 && b.k != 0.0) {
            if let Some(r) = self.lin_build(&l, true) {
                return r;
            }
        }
        id
    }

    // ---- floats
    pub fn fbin(&mut self, op: E, mut a: Id, mut b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let r = match op {
                E::FAdd => x + y,
                E::FSub => x - y,
                E::FMul => x * y,
                E::FDiv => x / y,
                E::FMax => x.max(y),
                E::FMin => x.min(y),
                _ => unreachable!(),
            };
            return self.fconst(r.to_bits());
        }
        let zero = |p: &Pool, i: Id| p.is_const(i).map_or(false, |x| f64::from_bits(x) == 0.0);
        let one = |p: &Pool, i: Id| p.is_const(i).map_or(false, |x| f64::from_bits(x) == 1.0);
        match op {
            E::FAdd => {
                if zero(self, a) {
                    return b;
                }
                if zero(self, b) {
                    return a;
                }
                // exact reassociation (x + c1) + c2
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if self.n[a as usize].h > self.n[b as usize].h {
                    std::mem::swap(&mut a, &mut b);
                }
                let _ = (na, nb);
            }
            E::FSub => {
                if zero(self, b) {
                    return a;
                }
                if a == b {
                    return self.fconst(0);
                }
            }
            E::FMul => {
                if one(self, a) {
                    return b;
                }
                if one(self, b) {
                    return a;
                }
                if zero(self, a) {
                    return a;
                }
                if zero(self, b) {
                    return b;
                }
                if self.n[a as usize].h > self.n[b as usize].h {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            E::FDiv => {
                if one(self, b) {
                    return a;
                }
                // the divisor is not zero: the executor has decided that before
                if zero(self, a) {
                    return a;
                }
            }
            E::FMax | E::FMin => {
                if a == b {
                    return a;
                }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if na.flo() >= nb.fhi() {
                    return if op == E::FMax { a } else { b };
                }
                if nb.flo() >= na.fhi() {
                    return if op == E::FMax { b } else { a };
                }
                if na.h > nb.h {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let id = self.intern(op, 0, a, b, 0, 0);
        if op == E::FAdd || op == E::FSub {
            return self.lin_simplify(id);
        }
        id
    }
    pub fn fun(&mut self, op: E, a: Id, k: u64) -> Id {
        let n = self.n[a as usize];
        if let Some(x) = self.is_const(a) {
            let x = f64::from_bits(x);
            let r = match op {
                E::FNeg => -x,
                E::FAbs => x.abs(),
                E::FSqrt => x.sqrt(),
                E::FRound => fround(k, x),
                _ => unreachable!(),
            };
            return self.fconst(r.to_bits());
        }
        if op == E::FNeg && n.op == E::FNeg {
            return n.a;
        }
        // sqrt(p * p), when the square is exact
        if op == E::FSqrt && n.op == E::FMul && n.a == n.b && n.exact {
            return self.fun(E::FAbs, n.a, 0);
        }
        if op == E::FAbs {
            if n.flo() >= 0.0 {
                return a;
            }
            if n.fhi() <= 0.0 {
                return self.fun(E::FNeg, a, 0);
            }
        }
        if op == E::FRound && n.grid != NOGRID && n.grid >= 0 {
            return a;
        }
        self.intern(op, 0, a, 0, 0, k)
    }
    pub fn fite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        self.intern(E::FIte, 0, c, a, b, 0)
    }
    pub fn ffrom(&mut self, signed: bool, a: Id) -> Id {
        let n = self.n[a as usize];
        if n.op == E::Const {
            let v = if signed { sext(n.k, n.w as u32) as f64 } else { n.k as f64 };
            return self.fconst(v.to_bits());
        }
        self.intern(if signed { E::FFromS } else { E::FFromU }, 0, a, 0, 0, 0)
    }
    pub fn ftoi(&mut self, signed: bool, w: u8, a: Id) -> Id {
        self.intern(E::FToI, w, a, 0, 0, signed as u64)
    }
    pub fn fcmp(&mut self, op: E, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op != E::FConst || nb.op != E::FConst {
            // 0 < sqrt(e) is 0 < e, and 0 < p*p + q*q is p != 0 or q != 0
            if op == E::FLt && na.op == E::FConst && na.flo() == 0.0 {
                if nb.op == E::FSqrt {
                    return self.fcmp(E::FLt, a, nb.a);
                }
                if nb.op == E::FMul && nb.a == nb.b && self.n[nb.a as usize].exact {
                    let e = self.fcmp(E::FEq, nb.a, a);
                    return self.not(e);
                }
                if nb.op == E::FAdd {
                    let (x, y) = (self.n[nb.a as usize], self.n[nb.b as usize]);
                    let sq = |p: &Pool, n: &Node| (n.op == E::FMul && n.a == n.b && p.n[n.a as usize].exact) || (n.op == E::FConst && n.flo() >= 0.0);
                    if sq(self, &x) && sq(self, &y) {
                        let p = self.fcmp(E::FLt, a, nb.a);
                        let q = self.fcmp(E::FLt, a, nb.b);
                        let (p, q) = (self.not(p), self.not(q));
                        let r = self.bin(E::And, 1, p, q);
                        return self.not(r);
                    }
                }
            }
            // common parts of both sides
            let inner = |n: &Node| n.exact && matches!(n.op, E::FAdd | E::FSub | E::FMul | E::FDiv | E::FNeg);
            if inner(&na) || inner(&nb) {
                let (la, lb) = (self.lin(a), self.lin(b));
                if let Some(d) = self.lin_add(&la, &lb, -1.0) {
                    if d.t.is_empty() {
                        let r = match op {
                            E::FLt => d.k < 0.0,
                            E::FLe => d.k <= 0.0,
                            _ => d.k == 0.0,
                        };
                        return if r { self.tru() } else { self.fals() };
                    }
                    if d.t.len() < la.t.len() + lb.t.len() || (la.k != 0.0 && lb.k != 0.0) {
                        if let Some(r) = self.lin_build(&d, false) {
                            let k = self.fconst((0.0 - d.k).to_bits());
                            return self.fcmp2(op, r, k);
                        }
                    }
                }
            }
        }
        self.fcmp2(op, a, b)
    }
    fn fcmp2(&mut self, op: E, mut a: Id, mut b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        match op {
            E::FLt => {
                if na.fhi() < nb.flo() {
                    return self.tru();
                }
                if na.flo() >= nb.fhi() || a == b {
                    return self.fals();
                }
            }
            E::FLe => {
                if na.fhi() <= nb.flo() || a == b {
                    return self.tru();
                }
                if na.flo() > nb.fhi() {
                    return self.fals();
                }
            }
            _ => {
                if a == b {
                    return self.tru();
                }
                if na.fhi() < nb.flo() || nb.fhi() < na.flo() {
                    return self.fals();
                }
                if na.h > nb.h {
                    std::mem::swap(&mut a, &mut b);
                }
            }
        }
        self.intern(op, 1, a, b, 0, 0)
    }

    // ---- evaluation under an assignment (var index -> value)
    pub fn eval_begin(&mut self) {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.cur = 1;
        }
        let n = self.n.len();
        if self.stamp.len() < n {
            self.stamp.resize(n + 1024, 0);
            self.memo.resize(n + 1024, 0);
        }
    }
    pub fn eval(&mut self, i: Id, asg: &[u64]) -> u64 {
        if self.stamp[i as usize] == self.cur {
            return self.memo[i as usize];
        }
        let n = self.n[i as usize];
        let w = n.w;
        let fb = |x: f64| x.to_bits();
        let v = match n.op {
            E::Const | E::FConst => n.k,
            E::Var => asg.get(n.k as usize).cloned().unwrap_or(n.lo),
            E::FVar => {
                let idx = (n.k & 0xffff_ffff) as usize;
                match asg.get(idx) {
                    Some(v) => fb(*v as i64 as f64 * 2f64.powi(-((n.k >> 32) as i32))),
                    None => n.lo,
                }
            }
            E::Not => self.eval(n.a, asg) ^ 1,
            E::Eq => (self.eval(n.a, asg) == self.eval(n.b, asg)) as u64,
            E::Ult => (self.eval(n.a, asg) < self.eval(n.b, asg)) as u64,
            E::Ule => (self.eval(n.a, asg) <= self.eval(n.b, asg)) as u64,
            E::Slt | E::Sle => {
                let aw = self.n[n.a as usize].w as u32;
                let (x, y) = (sext(self.eval(n.a, asg), aw), sext(self.eval(n.b, asg), aw));
                (if n.op == E::Slt { x < y } else { x <= y }) as u64
            }
            E::Zext => self.eval(n.a, asg),
            E::Sext => {
                let aw = self.n[n.a as usize].w as u32;
                sext(self.eval(n.a, asg), aw) as u64 & mask(w)
            }
            E::Extract => (self.eval(n.a, asg) >> n.k) & mask(w),
            E::Concat => {
                let bw = self.n[n.b as usize].w;
                self.eval(n.a, asg) << bw | self.eval(n.b, asg)
            }
            E::Ite | E::FIte => {
                if self.eval(n.a, asg) == 1 {
                    self.eval(n.b, asg)
                } else {
                    self.eval(n.c, asg)
                }
            }
            E::UMulOvf => {
                let aw = self.n[n.a as usize].w;
                let p = self.eval(n.a, asg) as u128 * self.eval(n.b, asg) as u128;
                (p > mask(aw) as u128) as u64
            }
            E::SMulOvf => {
                let aw = self.n[n.a as usize].w as u32;
                let p = sext(self.eval(n.a, asg), aw) as i128 * sext(self.eval(n.b, asg), aw) as i128;
                let half = 1i128 << (aw - 1);
                (p >= half || p < -half) as u64
            }
            E::Table => {
                let x = self.eval(n.a, asg) as usize;
                let t = &self.tables[n.k as usize];
                t[x.min(t.len() - 1)]
            }
            E::FAdd | E::FSub | E::FMul | E::FDiv | E::FMax | E::FMin => {
                let (x, y) = (f64::from_bits(self.eval(n.a, asg)), f64::from_bits(self.eval(n.b, asg)));
                fb(match n.op {
                    E::FAdd => x + y,
                    E::FSub => x - y,
                    E::FMul => x * y,
                    E::FDiv => x / y,
                    E::FMax => x.max(y),
                    _ => x.min(y),
                })
            }
            E::FNeg => fb(-f64::from_bits(self.eval(n.a, asg))),
            E::FAbs => fb(f64::from_bits(self.eval(n.a, asg)).abs()),
            E::FSqrt => fb(f64::from_bits(self.eval(n.a, asg)).sqrt()),
            E::FRound => fb(fround(n.k, f64::from_bits(self.eval(n.a, asg)))),
            E::FFromU => fb(self.eval(n.a, asg) as f64),
            E::FFromS => {
                let aw = self.n[n.a as usize].w as u32;
                fb(sext(self.eval(n.a, asg), aw) as f64)
            }
            E::FLt | E::FLe | E::FEq => {
                let (x, y) = (f64::from_bits(self.eval(n.a, asg)), f64::from_bits(self.eval(n.b, asg)));
                (match n.op {
                    E::FLt => x < y,
                    E::FLe => x <= y,
                    _ => x == y,
                }) as u64
            }
            E::FToI => {
                let x = f64::from_bits(self.eval(n.a, asg));
                f2i(x, w, n.k == 1)
            }
            _ => {
                let (x, y) = (self.eval(n.a, asg), self.eval(n.b, asg));
                self.fold(n.op, w, x, y)
            }
        };
        self.stamp[i as usize] = self.cur;
        self.memo[i as usize] = v;
        v
    }
    pub fn show(&self, i: Id, depth: usize) -> String {
        let n = &self.n[i as usize];
        match n.op {
            E::Const => format!("{}:{}", n.k, n.w),
            E::FConst => format!("{:?}", f64::from_bits(n.k)),
            E::Var => format!("v{}", n.k),
            E::FVar => format!("r{}", n.k & 0xffff_ffff),
            _ if depth == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == E::Extract {
                    s += &format!("[{}+{}]", n.k, n.w);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

pub fn f2i(x: f64, w: u8, signed: bool) -> u64 {
    if signed {
        let v = x as i64;
        let half = 1i128 << (w - 1);
        let v = (v as i128).clamp(-half, half - 1);
        v as u64 & mask(w)
    } else {
        (x as u64).min(mask(w))
    }
}

pub fn fround(k: u64, x: f64) -> f64 {
    match k {
        0 => x.floor(),
        1 => x.ceil(),
        2 => x.trunc(),
        3 => x.round(),
        _ => x.round_ties_even(),
    }
}

pub fn is_pow2(v: f64) -> bool {
    if v == 0.0 || !v.is_finite() {
        return false;
    }
    let b = v.to_bits();
    (b & ((1u64 << 52) - 1)) == 0 && (b >> 52) & 0x7ff != 0
}

/// The largest e with v a multiple of 2^e (capped for zero).
pub fn grid_of(v: f64) -> i16 {
    if v == 0.0 {
        return 800;
    }
    if !v.is_finite() {
        return NOGRID;
    }
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    if e == 0 {
        return NOGRID;
    }
    let man = (b & ((1u64 << 52) - 1)) | (1u64 << 52);
    (e - 1075 + man.trailing_zeros() as i32) as i16
}
