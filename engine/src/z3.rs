//! The SMT back end: Z3 through its C API (loaded at run time), one context per worker thread.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(n: *const c_char, f: i32) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($n: extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Result<Api, String> {
                Ok(Api { $($n: {
                    let c = CString::new(stringify!($n)).unwrap();
                    let p = dlsym(h, c.as_ptr());
                    if p.is_null() { return Err(format!("missing {}", stringify!($n))); }
                    std::mem::transmute::<P, extern "C" fn($($a),*) $(-> $r)?>(p)
                },)* })
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_del_config: fn(P);
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, P);
    Z3_get_error_code: fn(P) -> i32;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_int_sort: fn(P) -> P;
    Z3_mk_real_sort: fn(P) -> P;
    Z3_mk_bv_sort: fn(P, u32) -> P;
    Z3_mk_fpa_sort_double: fn(P) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_and: fn(P, u32, *const P) -> P;
    Z3_mk_or: fn(P, u32, *const P) -> P;
    Z3_mk_add: fn(P, u32, *const P) -> P;
    Z3_mk_sub: fn(P, u32, *const P) -> P;
    Z3_mk_mul: fn(P, u32, *const P) -> P;
    Z3_mk_div: fn(P, P, P) -> P;
    Z3_mk_unary_minus: fn(P, P) -> P;
    Z3_mk_lt: fn(P, P, P) -> P;
    Z3_mk_le: fn(P, P, P) -> P;
    Z3_mk_int2real: fn(P, P) -> P;
    Z3_mk_real2int: fn(P, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_int64: fn(P, i64, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_zero_ext: fn(P, u32, P) -> P;
    Z3_mk_sign_ext: fn(P, u32, P) -> P;
    Z3_mk_extract: fn(P, u32, u32, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_bv2int: fn(P, P, bool) -> P;
    Z3_mk_bvmul_no_overflow: fn(P, P, P, bool) -> P;
    Z3_mk_bvmul_no_underflow: fn(P, P, P) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, u32);
    Z3_solver_reset: fn(P, P);
    Z3_solver_check: fn(P, P) -> i32;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_get_numeral_int64: fn(P, P, *mut i64) -> bool;
    Z3_get_numeral_decimal_string: fn(P, P, u32) -> *const c_char;
    Z3_get_ast_kind: fn(P, P) -> i32;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, u32);
    Z3_params_set_bool: fn(P, P, P, bool);
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_numeral_double: fn(P, f64, P) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt: fn(P, P, P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_fpa_neg: fn(P, P) -> P;
    Z3_mk_fpa_abs: fn(P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_leq: fn(P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, u32) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, u32) -> P;
    Z3_simplify: fn(P, P) -> P;
    Z3_interrupt: fn(P);
}

unsafe impl Sync for Api {}
unsafe impl Send for Api {}

static API: std::sync::OnceLock<Result<Api, String>> = std::sync::OnceLock::new();

pub fn api() -> &'static Api {
    let r = API.get_or_init(|| unsafe {
        let mut cands: Vec<String> = Vec::new();
        if let Ok(p) = std::env::var("SYMEX_Z3") {
            cands.push(p);
        }
        cands.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
        cands.push("/usr/lib/x86_64-linux-gnu/libz3.so".into());
        cands.push("libz3.so.4".into());
        cands.push("libz3.so".into());
        let mut err = String::new();
        for c in cands {
            let cc = CString::new(c.clone()).unwrap();
            let h = dlopen(cc.as_ptr(), 2);
            if h.is_null() {
                err += &CStr::from_ptr(dlerror()).to_string_lossy();
                err += "; ";
                continue;
            }
            match Api::load(h) {
                Ok(a) => return Ok(a),
                Err(e) => {
                    err += &e;
                    err += "; ";
                }
            }
        }
        Err(err)
    });
    match r {
        Ok(a) => a,
        Err(e) => panic!("cannot load z3: {}", e),
    }
}

pub fn version() -> String {
    unsafe { CStr::from_ptr((api().Z3_get_full_version)()).to_string_lossy().into_owned() }
}

extern "C" fn on_error(_c: P, _e: i32) {
    ERR.with(|x| x.set(true));
}
thread_local! { static ERR: std::cell::Cell<bool> = std::cell::Cell::new(false); }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Bv,
    Real, // grid variables relaxed to reals
    Int,  // grid variables are integers
    Fp,   // IEEE theory
}

pub enum Res {
    Sat(Vec<(u32, u64)>), // (var index, value)
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Z {
    a: &'static Api,
    ctx: P,
    sbv: P,
    sar: P,
    cache: [HashMap<Id, P>; 4],
    side: HashMap<(Id, u8), Vec<P>>, // side constraints of inexact nodes
    pub stats: Stats,
    params_set: u32,
}

fn midx(m: Mode) -> usize {
    match m {
        Mode::Bv => 0,
        Mode::Real => 1,
        Mode::Int => 2,
        Mode::Fp => 3,
    }
}

impl Z {
    pub fn new() -> Z {
        let a = api();
        unsafe {
            let cfg = (a.Z3_mk_config)();
            let ctx = (a.Z3_mk_context)(cfg);
            (a.Z3_del_config)(cfg);
            (a.Z3_set_error_handler)(ctx, on_error as *mut c_void);
            let _ = std::mem::size_of::<P>();
            let l = CString::new("QF_BV").unwrap();
            let sy = (a.Z3_mk_string_symbol)(ctx, l.as_ptr());
            let sbv = if std::env::var("SYMEX_SIMPLE").is_ok() { (a.Z3_mk_simple_solver)(ctx) } else { (a.Z3_mk_solver_for_logic)(ctx, sy) };
            (a.Z3_solver_inc_ref)(ctx, sbv);
            let sar = (a.Z3_mk_simple_solver)(ctx);
            (a.Z3_solver_inc_ref)(ctx, sar);
            Z {
                a,
                ctx,
                sbv,
                sar,
                cache: [HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new()],
                side: HashMap::new(),
                stats: Stats::default(),
                params_set: 0,
            }
        }
    }
    /// A deterministic resource limit decides; the wall-clock limit is a backstop.
    fn timeout(&mut self, ms: u32) {
        if self.params_set == ms {
            return;
        }
        self.params_set = ms;
        let a = self.a;
        for (solver, lim, t) in [(self.sbv, ms.saturating_mul(10_000), ms.saturating_mul(4)), (self.sar, ms.saturating_mul(2_000), ms)] {
            let p = (a.Z3_mk_params)(self.ctx);
            (a.Z3_params_inc_ref)(self.ctx, p);
            for (n, v) in [("rlimit", lim), ("timeout", t)] {
                let s = CString::new(n).unwrap();
                let sy = (a.Z3_mk_string_symbol)(self.ctx, s.as_ptr());
                (a.Z3_params_set_uint)(self.ctx, p, sy, v);
            }
            (a.Z3_solver_set_params)(self.ctx, solver, p);
        }
    }

    fn mkvar(&mut self, name: &str, sort: P) -> P {
        let s = CString::new(name).unwrap();
        let sy = (self.a.Z3_mk_string_symbol)(self.ctx, s.as_ptr());
        (self.a.Z3_mk_const)(self.ctx, sy, sort)
    }
    fn real(&mut self, v: f64) -> P {
        // exact rational of a double
        let s = ratio(v);
        let c = CString::new(s).unwrap();
        let so = (self.a.Z3_mk_real_sort)(self.ctx);
        (self.a.Z3_mk_numeral)(self.ctx, c.as_ptr(), so)
    }
    fn bin(&self, f: extern "C" fn(P, u32, *const P) -> P, x: P, y: P) -> P {
        let v = [x, y];
        f(self.ctx, 2, v.as_ptr())
    }

    pub fn tr(&mut self, pool: &Pool, i: Id, m: Mode) -> P {
        let n = *pool.node(i);
        // pure bit-vector nodes share the Bv cache
        let mi = midx(m);
        if let Some(p) = self.cache[mi].get(&i) {
            return *p;
        }
        let a = self.a;
        let c = self.ctx;
        let r: P = match n.op {
            E::Const => {
                if n.w == 1 {
                    if n.k == 1 {
                        (a.Z3_mk_true)(c)
                    } else {
                        (a.Z3_mk_false)(c)
                    }
                } else {
                    let s = (a.Z3_mk_bv_sort)(c, n.w as u32);
                    (a.Z3_mk_unsigned_int64)(c, n.k, s)
                }
            }
            E::Var => {
                if n.w == 1 {
                    let s = (a.Z3_mk_bool_sort)(c);
                    self.mkvar(&format!("v{}_1", n.k), s)
                } else {
                    let s = (a.Z3_mk_bv_sort)(c, n.w as u32);
                    self.mkvar(&format!("v{}_{}", n.k, n.w), s)
                }
            }
            E::Not => {
                let x = self.tr(pool, n.a, m);
                (a.Z3_mk_not)(c, x)
            }
            E::Eq if pool.node(n.a).op == E::FToI || pool.node(n.b).op == E::FToI => {
                let (f, k) = if pool.node(n.a).op == E::FToI { (n.a, n.b) } else { (n.b, n.a) };
                let fnode = *pool.node(f);
                let kc = pool.is_const(k);
                match kc {
                    Some(v) if m != Mode::Fp => {
                        let v = if fnode.k == 1 { crate::lower::sext(v, fnode.w as u32) as f64 } else { v as f64 };
                        let x = self.tr(pool, fnode.a, m);
                        // trunc(x) == v
                        let (lo, hi, los, his) = if v > 0.0 {
                            (v, v + 1.0, false, true)
                        } else if v < 0.0 {
                            (v - 1.0, v, true, false)
                        } else if fnode.k == 1 {
                            (-1.0, 1.0, true, true)
                        } else {
                            (f64::NEG_INFINITY, 1.0, false, true)
                        };
                        let hr = self.real(hi);
                        let p2 = if his { (a.Z3_mk_lt)(c, x, hr) } else { (a.Z3_mk_le)(c, x, hr) };
                        if lo.is_finite() {
                            let lr = self.real(lo);
                            let p1 = if los { (a.Z3_mk_lt)(c, lr, x) } else { (a.Z3_mk_le)(c, lr, x) };
                            self.bin(a.Z3_mk_and, p1, p2)
                        } else {
                            p2
                        }
                    }
                    _ => {
                        // unconstrained
                        let s = (a.Z3_mk_bool_sort)(c);
                        self.mkvar(&format!("ftoi_eq_{}", i), s)
                    }
                }
            }
            E::Eq => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                (a.Z3_mk_eq)(c, x, y)
            }
            E::Ult | E::Ule | E::Slt | E::Sle => {
                let x = self.trbv(pool, n.a, m);
                let y = self.trbv(pool, n.b, m);
                (match n.op {
                    E::Ult => a.Z3_mk_bvult,
                    E::Ule => a.Z3_mk_bvule,
                    E::Slt => a.Z3_mk_bvslt,
                    _ => a.Z3_mk_bvsle,
                })(c, x, y)
            }
            E::And | E::Or | E::Xor if n.w == 1 => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                match n.op {
                    E::And => self.bin(a.Z3_mk_and, x, y),
                    E::Or => self.bin(a.Z3_mk_or, x, y),
                    _ => (a.Z3_mk_xor)(c, x, y),
                }
            }
            E::Add | E::Sub | E::Mul | E::UDiv | E::SDiv | E::URem | E::SRem | E::Shl | E::LShr | E::AShr | E::And
            | E::Or | E::Xor => {
                let x = self.trbv(pool, n.a, m);
                let y = self.trbv(pool, n.b, m);
                let r = (match n.op {
                    E::Add => a.Z3_mk_bvadd,
                    E::Sub => a.Z3_mk_bvsub,
                    E::Mul => a.Z3_mk_bvmul,
                    E::UDiv => a.Z3_mk_bvudiv,
                    E::SDiv => a.Z3_mk_bvsdiv,
                    E::URem => a.Z3_mk_bvurem,
                    E::SRem => a.Z3_mk_bvsrem,
                    E::Shl => a.Z3_mk_bvshl,
                    E::LShr => a.Z3_mk_bvlshr,
                    E::AShr => a.Z3_mk_bvashr,
                    E::And => a.Z3_mk_bvand,
                    E::Or => a.Z3_mk_bvor,
                    _ => a.Z3_mk_bvxor,
                })(c, x, y);
                if n.w == 1 {
                    self.bv1_to_bool(r)
                } else {
                    r
                }
            }
            E::Zext => {
                let aw = pool.node(n.a).w;
                let x = self.trbv(pool, n.a, m);
                (a.Z3_mk_zero_ext)(c, (n.w - aw) as u32, x)
            }
            E::Sext => {
                let aw = pool.node(n.a).w;
                let x = self.trbv(pool, n.a, m);
                (a.Z3_mk_sign_ext)(c, (n.w - aw) as u32, x)
            }
            E::Extract => {
                let x = self.trbv(pool, n.a, m);
                let lo = n.k as u32;
                let r = (a.Z3_mk_extract)(c, lo + n.w as u32 - 1, lo, x);
                if n.w == 1 {
                    self.bv1_to_bool(r)
                } else {
                    r
                }
            }
            E::Concat => {
                let x = self.trbv(pool, n.a, m);
                let y = self.trbv(pool, n.b, m);
                (a.Z3_mk_concat)(c, x, y)
            }
            E::Ite => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                let z = self.tr(pool, n.c, m);
                (a.Z3_mk_ite)(c, x, y, z)
            }
            E::UMulOvf => {
                let x = self.trbv(pool, n.a, m);
                let y = self.trbv(pool, n.b, m);
                let t = (a.Z3_mk_bvmul_no_overflow)(c, x, y, false);
                (a.Z3_mk_not)(c, t)
            }
            E::SMulOvf => {
                let x = self.trbv(pool, n.a, m);
                let y = self.trbv(pool, n.b, m);
                let t = (a.Z3_mk_bvmul_no_overflow)(c, x, y, true);
                let u = (a.Z3_mk_bvmul_no_underflow)(c, x, y);
                let p = self.bin(a.Z3_mk_and, t, u);
                (a.Z3_mk_not)(c, p)
            }
            E::Table => {
                let t = pool.tables[n.k as usize].clone();
                let ni = *pool.node(n.a);
                let x = self.trbv(pool, n.a, m);
                let (lo, hi) = (ni.lo as usize, (ni.hi as usize).min(t.len() - 1));
                let so = (a.Z3_mk_bv_sort)(c, n.w.max(1) as u32);
                let si = (a.Z3_mk_bv_sort)(c, ni.w as u32);
                // runs of equal values, as a chain of upper bounds
                let mut runs: Vec<(usize, u64)> = Vec::new();
                let mut k = lo;
                while k <= hi {
                    let v = t[k];
                    let mut e = k;
                    while e + 1 <= hi && t[e + 1] == v {
                        e += 1;
                    }
                    runs.push((e, v));
                    k = e + 1;
                }
                let last = runs.pop().unwrap();
                let mut r = (a.Z3_mk_unsigned_int64)(c, last.1, so);
                for (e, v) in runs.iter().rev() {
                    let ke = (a.Z3_mk_unsigned_int64)(c, *e as u64, si);
                    let cnd = (a.Z3_mk_bvule)(c, x, ke);
                    let kv = (a.Z3_mk_unsigned_int64)(c, *v, so);
                    r = (a.Z3_mk_ite)(c, cnd, kv, r);
                }
                if n.w == 1 {
                    self.bv1_to_bool(r)
                } else {
                    r
                }
            }
            E::FToI => {
                let s = (a.Z3_mk_bv_sort)(c, n.w as u32);
                if m == Mode::Fp {
                    let x = self.tr(pool, n.a, m);
                    let rm = (a.Z3_mk_fpa_rtz)(c);
                    if n.k == 1 {
                        (a.Z3_mk_fpa_to_sbv)(c, rm, x, n.w as u32)
                    } else {
                        (a.Z3_mk_fpa_to_ubv)(c, rm, x, n.w as u32)
                    }
                } else {
                    self.mkvar(&format!("ftoi_{}", i), s) // unconstrained over-approximation
                }
            }
            E::FLt | E::FLe | E::FEq => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                if m == Mode::Fp {
                    match n.op {
                        E::FLt => (a.Z3_mk_fpa_lt)(c, x, y),
                        E::FLe => (a.Z3_mk_fpa_leq)(c, x, y),
                        _ => (a.Z3_mk_fpa_eq)(c, x, y),
                    }
                } else {
                    match n.op {
                        E::FLt => (a.Z3_mk_lt)(c, x, y),
                        E::FLe => (a.Z3_mk_le)(c, x, y),
                        _ => (a.Z3_mk_eq)(c, x, y),
                    }
                }
            }
            _ if m == Mode::Fp => self.tr_fp(pool, i, &n),
            _ => self.tr_real(pool, i, &n, m),
        };
        self.cache[mi].insert(i, r);
        r
    }

    fn bv1_to_bool(&mut self, r: P) -> P {
        let s = (self.a.Z3_mk_bv_sort)(self.ctx, 1);
        let one = (self.a.Z3_mk_unsigned_int64)(self.ctx, 1, s);
        (self.a.Z3_mk_eq)(self.ctx, r, one)
    }
    /// translate to a bit-vector term even for width 1
    fn trbv(&mut self, pool: &Pool, i: Id, m: Mode) -> P {
        let x = self.tr(pool, i, m);
        if pool.node(i).w == 1 {
            let s = (self.a.Z3_mk_bv_sort)(self.ctx, 1);
            let one = (self.a.Z3_mk_unsigned_int64)(self.ctx, 1, s);
            let zero = (self.a.Z3_mk_unsigned_int64)(self.ctx, 0, s);
            return (self.a.Z3_mk_ite)(self.ctx, x, one, zero);
        }
        x
    }

    fn tr_fp(&mut self, pool: &Pool, i: Id, n: &Node) -> P {
        let a = self.a;
        let c = self.ctx;
        let ds = (a.Z3_mk_fpa_sort_double)(c);
        let rm = (a.Z3_mk_fpa_rne)(c);
        match n.op {
            E::FConst => (a.Z3_mk_fpa_numeral_double)(c, f64::from_bits(n.k), ds),
            E::FVar => {
                let s = (a.Z3_mk_bv_sort)(c, 64);
                let x = self.mkvar(&format!("k{}_bv", n.k & 0xffff_ffff), s);
                let f = (a.Z3_mk_fpa_to_fp_signed)(c, rm, x, ds);
                let sc = (a.Z3_mk_fpa_numeral_double)(c, 2f64.powi(-((n.k >> 32) as i32)), ds);
                (a.Z3_mk_fpa_mul)(c, rm, f, sc)
            }
            E::FAdd | E::FSub | E::FMul | E::FDiv => {
                let x = self.tr(pool, n.a, Mode::Fp);
                let y = self.tr(pool, n.b, Mode::Fp);
                (match n.op {
                    E::FAdd => a.Z3_mk_fpa_add,
                    E::FSub => a.Z3_mk_fpa_sub,
                    E::FMul => a.Z3_mk_fpa_mul,
                    _ => a.Z3_mk_fpa_div,
                })(c, rm, x, y)
            }
            E::FNeg => {
                let x = self.tr(pool, n.a, Mode::Fp);
                (a.Z3_mk_fpa_neg)(c, x)
            }
            E::FAbs => {
                let x = self.tr(pool, n.a, Mode::Fp);
                (a.Z3_mk_fpa_abs)(c, x)
            }
            E::FMax | E::FMin => {
                let x = self.tr(pool, n.a, Mode::Fp);
                let y = self.tr(pool, n.b, Mode::Fp);
                let l = (a.Z3_mk_fpa_lt)(c, x, y);
                if n.op == E::FMax {
                    (a.Z3_mk_ite)(c, l, y, x)
                } else {
                    (a.Z3_mk_ite)(c, l, x, y)
                }
            }
            E::FIte => {
                let x = self.tr(pool, n.a, Mode::Fp);
                let y = self.tr(pool, n.b, Mode::Fp);
                let z = self.tr(pool, n.c, Mode::Fp);
                (a.Z3_mk_ite)(c, x, y, z)
            }
            E::FSqrt => {
                let x = self.tr(pool, n.a, Mode::Fp);
                (a.Z3_mk_fpa_sqrt)(c, rm, x)
            }
            E::FFromU => {
                let x = self.trbv(pool, n.a, Mode::Fp);
                (a.Z3_mk_fpa_to_fp_unsigned)(c, rm, x, ds)
            }
            E::FFromS => {
                let x = self.trbv(pool, n.a, Mode::Fp);
                (a.Z3_mk_fpa_to_fp_signed)(c, rm, x, ds)
            }
            _ => self.mkvar(&format!("fpany_{}", i), ds),
        }
    }

    fn tr_real(&mut self, pool: &Pool, i: Id, n: &Node, m: Mode) -> P {
        let a = self.a;
        let c = self.ctx;
        let rs = (a.Z3_mk_real_sort)(c);
        match n.op {
            E::FConst => {
                let v = f64::from_bits(n.k);
                if v.is_finite() {
                    self.real(v)
                } else {
                    self.mkvar(&format!("nonfinite_{}", i), rs)
                }
            }
            E::FVar => {
                let s = self.real(2f64.powi(-((n.k >> 32) as i32)));
                let idx = n.k & 0xffff_ffff;
                let x = if m == Mode::Int {
                    let is = (a.Z3_mk_int_sort)(c);
                    let k = self.mkvar(&format!("k{}_int", idx), is);
                    (a.Z3_mk_int2real)(c, k)
                } else {
                    self.mkvar(&format!("k{}_real", idx), rs)
                };
                self.bin(a.Z3_mk_mul, s, x)
            }
            E::FAdd | E::FSub | E::FMul | E::FDiv => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                let r = match n.op {
                    E::FAdd => self.bin(a.Z3_mk_add, x, y),
                    E::FSub => self.bin(a.Z3_mk_sub, x, y),
                    E::FMul => self.bin(a.Z3_mk_mul, x, y),
                    _ => {
                        if let Some(k) = pool.is_const(n.b) {
                            // multiply by the exact rational reciprocal
                            let v = ratio(f64::from_bits(k));
                            let inv = invert_ratio(&v);
                            let cs = CString::new(inv).unwrap();
                            let t = (a.Z3_mk_numeral)(c, cs.as_ptr(), rs);
                            self.bin(a.Z3_mk_mul, t, x)
                        } else {
                            (a.Z3_mk_div)(c, x, y)
                        }
                    }
                };
                self.with_err(i, n, r, m)
            }
            E::FSqrt => {
                let x = self.tr(pool, n.a, m);
                let v = self.mkvar(&format!("sqrt_{}", i), rs);
                let zero = self.real(0.0);
                let c1 = (a.Z3_mk_le)(c, zero, v);
                let sq = self.bin(a.Z3_mk_mul, v, v);
                let c2 = (a.Z3_mk_eq)(c, sq, x);
                self.side.entry((i, midx(m) as u8)).or_default().extend([c1, c2]);
                self.with_err(i, n, v, m)
            }
            E::FNeg => {
                let x = self.tr(pool, n.a, m);
                (a.Z3_mk_unary_minus)(c, x)
            }
            E::FAbs => {
                let x = self.tr(pool, n.a, m);
                let z = self.real(0.0);
                let l = (a.Z3_mk_lt)(c, x, z);
                let ng = (a.Z3_mk_unary_minus)(c, x);
                (a.Z3_mk_ite)(c, l, ng, x)
            }
            E::FMax | E::FMin => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                let l = (a.Z3_mk_lt)(c, x, y);
                if n.op == E::FMax {
                    (a.Z3_mk_ite)(c, l, y, x)
                } else {
                    (a.Z3_mk_ite)(c, l, x, y)
                }
            }
            E::FIte => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                let z = self.tr(pool, n.c, m);
                (a.Z3_mk_ite)(c, x, y, z)
            }
            E::FFromU | E::FFromS => {
                let x = self.trbv(pool, n.a, m);
                let k = (a.Z3_mk_bv2int)(c, x, n.op == E::FFromS);
                let r = (a.Z3_mk_int2real)(c, k);
                self.with_err(i, n, r, m)
            }
            E::FRound => {
                // over-approximated: any value within 1 of the argument
                let x = self.tr(pool, n.a, m);
                let v = self.mkvar(&format!("round_{}", i), rs);
                let one = self.real(1.0);
                let d = self.bin(a.Z3_mk_sub, v, x);
                let c1 = (a.Z3_mk_le)(c, d, one);
                let nd = (a.Z3_mk_unary_minus)(c, d);
                let c2 = (a.Z3_mk_le)(c, nd, one);
                self.side.entry((i, midx(m) as u8)).or_default().extend([c1, c2]);
                v
            }
            _ => self.mkvar(&format!("any_{}", i), rs),
        }
    }
    /// r + e with |e| bounded by half an ulp of the result's magnitude.
    fn with_err(&mut self, i: Id, n: &Node, r: P, m: Mode) -> P {
        if n.exact {
            return r;
        }
        let a = self.a;
        let c = self.ctx;
        let rs = (a.Z3_mk_real_sort)(c);
        let e = self.mkvar(&format!("err_{}", i), rs);
        let mag = n.flo().abs().max(n.fhi().abs());
        let u = 2f64.powi(-53);
        let mut sides = Vec::new();
        let ne = (a.Z3_mk_unary_minus)(c, e);
        if mag.is_finite() && mag < 1e200 {
            let b = self.real(pow2_above(mag) * u + 2f64.powi(-120));
            sides.push((a.Z3_mk_le)(c, e, b));
            sides.push((a.Z3_mk_le)(c, ne, b));
        } else {
            let z = self.real(0.0);
            let l = (a.Z3_mk_lt)(c, r, z);
            let nr = (a.Z3_mk_unary_minus)(c, r);
            let ab = (a.Z3_mk_ite)(c, l, nr, r);
            let ur = self.real(u);
            let b0 = self.bin(a.Z3_mk_mul, ur, ab);
            let tiny = self.real(2f64.powi(-120));
            let b = self.bin(a.Z3_mk_add, b0, tiny);
            sides.push((a.Z3_mk_le)(c, e, b));
            sides.push((a.Z3_mk_le)(c, ne, b));
        }
        self.side.entry((i, midx(m) as u8)).or_default().extend(sides);
        self.bin(a.Z3_mk_add, r, e)
    }

    fn collect(&self, pool: &Pool, cs: &[Id]) -> (Vec<Id>, Vec<Id>, bool) {
        // variables, nodes with side constraints, any float
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<Id> = cs.to_vec();
        let mut vars = Vec::new();
        let mut sides = Vec::new();
        let mut fl = false;
        while let Some(i) = st.pop() {
            if !seen.insert(i) {
                continue;
            }
            let n = pool.node(i);
            if n.w == 0 {
                fl = true;
            }
            match n.op {
                E::Var | E::FVar => vars.push(i),
                E::FAdd | E::FSub | E::FMul | E::FDiv | E::FFromU | E::FFromS if !n.exact => sides.push(i),
                E::FSqrt | E::FRound => sides.push(i),
                _ => {}
            }
            for x in [n.a, n.b, n.c] {
                if x != 0 {
                    st.push(x);
                }
            }
        }
        (vars, sides, fl)
    }

    pub fn solve(&mut self, pool: &Pool, cs: &[Id], mode: Mode, ms: u32, extra_margin: f64) -> Res {
        let t0 = std::time::Instant::now();
        let r = self.solve_inner(pool, cs, mode, ms, extra_margin);
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
    pub fn has_float(&self, pool: &Pool, cs: &[Id]) -> bool {
        self.collect(pool, cs).2
    }
    fn solve_inner(&mut self, pool: &Pool, cs: &[Id], mode: Mode, ms: u32, margin: f64) -> Res {
        let (r, s) = self.solve_in(pool, cs, mode, ms, margin);
        (self.a.Z3_solver_pop)(self.ctx, s, 1);
        r
    }
    fn solve_in(&mut self, pool: &Pool, cs: &[Id], mode: Mode, ms: u32, margin: f64) -> (Res, P) {
        ERR.with(|x| x.set(false));
        let a = self.a;
        let c = self.ctx;
        self.timeout(ms);
        let (vars, sides, fl) = self.collect(pool, cs);
        let mode = if !fl { Mode::Bv } else { mode };
        let s = if fl { self.sar } else { self.sbv };
        (a.Z3_solver_push)(c, s);
        for i in cs {
            let p = if margin > 0.0 { self.tr_margin(pool, *i, mode, margin) } else { self.tr(pool, *i, mode) };
            (a.Z3_solver_assert)(c, s, p);
        }
        if mode == Mode::Real || mode == Mode::Int {
            for i in &sides {
                self.tr(pool, *i, mode);
                if let Some(v) = self.side.get(&(*i, midx(mode) as u8)) {
                    for p in v {
                        (a.Z3_solver_assert)(c, s, *p);
                    }
                }
            }
        }
        let mut vterms = Vec::new();
        for v in &vars {
            let n = *pool.node(*v);
            if n.op == E::Var {
                let t = self.tr(pool, *v, mode);
                vterms.push((n.k as u32, t, n.w, 0u8));
                if n.w > 1 {
                    let so = (a.Z3_mk_bv_sort)(c, n.w as u32);
                    if n.lo > 0 {
                        let k = (a.Z3_mk_unsigned_int64)(c, n.lo, so);
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_bvule)(c, k, t));
                    }
                    if n.hi < mask(n.w) {
                        let k = (a.Z3_mk_unsigned_int64)(c, n.hi, so);
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_bvule)(c, t, k));
                    }
                } else if n.lo == n.hi {
                    let k = if n.lo == 1 { t } else { (a.Z3_mk_not)(c, t) };
                    (a.Z3_solver_assert)(c, s, k);
                }
            } else {
                let idx = (n.k & 0xffff_ffff) as u32;
                let den = (n.k >> 32) as u32;
                let sc = 2f64.powi(den as i32);
                let (lo, hi) = ((n.flo() * sc) as i64, (n.fhi() * sc) as i64);
                let t;
                match mode {
                    Mode::Int => {
                        let is = (a.Z3_mk_int_sort)(c);
                        t = self.mkvar(&format!("k{}_int", idx), is);
                        let l = (a.Z3_mk_int64)(c, lo, is);
                        let h = (a.Z3_mk_int64)(c, hi, is);
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_le)(c, l, t));
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_le)(c, t, h));
                        vterms.push((idx, t, 0, 1));
                    }
                    Mode::Fp => {
                        let is = (a.Z3_mk_bv_sort)(c, 64);
                        t = self.mkvar(&format!("k{}_bv", idx), is);
                        let l = (a.Z3_mk_int64)(c, lo, is);
                        let h = (a.Z3_mk_int64)(c, hi, is);
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_bvsle)(c, l, t));
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_bvsle)(c, t, h));
                        vterms.push((idx, t, 64, 0));
                    }
                    _ => {
                        let rs = (a.Z3_mk_real_sort)(c);
                        t = self.mkvar(&format!("k{}_real", idx), rs);
                        let l = (a.Z3_mk_int64)(c, lo, rs);
                        let h = (a.Z3_mk_int64)(c, hi, rs);
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_le)(c, l, t));
                        (a.Z3_solver_assert)(c, s, (a.Z3_mk_le)(c, t, h));
                        vterms.push((idx, t, 0, 2));
                    }
                }
            }
        }
        // variables that are used both as bits and as numbers
        for v in &vars {
            let n = *pool.node(*v);
            if n.op != E::FVar {
                continue;
            }
            let idx = (n.k & 0xffff_ffff) as u32;
            for w in &vars {
                let x = *pool.node(*w);
                if x.op == E::Var && x.k as u32 == idx {
                    let b = self.trbv(pool, *w, mode);
                    let eq = match mode {
                        Mode::Fp => {
                            let t = self.mkvar(&format!("k{}_bv", idx), (a.Z3_mk_bv_sort)(c, 64));
                            let bw = (a.Z3_mk_zero_ext)(c, 64 - x.w as u32, b);
                            (a.Z3_mk_eq)(c, t, bw)
                        }
                        Mode::Int => {
                            let t = self.mkvar(&format!("k{}_int", idx), (a.Z3_mk_int_sort)(c));
                            let k = (a.Z3_mk_bv2int)(c, b, false);
                            (a.Z3_mk_eq)(c, t, k)
                        }
                        _ => {
                            let t = self.mkvar(&format!("k{}_real", idx), (a.Z3_mk_real_sort)(c));
                            let k = (a.Z3_mk_bv2int)(c, b, false);
                            (a.Z3_mk_eq)(c, t, (a.Z3_mk_int2real)(c, k))
                        }
                    };
                    (a.Z3_solver_assert)(c, s, eq);
                }
            }
        }
        if ERR.with(|x| x.get()) {
            return (Res::Unknown, s);
        }
        let r = (a.Z3_solver_check)(c, s);
        if ERR.with(|x| x.get()) {
            return (Res::Unknown, s);
        }
        if r < 0 {
            return (Res::Unsat, s);
        }
        if r == 0 {
            return (Res::Unknown, s);
        }
        let m = (a.Z3_solver_get_model)(c, s);
        (a.Z3_model_inc_ref)(c, m);
        let mut out = Vec::new();
        for (idx, t, w, kind) in vterms {
            let mut v: P = std::ptr::null_mut();
            if !(a.Z3_model_eval)(c, m, t, true, &mut v) || v.is_null() {
                continue;
            }
            match kind {
                0 if w == 1 => {
                    let tr = (a.Z3_mk_true)(c);
                    out.push((idx, (v == tr) as u64));
                }
                0 => {
                    let mut x = 0u64;
                    if (a.Z3_get_numeral_uint64)(c, v, &mut x) {
                        out.push((idx, x));
                    }
                }
                1 => {
                    let mut x = 0i64;
                    if (a.Z3_get_numeral_int64)(c, v, &mut x) {
                        out.push((idx, x as u64));
                    }
                }
                _ => {
                    let st = unsafe { CStr::from_ptr((a.Z3_get_numeral_decimal_string)(c, v, 6)) }.to_string_lossy();
                    let f: f64 = st.trim_end_matches('?').parse().unwrap_or(0.0);
                    out.push((idx, f.round() as i64 as u64));
                }
            }
        }
        (a.Z3_model_dec_ref)(c, m);
        (Res::Sat(out), s)
    }

    /// Strengthened constraint: strict float comparisons hold with a margin.
    fn tr_margin(&mut self, pool: &Pool, i: Id, m: Mode, mg: f64) -> P {
        let n = *pool.node(i);
        let a = self.a;
        let c = self.ctx;
        match n.op {
            E::FLt | E::FLe => {
                let x = self.tr(pool, n.a, m);
                let y = self.tr(pool, n.b, m);
                let d = self.real(mg);
                let xd = self.bin(a.Z3_mk_add, x, d);
                (a.Z3_mk_le)(c, xd, y)
            }
            E::Not => {
                let k = *pool.node(n.a);
                if k.op == E::FLt || k.op == E::FLe {
                    let x = self.tr(pool, k.a, m);
                    let y = self.tr(pool, k.b, m);
                    let d = self.real(mg);
                    let yd = self.bin(a.Z3_mk_add, y, d);
                    return (a.Z3_mk_le)(c, yd, x);
                }
                self.tr(pool, i, m)
            }
            E::And => {
                let x = self.tr_margin(pool, n.a, m, mg);
                let y = self.tr_margin(pool, n.b, m, mg);
                self.bin(a.Z3_mk_and, x, y)
            }
            _ => self.tr(pool, i, m),
        }
    }

    pub fn dump(&mut self, pool: &Pool, cs: &[Id], mode: Mode) -> String {
        let (_, _, fl) = self.collect(pool, cs);
        let a = self.a;
        let s = if fl { self.sar } else { self.sbv };
        let _ = self.solve_inner(pool, cs, mode, 1, 0.0);
        unsafe { CStr::from_ptr((a.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().into_owned() }
    }
}

impl Drop for Z {
    fn drop(&mut self) {
        (self.a.Z3_solver_dec_ref)(self.ctx, self.sbv);
        (self.a.Z3_solver_dec_ref)(self.ctx, self.sar);
        (self.a.Z3_del_context)(self.ctx);
    }
}

/// Exact rational "p/q" (or integer) text of a finite double.
pub fn ratio(v: f64) -> String {
    if v == 0.0 {
        return "0".into();
    }
    let b = v.to_bits();
    let neg = b >> 63 == 1;
    let e = ((b >> 52) & 0x7ff) as i32;
    let mut man = b & ((1u64 << 52) - 1);
    let mut ex;
    if e == 0 {
        ex = -1074;
    } else {
        man |= 1u64 << 52;
        ex = e - 1075;
    }
    let tz = man.trailing_zeros() as i32;
    man >>= tz;
    ex += tz;
    let sign = if neg { "-" } else { "" };
    if ex >= 0 {
        format!("{}{}", sign, mul_pow2(man, ex as u32))
    } else {
        format!("{}{}/{}", sign, man, mul_pow2(1, (-ex) as u32))
    }
}

fn invert_ratio(s: &str) -> String {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => ("-", t),
        None => ("", s),
    };
    match t.split_once('/') {
        Some((p, q)) => format!("{}{}/{}", neg, q, p),
        None => format!("{}1/{}", neg, t),
    }
}

fn mul_pow2(m: u64, e: u32) -> String {
    // decimal big integer
    let mut d: Vec<u32> = Vec::new(); // base 1e9
    let mut x = m;
    while x > 0 {
        d.push((x % 1_000_000_000) as u32);
        x /= 1_000_000_000;
    }
    for _ in 0..e {
        let mut c = 0u64;
        for y in d.iter_mut() {
            let t = *y as u64 * 2 + c;
            *y = (t % 1_000_000_000) as u32;
            c = t / 1_000_000_000;
        }
        if c > 0 {
            d.push(c as u32);
        }
    }
    let mut s = format!("{}", d.last().unwrap());
    for y in d.iter().rev().skip(1) {
        s += &format!("{:09}", y);
    }
    s
}

fn pow2_above(v: f64) -> f64 {
    if v <= 0.0 {
        return 0.0;
    }
    let b = v.to_bits();
    let e = (b >> 52) & 0x7ff;
    if b & ((1u64 << 52) - 1) == 0 {
        return v;
    }
    f64::from_bits((e + 1) << 52)
}
