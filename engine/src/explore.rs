//! Path exploration: every run of the machine yields a path condition; each decision past the
//! item's bound is handed to the solver, which either shows the other side infeasible or returns
//! inputs that take it.
use crate::exec::*;
use crate::expr::*;
use crate::lower::Program;
use crate::z3::{Mode, Res, Stats, Z};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Cfg {
    pub entry: u32,
    pub threads: usize,
    pub time: Duration,
    pub budget: u64,
    pub seed: u64,
    pub solver_ms: u32,
    pub max_paths: u64,
    pub max_queue: usize,
    pub known: Vec<String>,
}

struct Item {
    inputs: Box<[u64]>,
    bound: u32,
    ph: u64,
}

#[derive(Default)]
struct Queue {
    items: Vec<Item>,
    novel: Vec<Item>,
    active: usize,
    stop: bool,
    rng: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub outcome: Outcome,
    pub inputs: Vec<u64>,
    pub vinfo: Vec<VarInfo>,
    pub decisions: usize,
    pub count: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub paths: u64,
    pub ok: u64,
    pub allowed_panics: u64,
    pub assume_cut: u64,
    pub budget_hits: u64,
    pub diverged: u64,
    pub engine_errors: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub undecided: BTreeMap<String, u64>,
    pub undecided_n: u64,
    pub decisions: u64,
    pub queries_unsat_cached: u64,
    pub queries_sat_cached: u64,
    pub assert_checks: u64,
    pub assert_queries: u64,
    pub assert_unsat: u64,
    pub sym_asserts: u64,
    pub steps: u64,
    pub stats: Stats,
    pub reach: BTreeMap<u64, u64>,
    pub covered: Vec<bool>,
    pub exhausted: bool,
    pub pending: u64,
    pub wall: f64,
    pub max_inputs: usize,
    pub max_decisions: usize,
    pub model_mismatch: u64,
    pub float_lost: u64,
}

pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: u64,
    pub outcome: Outcome,
    pub decisions: usize,
}

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
    cache: Vec<Mutex<HashMap<u128, Option<Vec<(u32, u64)>>>>>,
    cache_n: AtomicU64,
    stop: AtomicBool,
    paths: AtomicU64,
    viol: Mutex<BTreeMap<String, Vec<Violation>>>,
    samples: Mutex<Vec<Sample>>,
    rep: Mutex<Report>,
    seen: Mutex<HashSet<u64>>,
    start: Instant,
}

pub struct Outp {
    pub rep: Report,
    pub viol: BTreeMap<String, Vec<Violation>>,
    pub samples: Vec<Sample>,
}

fn mixh(a: u64, b: u64) -> u64 {
    let mut h = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    h = h.rotate_left(31).wrapping_mul(0xBF58476D1CE4E5B9);
    h ^ (h >> 29)
}

pub fn roll(r: u64, h: u64) -> u64 {
    (r ^ h).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23)
}

struct Groups {
    g: Vec<(u128, Vec<Id>)>,
}
impl Groups {
    fn add(&mut self, m: u128, id: Id) {
        let mut mask = m;
        let mut ids: Vec<Id> = Vec::new();
        let mut i = 0;
        let mut keep: Option<usize> = None;
        // merge into the largest intersecting group
        while i < self.g.len() {
            if self.g[i].0 & m != 0 {
                match keep {
                    None => {
                        keep = Some(i);
                        mask |= self.g[i].0;
                        i += 1;
                    }
                    Some(_) => {
                        let (gm, v) = self.g.swap_remove(i);
                        mask |= gm;
                        ids.extend(v);
                    }
                }
            } else {
                i += 1;
            }
        }
        match keep {
            Some(k) => {
                let e = &mut self.g[k];
                e.0 = mask;
                e.1.extend(ids);
                e.1.push(id);
            }
            None => self.g.push((mask, vec![id])),
        }
    }
    fn slice(&self, m: u128, out: &mut Vec<Id>) {
        out.clear();
        for (gm, v) in &self.g {
            if gm & m != 0 {
                out.extend_from_slice(v);
            }
        }
    }
}

struct Worker<'p> {
    m: Machine<'p>,
    z: Z,
    zs: Stats,
    sh: &'p Shared,
    cfg: &'p Cfg,
    rep: Report,
    slice: Vec<Id>,
}

enum Ans {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

impl<'p> Worker<'p> {
    /// Is `slice ∧ target` satisfiable? `used` is the current assignment.
    fn query(&mut self, target: Id, used: &[u64]) -> Ans {
        let (mut k1, mut k2) = (0u64, 0u64);
        for c in &self.slice {
            let h = self.m.pool.node(*c).h;
            k1 = k1.wrapping_add(mixh(h, 1));
            k2 = k2.wrapping_add(mixh(h, 0x5bd1e995));
        }
        let th = self.m.pool.node(target).h;
        k1 = k1.wrapping_add(mixh(th, 1));
        k2 = k2.wrapping_add(mixh(th, 0x5bd1e995));
        let key = (k1 as u128) << 64 | k2 as u128;
        let shard = (k1 % self.sh.cache.len() as u64) as usize;
        {
            let c = self.sh.cache[shard].lock().unwrap();
            if let Some(r) = c.get(&key) {
                return match r {
                    Some(m) => {
                        self.rep.queries_sat_cached += 1;
                        Ans::Sat(m.clone())
                    }
                    None => {
                        self.rep.queries_unsat_cached += 1;
                        Ans::Unsat
                    }
                };
            }
        }
        let mut cs = self.slice.clone();
        cs.push(target);
        let r = self.solve(&cs, used);
        match &r {
            Ans::Sat(m) => self.put(shard, key, Some(m.clone())),
            Ans::Unsat => self.put(shard, key, None),
            Ans::Unknown => {}
        }
        r
    }
    fn put(&self, shard: usize, key: u128, v: Option<Vec<(u32, u64)>>) {
        if self.sh.cache_n.fetch_add(1, Relaxed) < 12_000_000 {
            self.sh.cache[shard].lock().unwrap().insert(key, v);
        }
    }
    fn valid(&mut self, cs: &[Id], used: &[u64], model: &[(u32, u64)]) -> bool {
        let mut asg = used.to_vec();
        for (i, v) in model {
            if (*i as usize) < asg.len() {
                asg[*i as usize] = *v;
            }
        }
        self.m.pool.eval_begin();
        cs.iter().all(|c| self.m.pool.eval(*c, &asg) == 1)
    }
    fn solve(&mut self, cs: &[Id], used: &[u64]) -> Ans {
        let fl = self.z.has_float(&self.m.pool, cs);
        let ms = self.cfg.solver_ms;
        if self.sh.start.elapsed() > self.cfg.time {
            return Ans::Unknown;
        }
        if !fl {
            return match self.z.solve(&self.m.pool, cs, Mode::Bv, ms, 0.0) {
                Res::Sat(m) => {
                    if self.valid(cs, used, &m) {
                        Ans::Sat(m)
                    } else {
                        self.rep.model_mismatch += 1;
                        Ans::Unknown
                    }
                }
                Res::Unsat => Ans::Unsat,
                Res::Unknown => Ans::Unknown,
            };
        }
        match self.z.solve(&self.m.pool, cs, Mode::Real, ms, 0.0) {
            Res::Unsat => return Ans::Unsat,
            Res::Sat(m) => {
                if self.valid(cs, used, &m) {
                    return Ans::Sat(m);
                }
            }
            Res::Unknown => {}
        }
        match self.z.solve(&self.m.pool, cs, Mode::Int, ms / 2, 0.0) {
            Res::Unsat => return Ans::Unsat,
            Res::Sat(m) => {
                if self.valid(cs, used, &m) {
                    return Ans::Sat(m);
                }
            }
            Res::Unknown => {}
        }
        for (mode, mg) in [(Mode::Int, 1.0 / 1024.0), (Mode::Real, 1.0)] {
            if let Res::Sat(m) = self.z.solve(&self.m.pool, cs, mode, ms / 4, mg) {
                if self.valid(cs, used, &m) {
                    return Ans::Sat(m);
                }
            }
        }
        match self.z.solve(&self.m.pool, cs, Mode::Fp, ms / 4, 0.0) {
            Res::Unsat => return Ans::Unsat,
            Res::Sat(m) => {
                if self.valid(cs, used, &m) {
                    return Ans::Sat(m);
                }
                self.rep.model_mismatch += 1;
            }
            Res::Unknown => {}
        }
        self.rep.float_lost += 1;
        Ans::Unknown
    }

    fn undecided(&mut self, d: &Dec) {
        self.rep.undecided_n += 1;
        let f = (d.site >> 32) as usize;
        let pc = (d.site & 0xffff_ffff) as usize;
        let k = match self.m.prog.funcs.get(f) {
            Some(c) => format!("{}{}@{}", if d.is_assert { "ASSERT " } else { "" }, c.short, c.lines[pc.saturating_sub(1).min(c.lines.len() - 1)]),
            None => "?".into(),
        };
        *self.rep.undecided.entry(k).or_insert(0) += 1;
    }

    fn process(&mut self, it: Item) {
        self.m.prefix_check = if it.bound > 0 { Some((it.bound as usize, it.ph)) } else { None };
        self.m.rand_fill = true;
        self.m.seed = self.cfg.seed;
        let out = self.m.run(self.cfg.entry, &it.inputs);
        let r = &mut self.rep;
        r.steps += self.m.steps;
        if (it.bound > 0 && self.m.trace.len() < it.bound as usize) || self.m.diverged {
            r.diverged += 1;
            if std::env::var("SYMEX_DEBUG").is_ok() {
                eprintln!("diverged: len {} bound {} out {:?}", self.m.trace.len(), it.bound, out);
            }
            return;
        }
        r.paths += 1;
        self.sh.paths.fetch_add(1, Relaxed);
        r.asserts(&self.m);
        for (k, v) in self.m.reach.iter() {
            *r.reach.entry(*k).or_insert(0) += v;
        }
        r.max_inputs = r.max_inputs.max(self.m.used.len());
        r.max_decisions = r.max_decisions.max(self.m.trace.len());
        let used = self.m.used.clone();
        let viol = |o: &Outcome| -> Option<String> {
            match o {
                Outcome::Panic(l) => Some(format!("panic at {}", l)),
                Outcome::AssertFail(i) => Some(format!("assertion {}", i)),
                Outcome::Stack => Some("stack overflow".into()),
                Outcome::Budget => Some("no termination".into()),
                _ => None,
            }
        };
        match &out {
            Outcome::Ok => r.ok += 1,
            Outcome::AllowedPanic(_) => r.allowed_panics += 1,
            Outcome::AssumeFail => r.assume_cut += 1,
            Outcome::Budget => r.budget_hits += 1,
            Outcome::Heap => *r.engine_errors.entry("heap exhausted".into()).or_insert(0) += 1,
            Outcome::Engine(e) => {
                let e: String = e.chars().take(300).collect();
                *r.engine_errors.entry(e).or_insert(0) += 1
            }
            _ => {}
        }
        if let Some(k) = viol(&out) {
            let mut g = self.sh.viol.lock().unwrap();
            let v = g.entry(k.clone()).or_default();
            let nv = Violation { key: k, outcome: out.clone(), inputs: used.clone(), vinfo: self.m.vinfo.clone(), decisions: self.m.trace.len(), count: 1 };
            if v.is_empty() {
                v.push(nv);
            } else {
                v[0].count += 1;
                let n = v.len();
                if nv.inputs.len() < v[0].inputs.len() {
                    let mut nv = nv;
                    nv.count = v[0].count;
                    v.insert(0, nv);
                } else {
                    v.push(nv);
                }
                let _ = n;
                v.truncate(40);
            }
        }
        // keep a spread of completed paths for replay against the native build
        if matches!(out, Outcome::Ok | Outcome::AllowedPanic(_)) {
            let n = self.sh.paths.load(Relaxed);
            if n < 64 || mixh(n, self.cfg.seed) % (n / 64 + 1) < 2 {
                let mut g = self.sh.samples.lock().unwrap();
                let s = Sample { inputs: used.clone(), obs: self.m.obs, outcome: out.clone(), decisions: self.m.trace.len() };
                if g.len() < 400 {
                    g.push(s);
                } else {
                    let i = (mixh(n, 99) % 400) as usize;
                    g[i] = s;
                }
            }
        }
        // expand
        let trace = std::mem::take(&mut self.m.trace);
        let mut gr = Groups { g: Vec::new() };
        let mut rl = 0u64;
        let mut kids: Vec<(Item, u64)> = Vec::new();
        for (i, d) in trace.iter().enumerate() {
            let cv = self.m.pool.node(d.cond).vars;
            if i >= it.bound as usize && !self.sh.stop.load(Relaxed) {
                self.rep.decisions += 1;
                match &d.alt {
                    Alt::None => {}
                    Alt::Flip => {
                        let t = self.m.pool.not(d.cond);
                        if self.m.pool.is_const(t) != Some(0) {
                            gr.slice(cv, &mut self.slice);
                            if d.is_assert {
                                self.rep.assert_queries += 1;
                            }
                            match self.query(t, &used) {
                                Ans::Sat(m) => self.kid(&mut kids, &used, &m, i, rl, t, d),
                                Ans::Unsat => {
                                    if d.is_assert {
                                        self.rep.assert_unsat += 1;
                                    }
                                }
                                Ans::Unknown => self.undecided(d),
                            }
                        }
                    }
                    Alt::Multi(alts) => {
                        for t in alts.clone() {
                            if self.m.pool.is_const(t) == Some(0) {
                                continue;
                            }
                            let tv = self.m.pool.node(t).vars | cv;
                            gr.slice(tv, &mut self.slice);
                            match self.query(t, &used) {
                                Ans::Sat(m) => self.kid(&mut kids, &used, &m, i, rl, t, d),
                                Ans::Unsat => {}
                                Ans::Unknown => self.undecided(d),
                            }
                        }
                    }
                    Alt::Pin(e) => {
                        let e = *e;
                        gr.slice(cv, &mut self.slice);
                        let base_len = self.slice.len();
                        let mut cur = d.cond;
                        let mut n = 0;
                        loop {
                            let ne = self.m.pool.not(cur);
                            if self.m.pool.is_const(ne) == Some(0) {
                                break;
                            }
                            n += 1;
                            if n > 2000 {
                                *self.rep.incomplete.entry("more than 2000 values at a concretisation".into()).or_insert(0) += 1;
                                break;
                            }
                            match self.query(ne, &used) {
                                Ans::Sat(m) => {
                                    let mut asg = used.clone();
                                    for (k, v) in &m {
                                        if (*k as usize) < asg.len() {
                                            asg[*k as usize] = *v;
                                        }
                                    }
                                    self.m.pool.eval_begin();
                                    let v = self.m.pool.eval(e, &asg);
                                    let w = self.m.pool.node(e).w;
                                    let t = if w == 0 {
                                        let k = self.m.pool.fconst(v);
                                        self.m.pool.fcmp(E::FEq, e, k)
                                    } else {
                                        let k = self.m.pool.konst(w, v);
                                        self.m.pool.eq(e, k)
                                    };
                                    self.kid(&mut kids, &used, &m, i, rl, t, d);
                                    self.slice.push(ne);
                                    cur = t;
                                    if self.sh.stop.load(Relaxed) {
                                        break;
                                    }
                                }
                                Ans::Unsat => break,
                                Ans::Unknown => {
                                    self.undecided(d);
                                    break;
                                }
                            }
                        }
                        self.slice.truncate(base_len);
                    }
                }
            }
            gr.add(cv, d.cond);
            rl = roll(rl, self.m.pool.node(d.cond).h);
        }
        if !kids.is_empty() {
            let mut seen = self.sh.seen.lock().unwrap();
            let nov: Vec<bool> = kids.iter().map(|(_, s)| seen.insert(*s)).collect();
            drop(seen);
            let mut q = self.sh.q.lock().unwrap();
            let full = q.items.len() + q.novel.len() > self.cfg.max_queue;
            for ((it, _), n) in kids.into_iter().zip(nov) {
                if n {
                    q.novel.push(it)
                } else if full && q.items.len() > 2 * self.cfg.max_queue {
                    // dropped: the run can no longer be exhaustive
                    *self.rep.incomplete.entry("path queue overflow".into()).or_insert(0) += 1;
                } else {
                    q.items.push(it)
                }
            }
            drop(q);
            self.sh.cv.notify_all();
        }
    }
    fn kid(&mut self, kids: &mut Vec<(Item, u64)>, used: &[u64], m: &[(u32, u64)], i: usize, rl: u64, t: Id, d: &Dec) {
        let mut inputs = used.to_vec();
        for (k, v) in m {
            if (*k as usize) < inputs.len() {
                inputs[*k as usize] = *v;
            }
        }
        let h = self.m.pool.node(t).h;
        // a coarse identity of "this site, this side"
        let side = match &d.alt {
            Alt::Flip => self.m.pool.node(t).op == E::Not,
            _ => false,
        } as u64;
        let sig = d.site.wrapping_mul(31) ^ side << 63 ^ match &d.alt {
            Alt::Pin(_) | Alt::Multi(_) => mixh(h, 7) & 0xff,
            _ => 0,
        };
        kids.push((Item { inputs: inputs.into_boxed_slice(), bound: i as u32 + 1, ph: roll(rl, h) }, sig));
    }

    fn flush(&mut self) {
        let z = self.z.stats.clone();
        add_stats(&mut self.zs, &z);
        self.z.stats = Stats::default();
    }
    fn run(&mut self) {
        loop {
            let it = {
                let mut q = self.sh.q.lock().unwrap();
                loop {
                    if q.stop {
                        return;
                    }
                    if self.sh.start.elapsed() > self.cfg.time || self.sh.paths.load(Relaxed) >= self.cfg.max_paths {
                        q.stop = true;
                        self.sh.stop.store(true, Relaxed);
                        self.sh.cv.notify_all();
                        return;
                    }
                    q.rng = mixh(q.rng, 12345);
                    let r = q.rng;
                    let it = if !q.novel.is_empty() && r % 4 != 0 {
                        let n = q.novel.len() as u64;
                        Some(q.novel.swap_remove(((r >> 8) % n) as usize))
                    } else if !q.items.is_empty() {
                        let n = q.items.len();
                        if r % 3 == 0 && n < 3_000_000 {
                            Some(q.items.swap_remove(((r >> 8) % n as u64) as usize))
                        } else {
                            q.items.pop()
                        }
                    } else {
                        q.novel.pop()
                    };
                    if let Some(it) = it {
                        q.active += 1;
                        break it;
                    }
                    if q.active == 0 {
                        q.stop = true;
                        self.sh.cv.notify_all();
                        return;
                    }
                    let (g, _) = self.sh.cv.wait_timeout(q, Duration::from_millis(100)).unwrap();
                    q = g;
                }
            };
            self.process(it);
            self.sh.q.lock().unwrap().active -= 1;
            self.sh.cv.notify_all();
            if self.m.pool.n.len() > 3_000_000 {
                self.flush();
                self.m.pool = Pool::new();
                self.z = Z::new();
            }
        }
    }
}

fn add_stats(a: &mut Stats, b: &Stats) {
    a.queries += b.queries;
    a.sat += b.sat;
    a.unsat += b.unsat;
    a.unknown += b.unknown;
    a.time_us += b.time_us;
    a.max_us = a.max_us.max(b.max_us);
}

impl Report {
    fn asserts(&mut self, m: &Machine) {
        self.assert_checks += m.asserts;
        self.sym_asserts += m.sym_asserts;
    }
    pub fn merge(&mut self, o: &Report) {
        self.paths += o.paths;
        self.ok += o.ok;
        self.allowed_panics += o.allowed_panics;
        self.assume_cut += o.assume_cut;
        self.budget_hits += o.budget_hits;
        self.diverged += o.diverged;
        for (a, b) in [(&mut self.engine_errors, &o.engine_errors), (&mut self.incomplete, &o.incomplete), (&mut self.undecided, &o.undecided)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_insert(0) += v;
            }
        }
        self.undecided_n += o.undecided_n;
        self.decisions += o.decisions;
        self.queries_unsat_cached += o.queries_unsat_cached;
        self.queries_sat_cached += o.queries_sat_cached;
        self.assert_checks += o.assert_checks;
        self.assert_queries += o.assert_queries;
        self.assert_unsat += o.assert_unsat;
        self.sym_asserts += o.sym_asserts;
        self.steps += o.steps;
        add_stats(&mut self.stats, &o.stats);
        for (k, v) in &o.reach {
            *self.reach.entry(*k).or_insert(0) += v;
        }
        if self.covered.len() < o.covered.len() {
            self.covered.resize(o.covered.len(), false);
        }
        for (i, b) in o.covered.iter().enumerate() {
            self.covered[i] |= b;
        }
        self.max_inputs = self.max_inputs.max(o.max_inputs);
        self.max_decisions = self.max_decisions.max(o.max_decisions);
        self.model_mismatch += o.model_mismatch;
        self.float_lost += o.float_lost;
        self.pending += o.pending;
        self.wall += o.wall;
    }
}

pub fn explore(prog: &Program, cfg: &Cfg) -> Outp {
    let sh = Shared {
        q: Mutex::new(Queue { rng: cfg.seed, ..Default::default() }),
        cv: Condvar::new(),
        cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
        cache_n: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        paths: AtomicU64::new(0),
        viol: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(Vec::new()),
        rep: Mutex::new(Report::default()),
        seen: Mutex::new(HashSet::new()),
        start: Instant::now(),
    };
    sh.q.lock().unwrap().items.push(Item { inputs: Box::new([]), bound: 0, ph: 0 });
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut m = Machine::new(prog);
                    m.budget = cfg.budget;
                    let mut w = Worker { m, z: Z::new(), zs: Stats::default(), sh, cfg, rep: Report::default(), slice: Vec::new() };
                    w.run();
                    w.flush();
                    w.rep.stats = w.zs.clone();
                    w.rep.covered = w.m.covered.clone();
                    for (k, v) in w.m.incomplete.iter() {
                        *w.rep.incomplete.entry(k.clone()).or_insert(0) += v;
                    }
                    sh.rep.lock().unwrap().merge(&w.rep);
                })
                .unwrap();
        }
    });
    let q = sh.q.into_inner().unwrap();
    let mut rep = sh.rep.into_inner().unwrap();
    rep.pending = (q.items.len() + q.novel.len()) as u64;
    rep.wall = sh.start.elapsed().as_secs_f64();
    rep.exhausted = rep.pending == 0 && !sh.stop.load(Relaxed) && rep.undecided_n == 0 && rep.incomplete.is_empty() && rep.engine_errors.is_empty() && rep.diverged == 0 && rep.budget_hits == 0;
    Outp { rep, viol: sh.viol.into_inner().unwrap(), samples: sh.samples.into_inner().unwrap() }
}
