//! symex: decides the properties of /verif/properties.jsonl by symbolic execution of the LLVM IR
//! of /repo's current tree, with Z3 as the deciding step.
mod exec;
mod explore;
mod expr;
mod ll;
mod lower;
mod z3;

use exec::{Machine, Outcome};
use explore::{Cfg, Report, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Default)]
struct Entry {
    name: String,
    tiers: Vec<String>,
    time: u64,
    budget: u64,
    hang: bool,
    reach: Vec<u64>,
    bounds: String,
    solver_ms: u32,
    replays: u32,
}

#[derive(Default)]
struct Conf {
    bin: String,
    entries: Vec<Entry>,
    assumptions: Vec<String>,
    asserts: BTreeMap<u64, String>,
    focus: Vec<String>,
}

struct Known {
    prop: String,
    entry: String,
    key: String,
    inputs: Vec<u64>,
    what: String,
}

fn root() -> PathBuf {
    if let Ok(r) = std::env::var("VERIF_ROOT") {
        return r.into();
    }
    let mut p = std::env::current_exe().unwrap();
    while p.pop() {
        if p.join("checks").is_dir() && p.join("harness").is_dir() {
            return p;
        }
    }
    "/verif".into()
}

fn build_dir() -> PathBuf {
    match std::env::var("SYMEX_BUILD") {
        Ok(p) => p.into(),
        Err(_) => root().join(".build"),
    }
}

fn parse_conf(p: &Path) -> Result<Conf, String> {
    let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
    let mut c = Conf::default();
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (k, v) = l.split_once(':').ok_or(format!("bad line {}", l))?;
        let v = v.trim();
        match k {
            "bin" => c.bin = v.into(),
            "assume" => c.assumptions.push(v.into()),
            "focus" => c.focus.extend(v.split_whitespace().map(|s| s.to_string())),
            "assert" => {
                let (i, d) = v.split_once(' ').unwrap_or((v, ""));
                c.asserts.insert(i.parse().map_err(|_| "bad assert id")?, d.trim().into());
            }
            "entry" => {
                let (head, b) = v.split_once('|').unwrap_or((v, ""));
                let mut w = head.split_whitespace();
                let mut e = Entry {
                    name: w.next().ok_or("entry name")?.into(),
                    tiers: vec!["quick".into(), "thorough".into()],
                    time: 60,
                    budget: 20_000_000,
                    bounds: b.trim().into(),
                    solver_ms: 3000,
                    replays: 1,
                    ..Default::default()
                };
                for o in w {
                    let (k, v) = o.split_once('=').unwrap_or((o, ""));
                    match k {
                        "tiers" => e.tiers = v.split(',').map(|s| s.to_string()).collect(),
                        "time" => e.time = v.parse().map_err(|_| "time")?,
                        "budget" => e.budget = v.parse().map_err(|_| "budget")?,
                        "hang" => e.hang = true,
                        "reach" => e.reach = v.split(',').map(|s| s.parse().unwrap()).collect(),
                        "ms" => e.solver_ms = v.parse().map_err(|_| "ms")?,
                        "replays" => e.replays = v.parse().map_err(|_| "replays")?,
                        _ => return Err(format!("bad option {}", o)),
                    }
                }
                c.entries.push(e);
            }
            _ => return Err(format!("bad key {}", k)),
        }
    }
    Ok(c)
}

fn parse_known(p: &Path) -> Vec<Known> {
    let mut out = Vec::new();
    let t = std::fs::read_to_string(p).unwrap_or_default();
    for l in t.lines() {
        let l = match l.strip_prefix("known:") {
            Some(l) => l,
            None => continue,
        };
        let (head, what) = l.split_once("--").unwrap_or((l, ""));
        let mut k = Known { prop: String::new(), entry: String::new(), key: String::new(), inputs: vec![], what: what.trim().into() };
        for f in head.split_whitespace() {
            if let Some((a, b)) = f.split_once('=') {
                match a {
                    "property" => k.prop = b.into(),
                    "entry" => k.entry = b.into(),
                    "outcome" => k.key = b.replace('_', " "),
                    "inputs" => k.inputs = b.split(',').filter_map(|x| x.parse::<i128>().ok()).map(|x| x as u64).collect(),
                    _ => {}
                }
            }
        }
        out.push(k);
    }
    out
}

/// Builds the harness against /repo and returns (IR text path, native executable).
fn build(bin: &str) -> Result<(PathBuf, PathBuf, f64), String> {
    let t0 = Instant::now();
    let h = root().join("harness");
    let td = build_dir().join("harness");
    std::fs::create_dir_all(&td).map_err(|e| e.to_string())?;
    let deps = td.join("release").join("deps");
    // stale IR of an earlier build of the same binary
    if let Ok(rd) = std::fs::read_dir(&deps) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if n.starts_with(&format!("{}-", bin)) && (n.ends_with(".ll") || n.ends_with(".bc")) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    // make cargo relink (the IR file is a by-product it does not track)
    let src = h.join("src").join("bin").join(format!("{}.rs", bin));
    if !src.exists() {
        return Err(format!("{} does not exist", src.display()));
    }
    let fp = td.join("release").join(".fingerprint");
    if let Ok(rd) = std::fs::read_dir(&fp) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if n.starts_with("harness-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let o = Command::new("cargo")
        .args(["rustc", "--release", "--offline", "--bin", bin, "--", "--emit=llvm-ir,link"])
        .current_dir(&h)
        .env("RUSTUP_TOOLCHAIN", "stable")
        .env("CARGO_TARGET_DIR", &td)
        .env("CARGO_INCREMENTAL", "0")
        .env("CARGO_PROFILE_RELEASE_LTO", "fat")
        .env("CARGO_PROFILE_RELEASE_CODEGEN_UNITS", "1")
        .env("CARGO_PROFILE_RELEASE_PANIC", "abort")
        .env("RUSTFLAGS", "-C no-vectorize-loops -C no-vectorize-slp")
        .env_remove("CARGO_BUILD_TARGET")
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("build failed:\n{}", String::from_utf8_lossy(&o.stderr)));
    }
    let mut ir = None;
    for e in std::fs::read_dir(&deps).map_err(|e| e.to_string())?.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if n.starts_with(&format!("{}-", bin)) && n.ends_with(".ll") {
            ir = Some(e.path());
        }
    }
    let exe = td.join("release").join(bin);
    Ok((ir.ok_or("no IR produced")?, exe, t0.elapsed().as_secs_f64()))
}

fn load(ir: &Path) -> Result<lower::Program, String> {
    let text = std::fs::read_to_string(ir).map_err(|e| e.to_string())?;
    let m = ll::parse_module(&text)?;
    lower::lower_program(&m)
}

// ---- native replay

#[derive(Debug, PartialEq, Clone)]
enum Native {
    Ok(u64),
    Assert(u64),
    Assume,
    AllowedPanic,
    Panic(String),
    Hang,
    Other(String),
}

fn fmt_inputs(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn native(exe: &Path, entry: &str, inputs: &[u64], secs: u64, verbose: bool) -> (Native, String) {
    let mut c = Command::new(exe);
    c.arg("replay").arg(entry).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if verbose {
        c.env("SYM_VERBOSE", "1");
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return (Native::Other(e.to_string()), String::new()),
    };
    let _ = ch.stdin.take().unwrap().write_all(fmt_inputs(inputs).as_bytes());
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut se, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(secs) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(_) => break None,
        }
    };
    let out = t1.join().unwrap();
    let err = t2.join().unwrap();
    let all = format!("{}{}", out, err);
    let last = out.lines().rev().find(|l| l.starts_with("RESULT ")).unwrap_or("").to_string();
    let w: Vec<&str> = last.split_whitespace().collect();
    let n = match st {
        None => Native::Hang,
        Some(s) => match s.code() {
            Some(0) if w.len() == 3 && w[1] == "ok" => Native::Ok(w[2].parse().unwrap_or(0)),
            Some(10) if w.len() == 3 => Native::Assert(w[2].parse().unwrap_or(0)),
            Some(11) => Native::Assume,
            Some(12) => Native::AllowedPanic,
            Some(13) => Native::Panic(err.lines().find(|l| l.contains("panicked")).unwrap_or("").to_string()),
            _ => Native::Other(format!("{:?}", s)),
        },
    };
    (n, all)
}

fn reproduces(o: &Outcome, n: &Native) -> bool {
    match (o, n) {
        (Outcome::AssertFail(i), Native::Assert(j)) => i == j,
        (Outcome::Panic(_), Native::Panic(_)) => true,
        (Outcome::Budget, Native::Hang) => true,
        (Outcome::Stack, Native::Other(_)) => true,
        // an abort (for example a failed allocation) ends the process as well
        (Outcome::Panic(l), Native::Other(_)) if l == "abort" => true,
        _ => false,
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    // solver terms and expression walks recurse
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => check(&a[2], &a[3..]),
        Some("replay") if a.len() >= 3 => replay(&a[2]),
        Some("run") if a.len() >= 4 => run_one(&a[2], &a[3], a.get(4).map(|s| s.as_str()).unwrap_or("")),
        Some("z3") => {
            println!("{}", z3::version());
            0
        }
        _ => {
            eprintln!("usage: symex check ID [--tier quick|thorough] [--entry NAME] [--time S] | replay FILE | run BIN ENTRY INPUTS");
            2
        }
    }
}

fn run_one(bin: &str, entry: &str, inputs: &str) -> i32 {
    let (ir, exe, _) = match build(bin) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let prog = match load(&ir) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let inp: Vec<u64> = inputs.split(',').filter_map(|x| x.parse().ok()).collect();
    let mut m = Machine::new(&prog);
    m.budget = 1 << 40;
    let t = Instant::now();
    let o = m.run(prog.by_name[entry], &inp);
    println!("engine: {:?} obs={} steps={} decisions={} inputs={} {:?}", o, m.obs, m.steps, m.trace.len(), m.used.len(), t.elapsed());
    if std::env::var("SYMEX_TRACE").is_ok() {
        for d in &m.trace {
            println!("  {} {}", if d.is_assert { "A" } else { " " }, m.pool.show(d.cond, 6));
        }
    }
    for (k, v) in &m.incomplete {
        println!("incomplete {} {}", v, k);
    }
    let (n, s) = native(&exe, entry, &m.used, 30, true);
    println!("native: {:?}\n{}", n, s);
    0
}

fn replay(f: &str) -> i32 {
    let t = match std::fs::read_to_string(f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.to_string())).unwrap_or_default();
    let (_, exe, _) = match build(&get("bin")) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let inp: Vec<u64> = get("inputs").split(',').filter_map(|x| x.parse().ok()).collect();
    let (n, s) = native(&exe, &get("entry"), &inp, 30, true);
    println!("expected: {}\nnative: {:?}\n{}", get("outcome"), n, s);
    0
}

fn check(id: &str, rest: &[String]) -> i32 {
    let t0 = Instant::now();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let mut only: Option<String> = None;
    let mut time_over: Option<u64> = None;
    let mut i = 0;
    while i < rest.len() {
        match rest[i].as_str() {
            "--tier" => {
                tier = rest[i + 1].clone();
                i += 1;
            }
            "--entry" => {
                only = Some(rest[i + 1].clone());
                i += 1;
            }
            "--time" => {
                time_over = rest[i + 1].parse().ok();
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let conf = match parse_conf(&root().join("checks").join(format!("{}.conf", id))) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let known: Vec<Known> = parse_known(&root().join("known_findings.txt")).into_iter().filter(|k| k.prop == id).collect();
    let (ir, exe, build_s) = match build(&conf.bin) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let prog = match load(&ir) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("cannot lower the IR: {}", e);
            return 2;
        }
    };
    let encode_s = t0.elapsed().as_secs_f64();
    println!("{}: IR of {} functions built and encoded in {:.1}s", id, prog.funcs.len(), encode_s);

    let mut total = Report::default();
    let mut all_exhausted = true;
    let mut violations: Vec<(Entry, Violation, String)> = Vec::new();
    let mut unrepro: Vec<String> = Vec::new();
    let mut vacuous: Vec<String> = Vec::new();
    let mut validated = 0u64;
    let mut mismatches: Vec<String> = Vec::new();
    let mut samples_json: Vec<String> = Vec::new();
    let mut entry_json: Vec<String> = Vec::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut known_hit = 0u64;
    let mut nontrivial = 0u64;
    let threads = std::env::var("SYMEX_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);

    // listed findings are replayed against the real build on every run
    for k in &known {
        let (n, _) = native(&exe, &k.entry, &k.inputs, 30, false);
        if !matches!(n, Native::Ok(_) | Native::Assume | Native::AllowedPanic) {
            println!("KNOWN-FINDING: property={} {}", id, k.what);
        }
    }

    for e in &conf.entries {
        if let Some(o) = &only {
            if *o != e.name {
                continue;
            }
        } else if !e.tiers.contains(&tier) {
            continue;
        }
        let fi = match prog.by_name.get(&e.name) {
            Some(f) => *f,
            None => {
                eprintln!("entry {} missing from the IR", e.name);
                return 2;
            }
        };
        // the whole check answers within its time, whatever the code under check does
        let left = (if tier == "thorough" { 820u64 } else { 600 }).saturating_sub(t0.elapsed().as_secs());
        if !violations.is_empty() && (t0.elapsed().as_secs() > 45 || std::env::var("SYMEX_FAST").is_ok()) {
            all_exhausted = false;
            break;
        }
        let cfg = Cfg {
            entry: fi,
            threads,
            time: Duration::from_secs(time_over.unwrap_or(e.time).min(left.max(2))),
            budget: e.budget,
            seed,
            solver_ms: e.solver_ms,
            max_paths: u64::MAX,
            max_queue: 2_000_000,
            known: vec![],
        };
        let o = explore::explore(&prog, &cfg);
        let r = &o.rep;
        println!(
            "{} {}: {} paths ({} ok, {} cut by assumptions, {} allowed panics), {} decisions, {} queries ({} unsat, {} sat, {} unknown; cache {}), solver {:.1}s, asserts {} ({} symbolic, {} queries, {} unsat), {:.1}s{}",
            id, e.name, r.paths, r.ok, r.assume_cut, r.allowed_panics, r.decisions, r.stats.queries, r.stats.unsat, r.stats.sat, r.stats.unknown,
            r.queries_unsat_cached + r.queries_sat_cached, r.stats.time_us as f64 / 1e6, r.assert_checks, r.sym_asserts, r.assert_queries, r.assert_unsat, r.wall,
            if r.exhausted { ", exhausted".to_string() } else { format!(", NOT exhausted ({} pending)", r.pending) }
        );
        for (n, m) in [("engine", &r.engine_errors), ("incomplete", &r.incomplete), ("undecided", &r.undecided)] {
            let mut v: Vec<_> = m.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, c) in v.iter().take(12) {
                println!("   {} x{}: {}", n, c, k);
            }
        }
        if r.diverged > 0 || r.model_mismatch > 0 || r.budget_hits > 0 {
            println!("   diverged {} model mismatches {} budget {} steps {}", r.diverged, r.model_mismatch, r.budget_hits, r.steps);
        }
        // witness validation: the same inputs through the native build
        if !o.samples.is_empty() {
            let (n, bad) = validate(&exe, e, &o.samples);
            validated += n;
            for b in bad {
                println!("   ENGINE-MISMATCH {} {}", e.name, b);
                mismatches.push(format!("{} {}", e.name, b));
            }
            for s in o.samples.iter().rev().take(3) {
                samples_json.push(format!("{{\"entry\": {}, \"inputs\": {}, \"path_decisions\": {}, \"outcome\": {}}}", jstr(&e.name), jstr(&fmt_inputs(&s.inputs)), s.decisions, jstr(&format!("{:?}", s.outcome))));
            }
        }
        if r.ok + r.allowed_panics == 0 && o.viol.is_empty() {
            vacuous.push(format!("{}: no path reaches the end", e.name));
        }
        if o.viol.is_empty() {
            for k in &e.reach {
                if !r.reach.contains_key(k) {
                    vacuous.push(format!("{}: reachability witness {} not reached", e.name, k));
                }
            }
        }
        // violations
        for (key, vs) in &o.viol {
            let is_known = |v: &Violation| known.iter().any(|k| k.entry == e.name && k.key == *key && (k.inputs.is_empty() || k.inputs == v.inputs));
            let hang = matches!(vs[0].outcome, Outcome::Budget);
            if hang && !e.hang {
                all_exhausted = false;
                continue;
            }
            let mut rep: Option<Violation> = None;
            let mut fails: Vec<String> = Vec::new();
            let mut listed = 0;
            for v in vs.iter().take(if hang { 2 } else { 12 }) {
                if is_known(v) {
                    listed += 1;
                    known_hit += 1;
                    continue;
                }
                for _ in 0..e.replays {
                    let (n, _) = native(&exe, &e.name, &v.inputs, 30, false);
                    if reproduces(&v.outcome, &n) {
                        rep = Some(v.clone());
                        break;
                    }
                    fails.push(format!("{:?} vs native {:?}", v.outcome, n));
                }
                if rep.is_some() {
                    break;
                }
            }
            match rep {
                Some(v) => violations.push((e.clone(), v, key.clone())),
                None => {
                    if listed < vs.len() && !hang {
                        unrepro.push(format!("{}: {} ({} cases) did not reproduce: {} inputs {}", e.name, key, vs[0].count, fails.first().cloned().unwrap_or_default(), fmt_inputs(&vs[0].inputs)));
                    }
                }
            }
        }
        entry_json.push(format!(
            "{{\"entry\": {}, \"bounds\": {}, \"exhausted\": {}, \"paths\": {}, \"paths_completed\": {}, \"cut_by_assumptions\": {}, \"symbolic_decisions\": {}, \"assertion_checks\": {}, \"assertion_checks_symbolic\": {}, \"assertion_queries\": {}, \"assertion_queries_unsat\": {}, \"queries\": {}, \"queries_unsat\": {}, \"queries_sat\": {}, \"queries_unknown\": {}, \"answered_from_query_cache\": {}, \"undecided\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"max_symbolic_inputs\": {}, \"max_path_decisions\": {}, \"instructions_executed\": {}, \"pending_at_stop\": {}, \"wall_s\": {:.2}, \"notes\": {}}}",
            jstr(&e.name), jstr(&e.bounds), r.exhausted, r.paths, r.ok + r.allowed_panics, r.assume_cut, r.decisions, r.assert_checks, r.sym_asserts, r.assert_queries, r.assert_unsat,
            r.stats.queries, r.stats.unsat, r.stats.sat, r.stats.unknown, r.queries_unsat_cached + r.queries_sat_cached, r.undecided_n, r.stats.time_us as f64 / 1e6, r.stats.max_us as f64 / 1e6, r.max_inputs, r.max_decisions, r.steps, r.pending, r.wall,
            jstr(&format!("{}", r.engine_errors.iter().chain(r.incomplete.iter()).chain(r.undecided.iter()).take(8).map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>().join("; ")))
        ));
        all_exhausted &= r.exhausted;
        nontrivial += if r.sym_asserts + r.decisions > 0 { r.ok } else { 0 };
        for (k, c) in r.covered.iter().enumerate() {
            if *c {
                let n = &prog.funcs[k].name;
                let d = lower::demangle(n);
                if d.contains("layout::") {
                    fns.insert(d);
                }
            }
        }
        total.merge(r);
    }
    if std::env::var("SYMEX_FNS").is_ok() {
        for f in &fns {
            println!("   fn {}", f);
        }
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut j = String::new();
    j += &format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", jstr(id), jstr(if tier == "thorough" { "thorough" } else { "quick" }), seed);
    j += &format!(" \"coverage\": {{\n  \"exhaustive\": {},\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", all_exhausted, total.paths, total.decisions, validated, total.paths, nontrivial);
    j += "  \"rule\": \"states are distinct execution paths of the real code (pairwise inconsistent path conditions), each standing for every input satisfying its condition; transitions are symbolic decisions on them, each handed to Z3 for the other side; a path is non-trivial when it completed and its entry had symbolic decisions or assertions\",\n";
    j += &format!("  \"solver\": {},\n", jstr(&z3::version()));
    j += &format!("  \"queries\": {{\"discharged\": {}, \"unsat\": {}, \"sat\": {}, \"unknown\": {}, \"from_cache\": {}, \"undecided_decisions\": {}, \"solver_s\": {:.3}}},\n", total.stats.queries, total.stats.unsat, total.stats.sat, total.stats.unknown, total.queries_unsat_cached + total.queries_sat_cached, total.undecided_n, total.stats.time_us as f64 / 1e6);
    j += &format!("  \"assertions\": {{\"evaluated\": {}, \"symbolic\": {}, \"negation_queries\": {}, \"negation_unsat\": {}}},\n", total.assert_checks, total.sym_asserts, total.assert_queries, total.assert_unsat);
    j += &format!("  \"encoding\": {{\"source\": \"LLVM IR of /repo's working tree, rebuilt on this run\", \"build_s\": {:.2}, \"build_and_encode_s\": {:.2}, \"functions_in_ir\": {}, \"functions_of_the_code_encoded\": [{}]}},\n", build_s, encode_s, prog.funcs.len(), fns.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(", "));
    j += &format!("  \"engine_mismatches\": [{}],\n", mismatches.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    j += &format!("  \"entries\": [\n   {}\n  ],\n", entry_json.join(",\n   "));
    if samples_json.is_empty() {
        samples_json.push("\"no completed path\"".into());
    }
    j += &format!("  \"samples\": [\n   {}\n  ]\n }},\n", samples_json.join(",\n   "));
    j += &format!(" \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", conf.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "), wall, violations.len() as u64 + known_hit);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", id)), j) {
        eprintln!("cannot write the evidence: {}", e);
        return 2;
    }
    for u in &unrepro {
        println!("UNREPRODUCED {}", u);
    }
    for v in &vacuous {
        println!("VACUOUS {}", v);
    }
    if !violations.is_empty() {
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (n, (e, v, key)) in violations.iter().enumerate() {
            let p = rd.join(format!("{}-{}.txt", id, n));
            let (nat, text) = native(&exe, &e.name, &v.inputs, 30, true);
            let what = match &v.outcome {
                Outcome::AssertFail(i) => conf.asserts.get(i).cloned().unwrap_or_default(),
                _ => String::new(),
            };
            let s = format!("property: {}\nbin: {}\nentry: {}\noutcome: {} {}\npaths with this outcome: {}\ninputs: {}\nnative: {:?}\nreplay with: /verif/run.sh replay {} (SYM_VERBOSE=1 shows more)\n\n{}\n", id, conf.bin, e.name, key, what, v.count, fmt_inputs(&v.inputs), nat, p.display(), text);
            let _ = std::fs::write(&p, s);
            println!("{} {}: {} {}", id, e.name, key, what);
            println!("VIOLATION property={} replay={}", id, p.display());
        }
        return 1;
    }
    if !unrepro.is_empty() || !vacuous.is_empty() {
        return 2;
    }
    println!("{}: held on everything explored in {:.1}s{}", id, wall, if all_exhausted { " (bounds exhausted)" } else { " (not exhaustive)" });
    0
}

fn validate(exe: &Path, e: &Entry, samples: &[explore::Sample]) -> (u64, Vec<String>) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad = std::sync::Mutex::new(Vec::new());
    let n = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= samples.len() {
                    return;
                }
                let s = &samples[k];
                let (x, _) = native(exe, &e.name, &s.inputs, 30, false);
                let good = match (&s.outcome, &x) {
                    (Outcome::Ok, Native::Ok(o)) => *o == s.obs,
                    (Outcome::AllowedPanic(_), Native::AllowedPanic) => true,
                    _ => false,
                };
                if good {
                    n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                } else {
                    bad.lock().unwrap().push(format!("inputs {} engine {:?} obs {} native {:?}", fmt_inputs(&s.inputs), s.outcome, s.obs, x));
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.truncate(5);
    (n.into_inner(), bad)
}
