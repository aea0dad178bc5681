//! C12: the scoped map against a plain model.
use layout::adt::map::ScopedMap;
use sym::*;

/// The model: all live insertions with their depth, in order.
struct Model {
    depth: usize,
    log: Vec<(usize, u64, u64)>,
}
impl Model {
    fn get(&self, k: u64) -> Option<u64> {
        // the innermost scope wins, then the latest insertion
        let mut best: Option<(usize, u64)> = None;
        for (d, kk, v) in &self.log {
            if *kk == k {
                best = match best {
                    Some((bd, _)) if bd > *d => best,
                    _ => Some((*d, *v)),
                };
            }
        }
        best.map(|x| x.1)
    }
}
fn compare(m: &ScopedMap<u64, u64>, w: &Model, probe: u64) {
    check(m.len() == w.depth, 1);
    check(m.is_empty() == (w.depth == 0), 1);
    let g = m.get(&probe);
    let e = w.get(probe);
    check(g.is_some() == e.is_some(), 2);
    check(m.has(&probe) == e.is_some(), 2);
    if let (Some(a), Some(b)) = (g, e) {
        check(a == b, 3);
    }
}
fn history(k: usize, keys: u64, flat: bool) {
    hash_mode(1);
    let mut m: ScopedMap<u64, u64> = ScopedMap::new();
    let mut w = Model { depth: 0, log: vec![] };
    let probe = int(0, keys);
    for _ in 0..k {
        match pick(0, 2) {
            0 => {
                m.push();
                w.depth += 1;
            }
            1 => {
                m.pop();
                let d = w.depth;
                w.log.retain(|x| x.0 < d);
                w.depth = d.saturating_sub(1);
                reach(1);
            }
            _ => {
                // inserting needs an open scope
                if w.depth == 0 {
                    stop();
                }
                let (key, val) = (int(0, keys), int(0, 255));
                m.insert(&key, &val);
                w.log.push((w.depth, key, val));
            }
        }
        compare(&m, &w, probe);
    }
    if flat {
        let f = m.flatten();
        let e = w.get(probe);
        let g = f.get(&probe);
        check(g.is_some() == e.is_some(), 4);
        if let (Some(a), Some(b)) = (g, e) {
            check(*a == b, 5);
        }
        // flattening does not change the map, and adds no keys
        for (kk, v) in &f {
            let e = w.get(*kk);
            check(e.is_some(), 6);
            if let Some(e) = e {
                check(e == *v, 5);
            }
        }
        let mut distinct = 0;
        for (i, x) in w.log.iter().enumerate() {
            if !w.log[..i].iter().any(|y| y.1 == x.1) {
                distinct += 1;
            }
        }
        check(f.len() == distinct, 6);
        compare(&m, &w, probe);
        reach(2);
    }
    observe(m.len() as u64);
}
/// Text keys and values, as the graph builder uses them.
fn texts(k: usize) {
    hash_mode(1);
    let mut m: ScopedMap<String, String> = ScopedMap::default();
    let mut depth = 0;
    let mut log: Vec<(usize, String, String)> = vec![];
    let probe = ascii(1, 97, 122);
    for _ in 0..k {
        match pick(0, 2) {
            0 => {
                m.push();
                depth += 1;
            }
            1 => {
                m.pop();
                log.retain(|x| x.0 < depth);
                depth = if depth > 0 { depth - 1 } else { 0 };
            }
            _ => {
                if depth == 0 {
                    stop();
                }
                let (key, val) = (ascii(1, 97, 122), ascii(1, 97, 122));
                m.insert(&key, &val);
                log.push((depth, key, val));
            }
        }
    }
    let mut e: Option<(usize, String)> = None;
    for (d, kk, v) in &log {
        if *kk == probe {
            e = match e {
                Some((bd, x)) if bd > *d => Some((bd, x)),
                _ => Some((*d, v.clone())),
            };
        }
    }
    let e = e.map(|x| x.1);
    check(m.get(&probe) == e, 3);
    check(m.flatten().get(&probe) == e.as_ref(), 5);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn hist6() {
    history(6, 255, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn hist7() {
    history(7, 255, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn hist8() {
    history(8, 255, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn hist9() {
    history(9, 255, true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn text5() {
    texts(5)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn text6() {
    texts(6)
}
/// Any place in a tower of scopes: keys set at three depths, then a number of scopes is closed.
fn tower(n: usize, keys: usize) {
    hash_mode(1);
    let mut m: ScopedMap<u64, u64> = ScopedMap::new();
    let mut w = Model { depth: 0, log: vec![] };
    let at: Vec<usize> = (0..keys).map(|_| pick(1, n as u64) as usize).collect();
    let key: Vec<u64> = (0..keys).map(|_| int(0, 255)).collect();
    let probe = int(0, 255);
    let more = flag();
    for d in 1..=n {
        m.push();
        w.depth += 1;
        for i in 0..keys {
            if at[i] == d {
                m.insert(&key[i], &(10 + i as u64));
                w.log.push((d, key[i], 10 + i as u64));
            }
        }
        if more {
            // other keys in every scope
            m.insert(&(1000 + d as u64), &1);
            w.log.push((d, 1000 + d as u64, 1));
        }
    }
    compare(&m, &w, probe);
    let gone = pick(0, n as u64) as usize;
    for _ in 0..gone {
        m.pop();
        let d = w.depth;
        w.log.retain(|x| x.0 < d);
        w.depth = d - 1;
    }
    compare(&m, &w, probe);
    let f = m.flatten();
    check(f.get(&probe).copied() == w.get(probe), 5);
    for d in 1..=n as u64 {
        check(f.contains_key(&(1000 + d)) == (more && d as usize <= n - gone), 6);
    }
    if w.depth > 0 {
        m.insert(&probe, &99);
        w.log.push((w.depth, probe, 99));
        compare(&m, &w, probe);
    }
    reach(1);
}
/// Many keys in a few scopes; one of them is set again.
fn many(n: u64) {
    hash_mode(0);
    let mut m: ScopedMap<u64, u64> = ScopedMap::new();
    let mut w = Model { depth: 0, log: vec![] };
    let again = pick(0, n - 1);
    let cut = pick(0, n - 1);
    m.push();
    w.depth = 1;
    for k in 0..n {
        if k == cut {
            m.push();
            w.depth += 1;
        }
        m.insert(&k, &(k + 100));
        w.log.push((w.depth, k, k + 100));
    }
    m.insert(&again, &7);
    w.log.push((w.depth, again, 7));
    for k in 0..n {
        compare(&m, &w, k);
    }
    let f = m.flatten();
    check(f.len() == n as usize, 6);
    for k in 0..n {
        check(f.get(&k).copied() == w.get(k), 5);
    }
    m.pop();
    w.log.retain(|x| x.0 < 2);
    w.depth = 1;
    for k in 0..n {
        compare(&m, &w, k);
    }
    check(m.flatten().len() == cut as usize, 6);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn tower9() {
    tower(9, 3)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn tower20() {
    tower(20, 2)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn many40() {
    many(40)
}
entries!(tower9, tower20, many40, hist6, hist7, hist8, hist9, text5, text6);
