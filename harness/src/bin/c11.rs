//! C11: optimizing ranks and edge crossings.
use layout::adt::dag::{NodeHandle, DAG};
use layout::topo::optimizer::{EdgeCrossOptimizer, RankOptimizer};
use sym::*;

fn h(i: usize) -> NodeHandle {
    NodeHandle::new(i)
}
fn rows(d: &DAG) -> Vec<Vec<usize>> {
    d.ranks().iter().map(|r| r.iter().map(|x| x.get_index()).collect()).collect()
}
/// Every node is in exactly one rank.
fn once(r: &[Vec<usize>], n: usize) -> bool {
    (0..n).all(|v| r.iter().flatten().filter(|x| **x == v).count() == 1) && r.iter().map(|x| x.len()).sum::<usize>() == n
}
fn level(r: &[Vec<usize>], v: usize) -> usize {
    r.iter().position(|x| x.contains(&v)).unwrap()
}
fn length(r: &[Vec<usize>], e: &[(usize, usize)]) -> usize {
    e.iter().map(|(a, b)| level(r, *b) - level(r, *a)).sum()
}
fn edges_kept(d: &DAG, n: usize, e: &[(usize, usize)], id: u64) {
    check(d.len() == n, id);
    for a in 0..n {
        let (s, p) = (d.successors(h(a)), d.predecessors(h(a)));
        check(s.len() == e.iter().filter(|x| x.0 == a).count(), id);
        check(p.len() == e.iter().filter(|x| x.1 == a).count(), id);
        for b in 0..n {
            let k = e.iter().filter(|x| **x == (a, b)).count();
            check(s.iter().filter(|x| x.get_index() == b).count() == k, id);
            check(d.predecessors(h(b)).iter().filter(|x| x.get_index() == a).count() == k, id);
        }
    }
}
/// An arbitrary legal leveling, or the one that is computed.
fn sink(n: usize, multi: u64, free: u64) {
    let mut d = DAG::new();
    d.new_nodes(n);
    let mut e = vec![];
    let rev = flag();
    let name = |i: usize| if rev { n - 1 - i } else { i };
    for i in 0..n {
        for j in i + 1..n {
            for _ in 0..int(0, multi) {
                d.add_edge(h(name(i)), h(name(j)));
                e.push((name(i), name(j)));
            }
        }
    }
    d.recompute_node_ranks();
    if free > 0 {
        // any ranks that respect the edges: every node may be up to `free` lower than needed
        let mut lv = vec![0usize; n];
        for j in 0..n {
            let need = e.iter().filter(|x| x.1 == name(j)).map(|x| lv[if rev { n - 1 - x.0 } else { x.0 }] + 1).max().unwrap_or(0);
            lv[j] = need + pick(0, free) as usize;
        }
        if lv.iter().any(|l| *l > n) {
            stop(); // ranks are below the number of nodes
        }
        for j in 0..n {
            d.update_node_rank_level(h(name(j)), lv[j], None);
        }
    }
    let before = length(&rows(&d), &e);
    RankOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    if verbose() {
        println!("edges {:?} ranks {:?}", e, r);
    }
    check(once(&r, n), 1);
    for (a, b) in &e {
        check(level(&r, *a) < level(&r, *b), 2);
    }
    edges_kept(&d, n, &e, 3);
    check(length(&r, &e) <= before, 4);
    if length(&r, &e) < before {
        reach(2);
    }
    reach(1);
}
/// Crossings between neighboring ranks. Parallel edges count once.
fn crossings(r: &[Vec<usize>], e: &[(usize, usize)]) -> usize {
    let mut c = 0;
    for i in 0..r.len().saturating_sub(1) {
        let mut at = vec![];
        for (p, a) in r[i].iter().enumerate() {
            for (q, b) in r[i + 1].iter().enumerate() {
                if e.iter().any(|x| *x == (*a, *b)) {
                    at.push((p, q));
                }
            }
        }
        for x in 0..at.len() {
            for y in 0..x {
                let (a, b) = (at[x], at[y]);
                if (a.0 < b.0 && a.1 > b.1) || (a.0 > b.0 && a.1 < b.1) {
                    c += 1;
                }
            }
        }
    }
    c
}
fn cross(sizes: &[usize]) {
    let n: usize = sizes.iter().sum();
    let mut d = DAG::new();
    d.new_nodes(n);
    let mut first = 0;
    let mut want: Vec<Vec<usize>> = vec![];
    for s in sizes {
        want.push((first..first + s).collect());
        first += s;
    }
    let mut e = vec![];
    for i in 0..sizes.len() - 1 {
        for a in &want[i] {
            for b in &want[i + 1] {
                if int(0, 1) == 1 {
                    d.add_edge(h(*a), h(*b));
                    e.push((*a, *b));
                }
            }
        }
    }
    for (l, w) in want.iter().enumerate() {
        for v in w {
            d.update_node_rank_level(h(*v), l, None);
        }
    }
    let before = crossings(&rows(&d), &e);
    EdgeCrossOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    if verbose() {
        println!("edges {:?} ranks {:?} crossings {} -> {}", e, r, before, crossings(&r, &e));
    }
    check(r.len() == want.len(), 5);
    for (a, b) in r.iter().zip(&want) {
        let mut a = a.clone();
        a.sort();
        check(a == *b, 5);
    }
    edges_kept(&d, n, &e, 3);
    check(crossings(&r, &e) <= before, 6);
    if crossings(&r, &e) < before {
        reach(2);
    }
    d.verify();
    reach(1);
}
/// The two passes after each other, as the layout runs them, on any ranked graph; edges over
/// several ranks and parallel edges are left alone by the second one.
fn both(n: usize) {
    let mut d = DAG::new();
    d.new_nodes(n);
    let mut e = vec![];
    for i in 0..n {
        for j in i + 1..n {
            if int(0, 1) == 1 {
                d.add_edge(h(i), h(j));
                e.push((i, j));
            }
        }
    }
    d.recompute_node_ranks();
    RankOptimizer::new(&mut d).optimize();
    let r0 = rows(&d);
    EdgeCrossOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    check(once(&r, n), 1);
    for v in 0..n {
        check(level(&r, v) == level(&r0, v), 5);
    }
    edges_kept(&d, n, &e, 3);
    check(crossings(&r, &e) <= crossings(&r0, &e), 6);
    reach(1);
}
/// Large graphs with any few more edges: chains with nodes beside them, ladders, trees.
fn large(n: usize, extra: usize) {
    let mut d = DAG::new();
    d.new_nodes(n);
    let mut e = vec![];
    match pick(0, 3) {
        0 => (0..n / 2 - 1).for_each(|i| e.push((i, i + 1))),
        1 => (1..n).for_each(|i| e.push(((i - 1) / 2, i))),
        2 => (0..n - 1).for_each(|i| e.push((i / 2, n / 2 + i / 2))),
        _ => (0..n - 2).step_by(2).for_each(|i| {
            e.push((i, i + 2));
            e.push((i, i + 3))
        }),
    }
    e.retain(|x| x.0 < x.1);
    for _ in 0..extra {
        let a = pick(0, n as u64 - 2) as usize;
        let b = pick(a as u64 + 1, n as u64 - 1) as usize;
        e.push((a, b));
    }
    for (a, b) in &e {
        d.add_edge(h(*a), h(*b));
    }
    d.recompute_node_ranks();
    let r0 = rows(&d);
    RankOptimizer::new(&mut d).optimize();
    let r1 = rows(&d);
    check(once(&r1, n), 1);
    for (a, b) in &e {
        check(level(&r1, *a) < level(&r1, *b), 2);
    }
    edges_kept(&d, n, &e, 3);
    check(length(&r1, &e) <= length(&r0, &e), 4);
    EdgeCrossOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    check(once(&r, n), 1);
    for v in 0..n {
        check(level(&r, v) == level(&r1, v), 5);
    }
    edges_kept(&d, n, &e, 3);
    check(crossings(&r, &e) <= crossings(&r1, &e), 6);
    if crossings(&r, &e) < crossings(&r1, &e) {
        reach(2);
    }
    reach(1);
}
/// Two wide ranks with a fixed tangle and any two edges more.
fn wide(n: usize) {
    let mut d = DAG::new();
    d.new_nodes(2 * n);
    let mut e = vec![];
    let how = pick(0, 2) as usize;
    for i in 0..n {
        e.push((i, n + [n - 1 - i, (i * 3 + 1) % n, (i + n / 2) % n][how]));
        e.push((i, n + [(i * 5 + 2) % n, i, n - 1 - i / 2][how]));
    }
    for _ in 0..2 {
        e.push((pick(0, n as u64 - 1) as usize, n + pick(0, n as u64 - 1) as usize));
    }
    e.sort();
    e.dedup();
    for (a, b) in &e {
        d.add_edge(h(*a), h(*b));
    }
    for v in 0..2 * n {
        d.update_node_rank_level(h(v), v / n, None);
    }
    let before = crossings(&rows(&d), &e);
    EdgeCrossOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    for v in 0..2 * n {
        check(level(&r, v) == v / n, 5);
    }
    check(once(&r, 2 * n), 5);
    edges_kept(&d, 2 * n, &e, 3);
    check(crossings(&r, &e) <= before, 6);
    if crossings(&r, &e) < before {
        reach(2);
    }
    d.verify();
    reach(1);
}
macro_rules! e {
    ($n:ident, $b:expr) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $n() {
            $b
        }
    };
}
e!(sink4, sink(4, 2, 0));
e!(sink5, sink(5, 1, 0));
e!(sink6, sink(6, 1, 0));
e!(free4, sink(4, 1, 2));
e!(free5, sink(5, 1, 1));
e!(cross33, cross(&[3, 3]));
e!(cross232, cross(&[2, 3, 2]));
e!(cross323, cross(&[3, 2, 3]));
e!(cross2222, cross(&[2, 2, 2, 2]));
e!(cross44, cross(&[4, 4]));
e!(cross333, cross(&[3, 3, 3]));
e!(both5, both(5));
e!(both6, both(6));
e!(large12, large(12, 2));
e!(large20, large(20, 1));
e!(wide7, wide(7));
e!(wide12, wide(12));
entries!(large12, large20, wide7, wide12, sink4, sink5, sink6, free4, free5, cross33, cross232, cross323, cross2222, cross44, cross333, both5, both6);
