//! C10: the ranked graph structure against a plain model, over histories.
use layout::adt::dag::{NodeHandle, DAG};
use sym::*;

/// The model: a multiset of edges, and the rows.
struct Model {
    n: usize,
    edges: Vec<(usize, usize)>,
    rows: Vec<Vec<usize>>,
}
impl Model {
    fn new() -> Model {
        Model { n: 0, edges: vec![], rows: vec![] }
    }
    fn path(&self, a: usize, b: usize) -> bool {
        let mut seen = vec![false; self.n];
        seen[a] = true;
        for _ in 0..self.n {
            for (x, y) in &self.edges {
                if seen[*x] {
                    seen[*y] = true;
                }
            }
        }
        seen[b]
    }
    /// The nodes that every node leads to (at most 64).
    fn closure(&self) -> Vec<u64> {
        let mut to: Vec<u64> = (0..self.n).map(|i| 1 << i).collect();
        loop {
            let mut more = false;
            for (x, y) in self.edges.iter().rev() {
                let v = to[*x] | to[*y];
                more |= v != to[*x];
                to[*x] = v;
            }
            if !more {
                return to;
            }
        }
    }
    /// An edge that keeps the graph acyclic.
    fn legal(&self, a: usize, b: usize) -> bool {
        a != b && !self.path(b, a)
    }
    fn longest(&self, v: usize) -> usize {
        let mut l = vec![0; self.n];
        for _ in 0..self.n {
            for (x, y) in &self.edges {
                l[*y] = l[*y].max(l[*x] + 1);
            }
        }
        l[v]
    }
    fn put(&mut self, v: usize, level: usize) {
        while self.rows.len() <= level {
            self.rows.push(vec![]);
        }
        self.rows[level].push(v);
    }
}
fn h(i: usize) -> NodeHandle {
    NodeHandle::new(i)
}
fn compare(d: &DAG, m: &Model) {
    check(d.len() == m.n, 1);
    check(d.is_empty() == (m.n == 0), 1);
    check(d.iter().map(|x| x.get_index()).eq(0..m.n), 1);
    let to = m.closure();
    // the number of edges between any two nodes
    let mut number = vec![0u8; m.n * m.n];
    m.edges.iter().for_each(|e| number[e.0 * m.n + e.1] += 1);
    for a in 0..m.n {
        let (s, p) = (d.successors(h(a)), d.predecessors(h(a)));
        let (mut cs, mut cp) = (vec![0u8; m.n], vec![0u8; m.n]);
        s.iter().for_each(|x| cs[x.get_index()] += 1);
        p.iter().for_each(|x| cp[x.get_index()] += 1);
        for b in 0..m.n {
            check(cs[b] == number[a * m.n + b], 2);
            check(cp[b] == number[b * m.n + a], 2);
            check(d.is_reachable(h(a), h(b)) == (to[a] >> b & 1 == 1), 3);
        }
        check(s.len() == m.edges.iter().filter(|e| e.0 == a).count(), 2);
        check(p.len() == m.edges.iter().filter(|e| e.1 == a).count(), 2);
        let one = if s.len() == 1 { Some(s[0]) } else { None };
        check(d.single_succ(h(a)) == one, 4);
        let one = if p.len() == 1 { Some(p[0]) } else { None };
        check(d.single_pred(h(a)) == one, 4);
    }
    // the rows: trailing empty ones do not matter
    let used = |l: usize| l < m.rows.len() && !m.rows[l].is_empty();
    let top = d.num_levels().max(m.rows.len());
    for l in 0..top {
        if l >= d.num_levels() {
            check(!used(l), 5);
            continue;
        }
        let row = d.row(l);
        let want: &[usize] = if l < m.rows.len() { &m.rows[l] } else { &[] };
        check(row.len() == want.len(), 5);
        for i in 0..want.len() {
            check(row[i].get_index() == want[i], 5);
            check(d.level(h(want[i])) == l, 6);
            check(d.is_first_in_row(h(want[i]), l) == (i == 0), 7);
            check(d.is_last_in_row(h(want[i]), l) == (i + 1 == want.len()), 7);
        }
        let mut here = vec![false; m.n];
        want.iter().for_each(|v| here[*v] = true);
        for v in 0..m.n {
            if !here[v] {
                check(!d.is_first_in_row(h(v), l) && !d.is_last_in_row(h(v), l), 7);
            }
        }
        check(d.ranks()[l].len() == row.len(), 5);
    }
    for v in 0..m.n {
        check(!d.is_first_in_row(h(v), top + 1) && !d.is_last_in_row(h(v), top + 1), 7);
    }
}
fn step(d: &mut DAG, m: &mut Model, op: u64, levels: u64) {
    let node = |m: &Model| pick(0, m.n as u64 - 1) as usize;
    if m.n == 0 && op > 0 && op != 6 {
        stop();
    }
    match op {
        0 => {
            let x = d.new_node();
            check(x.get_index() == m.n, 1);
            m.put(m.n, 0);
            m.n += 1;
        }
        1 => {
            let (a, b) = (node(m), node(m));
            if !m.legal(a, b) {
                stop();
            }
            d.add_edge(h(a), h(b));
            m.edges.push((a, b));
            d.verify();
        }
        2 => {
            let (a, b) = (node(m), node(m));
            let was = m.edges.iter().position(|e| *e == (a, b));
            check(d.remove_edge(h(a), h(b)) == was.is_some(), 8);
            if let Some(i) = was {
                m.edges.remove(i);
            }
            reach(1);
        }
        3 => {
            let (a, l) = (node(m), pick(0, levels) as usize);
            d.update_node_rank_level(h(a), l, None);
            for r in m.rows.iter_mut() {
                r.retain(|x| *x != a);
            }
            m.put(a, l);
        }
        4 => {
            // before another node, in its row
            let (a, b) = (node(m), node(m));
            if a == b {
                stop();
            }
            let l = m.rows.iter().position(|r| r.contains(&b)).unwrap();
            d.update_node_rank_level(h(a), l, Some(h(b)));
            for r in m.rows.iter_mut() {
                r.retain(|x| *x != a);
            }
            let i = m.rows[l].iter().position(|x| *x == b).unwrap();
            m.rows[l].insert(i, a);
            reach(2);
        }
        5 => {
            d.recompute_node_ranks();
            let lev: Vec<usize> = (0..m.n).map(|v| m.longest(v)).collect();
            for v in 0..m.n {
                check(d.level(h(v)) == lev[v], 9);
            }
            // the order inside the rows is not specified
            check(d.ranks().iter().map(|r| r.len()).sum::<usize>() == m.n, 9);
            m.rows = d.ranks().iter().map(|r| r.iter().map(|x| x.get_index()).collect()).collect();
            reach(3);
        }
        6 => {
            d.clear();
            *m = Model::new();
        }
        _ => {
            let k = pick(0, 2) as usize;
            d.new_nodes(k);
            for _ in 0..k {
                m.put(m.n, 0);
                m.n += 1;
            }
        }
    }
    d.verify();
    compare(d, m);
}
fn hist(n: usize, k: usize, ops: &[u64], levels: u64) {
    let mut d = DAG::new();
    let mut m = Model::new();
    for _ in 0..n {
        d.new_node();
        m.put(m.n, 0);
        m.n += 1;
    }
    for _ in 0..k {
        let op = ops[pick(0, ops.len() as u64 - 1) as usize];
        step(&mut d, &mut m, op, levels);
    }
}
/// Any acyclic graph over a symbolic set of edges.
fn graph(n: usize, multi: u64) {
    let mut d = DAG::new();
    let mut m = Model::new();
    d.new_nodes(n);
    m.n = n;
    m.rows.push((0..n).collect());
    // the numbers of the nodes do not follow the direction of the edges
    let perm: Vec<usize> = if flag() { (0..n).rev().collect() } else { (0..n).map(|i| (i * 2 + i / ((n + 1) / 2)) % n).collect() };
    let mut all = perm.clone();
    all.sort();
    all.dedup();
    let perm = if all.len() == n { perm } else { (0..n).collect() };
    for i in 0..n {
        for j in i + 1..n {
            for _ in 0..int(0, multi) {
                d.add_edge(h(perm[i]), h(perm[j]));
                m.edges.push((perm[i], perm[j]));
            }
        }
    }
    compare(&d, &m);
    step(&mut d, &mut m, 5, 0);
    d.verify();
    reach(4);
}
/// Any operations on a large structure: a chain, a wide row, parallel edges, or a ladder.
fn large(n: usize, k: usize) {
    let mut d = DAG::new();
    let mut m = Model::new();
    d.new_nodes(n);
    m.n = n;
    m.rows.push((0..n).collect());
    let mut add = |d: &mut DAG, m: &mut Model, a: usize, b: usize| {
        d.add_edge(h(a), h(b));
        m.edges.push((a, b));
    };
    match pick(0, 3) {
        0 => (0..n - 1).for_each(|i| add(&mut d, &mut m, i, i + 1)),
        1 => (1..n).for_each(|i| add(&mut d, &mut m, 0, i)),
        2 => (0..n).for_each(|i| add(&mut d, &mut m, i % 2, 2 + i % 3)),
        _ => (0..n - 2).for_each(|i| {
            add(&mut d, &mut m, i, i + 1);
            add(&mut d, &mut m, i, i + 2)
        }),
    }
    if flag() {
        step(&mut d, &mut m, 5, 0);
    }
    let some = [0, n / 2, n - 1, 1, 2];
    let top = if k == 1 { 4 } else { 2 };
    for _ in 0..k {
        let (a, b) = (some[pick(0, top) as usize], some[pick(0, top) as usize]);
        match pick(0, 3) {
            0 => {
                if !m.legal(a, b) {
                    stop();
                }
                d.add_edge(h(a), h(b));
                m.edges.push((a, b));
            }
            1 => {
                let was = m.edges.iter().position(|e| *e == (a, b));
                check(d.remove_edge(h(a), h(b)) == was.is_some(), 8);
                if let Some(i) = was {
                    m.edges.remove(i);
                }
            }
            2 => {
                if a == b {
                    stop();
                }
                let l = m.rows.iter().position(|r| r.contains(&b)).unwrap();
                d.update_node_rank_level(h(a), l, Some(h(b)));
                m.rows.iter_mut().for_each(|r| r.retain(|x| *x != a));
                let i = m.rows[l].iter().position(|x| *x == b).unwrap();
                m.rows[l].insert(i, a);
            }
            _ => {
                let l = [0, 1, 7, n + 3][pick(0, 3) as usize];
                d.update_node_rank_level(h(a), l, None);
                m.rows.iter_mut().for_each(|r| r.retain(|x| *x != a));
                m.put(a, l);
            }
        }
        compare(&d, &m);
    }
    d.verify();
    if flag() {
        step(&mut d, &mut m, 5, 0);
    }
    reach(4);
}
macro_rules! e {
    ($n:ident, $b:expr) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $n() {
            $b
        }
    };
}
e!(all3, hist(1, 3, &[0, 1, 2, 3, 4, 5, 6, 7], 3));
e!(edges4, hist(3, 4, &[1, 2], 0));
e!(ranks4, hist(3, 4, &[3, 4], 2));
e!(mixed4, hist(2, 4, &[0, 1, 2, 3, 5], 2));
e!(edges5, hist(3, 5, &[1, 2, 5], 0));
e!(mixed5, hist(2, 5, &[0, 1, 2, 3, 4, 5], 2));
e!(ranks5, hist(3, 5, &[3, 4, 5, 1], 2));
e!(graph4, graph(4, 2));
e!(graph5, graph(5, 1));
e!(graph6, graph(6, 1));
e!(large12, large(12, 2));
e!(large30, large(30, 1));
entries!(large12, large30, all3, edges4, ranks4, mixed4, edges5, mixed5, ranks5, graph4, graph5, graph6);
