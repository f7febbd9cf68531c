//! Finite families of raw edge lists with a bijection from indices.

use crate::reference::{node_count, E};

pub trait Family: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Fills `out` with the raw edges of graph `i`
    fn get(&self, i: u64, out: &mut Vec<E>);
    /// an upper bound for the number of nodes of all graphs
    fn max_nodes(&self) -> usize;
    /// graphs are queried for all nodes below this one, at most the node count of the graph
    fn edges(&self, i: u64) -> (usize, Vec<E>) {
        let mut v = vec![];
        self.get(i, &mut v);
        (node_count(&v), v)
    }
}

pub type Fam = Box<dyn Family>;

fn ipow(b: u64, e: u32) -> u64 {
    b.checked_pow(e).expect("space too large")
}

/// Every ordered pair of distinct nodes independently has no edge or one of the given weights.
pub struct Digraphs {
    pub n: usize,
    pub ws: Vec<usize>,
}
impl Family for Digraphs {
    fn name(&self) -> String {
        format!("digraphs(n={},w={:?})", self.n, self.ws)
    }
    fn len(&self) -> u64 {
        ipow(self.ws.len() as u64 + 1, (self.n * (self.n - 1)) as u32)
    }
    fn get(&self, mut i: u64, out: &mut Vec<E>) {
        out.clear();
        let b = self.ws.len() as u64 + 1;
        for u in 0..self.n {
            for v in 0..self.n {
                if u != v {
                    let x = i % b;
                    i /= b;
                    if x > 0 {
                        out.push((u, v, self.ws[x as usize - 1]));
                    }
                }
            }
        }
    }
    fn max_nodes(&self) -> usize {
        self.n
    }
}

/// Every unordered pair of nodes is in one of the given states (weight forward, weight backward), 0 = no edge.
pub struct PairStates {
    pub n: usize,
    pub states: Vec<(usize, usize)>,
    pub label: &'static str,
}
impl Family for PairStates {
    fn name(&self) -> String {
        format!("{}(n={},states={:?})", self.label, self.n, self.states)
    }
    fn len(&self) -> u64 {
        ipow(self.states.len() as u64, (self.n * (self.n - 1) / 2) as u32)
    }
    fn get(&self, mut i: u64, out: &mut Vec<E>) {
        out.clear();
        let b = self.states.len() as u64;
        for u in 0..self.n {
            for v in u + 1..self.n {
                let (f, r) = self.states[(i % b) as usize];
                i /= b;
                if f > 0 {
                    out.push((u, v, f));
                }
                if r > 0 {
                    out.push((v, u, r));
                }
            }
        }
    }
    fn max_nodes(&self) -> usize {
        self.n
    }
}

pub fn undirected(n: usize, ws: &[usize]) -> Fam {
    let mut states = vec![(0, 0)];
    states.extend(ws.iter().map(|w| (*w, *w)));
    Box::new(PairStates { n, states, label: "undirected" })
}

/// All 2^(n(n-1)) edge sets, weights taken from a fixed table.
pub struct Table {
    pub n: usize,
    pub table: usize,
}
pub fn table_weight(table: usize, u: usize, v: usize) -> usize {
    match table {
        // all ties
        0 => 1,
        // all weights distinct
        1 => [
            [0, 3, 17, 8, 29, 41],
            [12, 0, 5, 23, 9, 14],
            [7, 19, 0, 2, 31, 11],
            [26, 4, 13, 0, 6, 37],
            [10, 15, 21, 18, 0, 1],
            [16, 20, 22, 24, 25, 0],
        ][u][v],
        // metric: direct edges tie with detours
        2 => u.abs_diff(v),
        // few values, asymmetric
        3 => 1 + (u * 2 + v * 3 + u * v) % 4,
        _ => panic!("src/ no such table"),
    }
}
impl Family for Table {
    fn name(&self) -> String {
        format!("edge-sets(n={},table={})", self.n, self.table)
    }
    fn len(&self) -> u64 {
        ipow(2, (self.n * (self.n - 1)) as u32)
    }
    fn get(&self, mut i: u64, out: &mut Vec<E>) {
        out.clear();
        for u in 0..self.n {
            for v in 0..self.n {
                if u != v {
                    if i & 1 == 1 {
                        out.push((u, v, table_weight(self.table, u, v)));
                    }
                    i >>= 1;
                }
            }
        }
    }
    fn max_nodes(&self) -> usize {
        self.n
    }
}

/// All raw edge lists of exactly `k` entries over ids x ids x weights (loops, zero weights, duplicates included)
pub struct Raw {
    pub ids: Vec<usize>,
    pub ws: Vec<usize>,
    pub k: usize,
}
impl Raw {
    fn base(&self) -> u64 {
        (self.ids.len() * self.ids.len() * self.ws.len()) as u64
    }
}
impl Family for Raw {
    fn name(&self) -> String {
        format!("raw-lists(ids={:?},w={:?},k={})", self.ids, self.ws, self.k)
    }
    fn len(&self) -> u64 {
        ipow(self.base(), self.k as u32)
    }
    fn get(&self, mut i: u64, out: &mut Vec<E>) {
        out.clear();
        let b = self.base();
        let m = self.ids.len();
        for _ in 0..self.k {
            let x = (i % b) as usize;
            i /= b;
            out.push((self.ids[x % m], self.ids[x / m % m], self.ws[x / (m * m)]));
        }
    }
    fn max_nodes(&self) -> usize {
        self.ids.iter().max().unwrap() + 1
    }
}

/// The graphs of another family with their node ids mapped to sparse ids
pub struct Mapped {
    pub inner: Fam,
    pub map: Vec<usize>,
}
impl Family for Mapped {
    fn name(&self) -> String {
        format!("{}->ids{:?}", self.inner.name(), self.map)
    }
    fn len(&self) -> u64 {
        self.inner.len()
    }
    fn get(&self, i: u64, out: &mut Vec<E>) {
        self.inner.get(i, out);
        for e in out.iter_mut() {
            e.0 = self.map[e.0];
            e.1 = self.map[e.1];
        }
    }
    fn max_nodes(&self) -> usize {
        self.map.iter().max().unwrap() + 1
    }
}

/// Hand-picked topologies
pub struct Fixed {
    pub label: String,
    pub list: Vec<Vec<E>>,
}
impl Family for Fixed {
    fn name(&self) -> String {
        format!("fixed({},{})", self.label, self.list.len())
    }
    fn len(&self) -> u64 {
        self.list.len() as u64
    }
    fn get(&self, i: u64, out: &mut Vec<E>) {
        out.clear();
        out.extend_from_slice(&self.list[i as usize]);
    }
    fn max_nodes(&self) -> usize {
        self.list.iter().map(|l| node_count(l)).max().unwrap_or(0)
    }
}

pub fn bidir(l: &[E]) -> Vec<E> {
    l.iter().flat_map(|e| vec![*e, (e.1, e.0, e.2)]).collect()
}

pub fn chain(n: usize, w: impl Fn(usize) -> usize) -> Vec<E> {
    (0..n - 1).map(|i| (i, i + 1, w(i))).collect()
}
pub fn ring(n: usize, w: impl Fn(usize) -> usize) -> Vec<E> {
    (0..n).map(|i| (i, (i + 1) % n, w(i))).collect()
}
pub fn star(n: usize, w: impl Fn(usize) -> usize) -> Vec<E> {
    (1..n).map(|i| (0, i, w(i))).collect()
}
pub fn grid(r: usize, c: usize, w: impl Fn(usize, usize) -> usize) -> Vec<E> {
    let mut v = vec![];
    for y in 0..r {
        for x in 0..c {
            let a = y * c + x;
            if x + 1 < c {
                v.push((a, a + 1, w(a, a + 1)));
            }
            if y + 1 < r {
                v.push((a, a + c, w(a, a + c)));
            }
        }
    }
    v
}

/// Topologies whose hierarchies nest shortcuts: every order of each is enumerated
pub fn topologies(n: usize) -> Vec<Vec<E>> {
    let d = |i: usize| 1 + (i * 5 + 3) % 7;
    let mut v = vec![
        chain(n, d),
        bidir(&chain(n, |_| 1)),
        bidir(&chain(n, d)),
        ring(n, d),
        bidir(&ring(n, |_| 1)),
        bidir(&ring(n, d)),
        bidir(&star(n, d)),
    ];
    // chain with asymmetric weights
    let mut c = chain(n, d);
    c.extend(chain(n, |i| 2 + i % 3).iter().map(|e| (e.1, e.0, e.2)));
    v.push(c);
    // chain plus skip edges that tie with or beat the two-hop way
    let mut c = bidir(&chain(n, |_| 2));
    for i in 0..n - 2 {
        c.extend(bidir(&[(i, i + 2, 3 + i % 3)]));
    }
    v.push(c);
    // one-way ladder with a long way back
    let mut c = chain(n, d);
    for i in 0..n - 2 {
        c.push((i + 2, i, 1 + i % 2));
    }
    v.push(c);
    // two triangles joined by a bridge, and a wheel
    let mut c = bidir(&ring(n - 1, |i| 1 + i % 3));
    for i in 0..n - 1 {
        c.extend(bidir(&[(i, n - 1, 2)]));
    }
    v.push(c);
    if n % 2 == 0 {
        v.push(bidir(&grid(2, n / 2, |a, b| 1 + (a + 2 * b) % 3)));
        v.push(grid(2, n / 2, |a, b| 1 + (a * b) % 4));
    }
    if n == 9 {
        v.push(bidir(&grid(3, 3, |_, _| 1)));
        v.push(bidir(&grid(3, 3, |a, b| 1 + (a + 2 * b) % 4)));
    }
    v
}

pub fn digraphs(n: usize, ws: &[usize]) -> Fam {
    Box::new(Digraphs { n, ws: ws.to_vec() })
}
pub fn table(n: usize, t: usize) -> Fam {
    Box::new(Table { n, table: t })
}
pub fn raw(ids: &[usize], ws: &[usize], k: usize) -> Fam {
    Box::new(Raw { ids: ids.to_vec(), ws: ws.to_vec(), k })
}
pub fn mapped(inner: Fam, map: &[usize]) -> Fam {
    Box::new(Mapped { inner, map: map.to_vec() })
}
pub fn fixed(label: &str, list: Vec<Vec<E>>) -> Fam {
    Box::new(Fixed { label: label.to_string(), list })
}
