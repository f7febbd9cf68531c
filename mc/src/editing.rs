//! C09: every sequence of editing operations on an input graph.

use crate::engine::*;
use crate::reference::*;
use fast_paths::*;

use std::collections::{BTreeMap, HashSet};

/// half of the word size: 32, except when compiled for WebAssembly (see w32/)
const HALF: usize = usize::BITS as usize / 2;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Add(usize, usize, usize),
    Bidir(usize, usize, usize),
    Freeze,
    Thaw,
    Read,
    Clone,
    Serde,
}

/// The documented behaviour
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Model {
    edges: BTreeMap<(usize, usize), usize>,
    frozen: bool,
}

impl Model {
    fn add(&mut self, u: usize, v: usize, w: usize) {
        let x = self.edges.entry((u, v)).or_insert(w);
        *x = (*x).min(w);
    }
    fn nodes(&self) -> usize {
        self.edges.keys().map(|(a, b)| a.max(b) + 1).max().unwrap_or(0)
    }
}

fn apply(g: &mut InputGraph, m: &mut Model, op: &Op) -> CaseResult {
    match op {
        Op::Add(u, v, w) | Op::Bidir(u, v, w) => {
            let two = matches!(op, Op::Bidir(..));
            let r = attempt(|| if two { g.add_edge_bidir(*u, *v, *w) } else { g.add_edge(*u, *v, *w) });
            if m.frozen {
                if let Ok(k) = r {
                    return Err(format!("{:?} on a frozen graph returned {}", op, k));
                }
                return Ok(());
            }
            let want = if u == v || *w == 0 {
                0
            } else if two {
                2
            } else {
                1
            };
            if want > 0 {
                m.add(*u, *v, *w);
                if two {
                    m.add(*v, *u, *w);
                }
            }
            match r {
                Ok(k) if k == want => Ok(()),
                x => Err(format!("{:?} gives {:?}, expected {}", op, x, want)),
            }
        }
        Op::Freeze => {
            let r = attempt(|| g.freeze());
            if r.is_ok() == m.frozen {
                return Err(format!("freeze with frozen={} gives {:?}", m.frozen, r));
            }
            m.frozen = true;
            Ok(())
        }
        Op::Thaw => {
            g.thaw();
            m.frozen = false;
            Ok(())
        }
        Op::Read => check(g, m),
        Op::Clone => {
            let c = g.clone();
            *g = c;
            Ok(())
        }
        Op::Serde => {
            let b = bincode::serialize(g).map_err(|e| e.to_string())?;
            *g = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            Ok(())
        }
    }
}

fn check(g: &InputGraph, m: &Model) -> CaseResult {
    if !m.frozen {
        let r = [
            attempt(|| g.get_edges().len()).is_ok(),
            attempt(|| g.get_num_edges()).is_ok(),
            attempt(|| g.get_num_nodes()).is_ok(),
        ];
        if r.iter().any(|x| *x) {
            return Err(format!(
                "reading (edges, number of edges, number of nodes) before freezing was answered: {:?}",
                r
            ));
        }
        return Ok(());
    }
    let got: Vec<E> = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
    let want: Vec<E> = m.edges.iter().map(|(k, w)| (k.0, k.1, *w)).collect();
    if got != want {
        return Err(format!("edges are {:?}, expected {:?}", got, want));
    }
    if g.get_num_edges() != want.len() {
        return Err(format!("{} edges reported, expected {}", g.get_num_edges(), want.len()));
    }
    if g.get_num_nodes() != m.nodes() {
        return Err(format!("{} nodes reported, expected {}", g.get_num_nodes(), m.nodes()));
    }
    Ok(())
}

/// All operation sequences of a length, the state is checked at the end (shorter ones are prefixes of their own space).
pub struct EditSeq {
    pub label: &'static str,
    pub ops: Vec<Op>,
    pub depth: u32,
}

impl EditSeq {
    fn decode(&self, mut i: u64) -> Vec<&Op> {
        let b = self.ops.len() as u64;
        (0..self.depth)
            .map(|_| {
                let x = &self.ops[(i % b) as usize];
                i /= b;
                x
            })
            .collect()
    }
}

impl Space for EditSeq {
    fn name(&self) -> String {
        format!("edit-sequences({},{} operations,depth={})", self.label, self.ops.len(), self.depth)
    }
    fn len(&self) -> u64 {
        (self.ops.len() as u64).pow(self.depth)
    }
    fn chunk(&self) -> u64 {
        256
    }
    fn bounds(&self) -> String {
        format!("all sequences of {} operations out of {:?}", self.depth, self.ops)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let mut g = InputGraph::new();
        let mut m = Model::default();
        for (k, op) in self.decode(i).into_iter().enumerate() {
            apply(&mut g, &mut m, op).map_err(|e| format!("operation {}: {}", k, e))?;
        }
        check(&g, &m)?;
        let frozen = m.frozen;
        if !frozen {
            g.freeze();
            m.frozen = true;
            check(&g, &m)?;
        }
        ctx.calls += self.depth as u64 + 4;
        ctx.states += 1;
        ctx.traces += 1;
        if !m.edges.is_empty() && frozen {
            ctx.nontrivial += 1;
        }
        let mut h = frozen as u64;
        for (k, w) in &m.edges {
            h = mix(mix(mix(h, k.0 as u64), k.1 as u64), *w as u64);
        }
        ctx.outcome(h);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("InputGraph::new(), then {:?}", self.decode(i))
    }
}

/// Breadth-first search over the real states; the state is the serialized graph together with the model state.
/// The serialization holds every field that influences the behaviour, so merged states have the same futures.
pub struct EditBfs {
    pub ops: Vec<Op>,
    pub depth: usize,
}

impl Space for EditBfs {
    fn name(&self) -> String {
        format!("edit-states({} operations,depth={})", self.ops.len(), self.depth)
    }
    fn len(&self) -> u64 {
        (self.ops.len() * self.ops.len()) as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        600
    }
    fn bounds(&self) -> String {
        format!(
            "breadth-first search with state hashing from each of the first two operations to depth {} over {:?}",
            self.depth, self.ops
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let k = self.ops.len() as u64;
        let first = [&self.ops[(i / k) as usize], &self.ops[(i % k) as usize]];
        let mut g = InputGraph::new();
        let mut m = Model::default();
        for op in first {
            apply(&mut g, &mut m, op)?;
        }
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut level: Vec<(InputGraph, Model, Vec<u8>)> = vec![(g, m, vec![])];
        for d in 2..self.depth {
            let mut next = vec![];
            for (g, m, path) in &level {
                for (x, op) in self.ops.iter().enumerate() {
                    let mut g2 = g.clone();
                    let mut m2 = m.clone();
                    let wrap = |e: String| {
                        format!(
                            "{:?} {:?} then {:?}: {}",
                            first,
                            path.iter().map(|p| &self.ops[*p as usize]).collect::<Vec<_>>(),
                            op,
                            e
                        )
                    };
                    apply(&mut g2, &mut m2, op).map_err(wrap)?;
                    ctx.calls += 1;
                    let mut key = bincode::serialize(&g2).map_err(|e| e.to_string())?;
                    key.push(m2.frozen as u8);
                    for (k, w) in &m2.edges {
                        key.extend([k.0 as u8, k.1 as u8, *w as u8]);
                    }
                    if seen.insert(key) {
                        check(&g2, &m2).map_err(wrap)?;
                        if !m2.frozen {
                            let mut g3 = g2.clone();
                            let mut m3 = m2.clone();
                            apply(&mut g3, &mut m3, &Op::Freeze).map_err(wrap)?;
                            check(&g3, &m3).map_err(wrap)?;
                        }
                        ctx.states += 1;
                        if d + 1 < self.depth {
                            let mut p = path.clone();
                            p.push(x as u8);
                            next.push((g2, m2, p));
                        }
                    }
                    ctx.traces += 1;
                    ctx.nontrivial += !m.edges.is_empty() as u64;
                }
            }
            level = next;
        }
        ctx.outcome(i);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let k = self.ops.len() as u64;
        format!(
            "InputGraph::new(), then {:?}, {:?}, then every sequence of further operations",
            self.ops[(i / k) as usize],
            self.ops[(i % k) as usize]
        )
    }
}

/// Many edges at once (sorting and removing duplicates of long lists): all (length, stride, pattern) combinations
pub struct EditMany {
    pub lens: Vec<usize>,
}

const STRIDES: u64 = 12;
const PATTERNS: u64 = 10;

impl EditMany {
    fn decode(&self, i: u64) -> (usize, usize, u64) {
        let p = i % PATTERNS;
        let i = i / PATTERNS;
        (self.lens[(i / STRIDES) as usize], (i % STRIDES) as usize, p)
    }
}

impl Space for EditMany {
    fn name(&self) -> String {
        format!("edit-many({} lengths)", self.lens.len())
    }
    fn len(&self) -> u64 {
        self.lens.len() as u64 * STRIDES * PATTERNS
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn bounds(&self) -> String {
        format!("lists of {:?} edges in {} arithmetic patterns with many duplicates, weights of several magnitudes, frozen and thawed three times", self.lens, STRIDES * PATTERNS)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (len, stride, p) = self.decode(i);
        let mut g = InputGraph::new();
        let mut m = Model::default();
        for round in 0..3 {
            for k in 0..len {
                let x = k * (2 * stride + 1) + round * 13;
                let (mut u, mut v, mut w) = (x % 11, (x / 7) % 11, 1 + (x * 5 + round) % 9);
                match p {
                    // weights that differ in the upper half only, or exceed it
                    1 => {
                        w = [5, (1 << HALF) + 5, (1 << HALF) + 4, 1 << (HALF + 1), usize::MAX, 1 << (2 * HALF - 1), (1 << 16) + 1, 6]
                            [(x / 3) % 8]
                    }
                    // large ids that agree in their lower parts
                    2 => {
                        u = [0, 1, 255, 256, 65535, 65536, 1 << HALF, (1 << HALF) + 1][x % 8];
                        v = [1, 0, 257, 511, 65537, 1 << (HALF - 1), (1 << HALF) + 256, 1 << (HALF * 5 / 4)][(x / 8) % 8];
                    }
                    // hardly any duplicates
                    3 => {
                        u = x % 311;
                        v = (x / 3) % 307;
                    }
                    // falling weights for the same few edges
                    4 => {
                        u = x % 3;
                        v = (x / 3) % 4;
                        w = 3 * len + 100 - k - round;
                    }
                    // in order of the node ids (5, 6), in reverse order (7), all but the last in order (8), in
                    // order in each half (9); duplicates fall (5, 8) or rise (6, 9) or alternate (7)
                    5..=9 => {
                        let dup = 1 + stride % 4;
                        let q = match p {
                            7 => len / dup - k / dup,
                            8 if k + 1 == len => 0,
                            9 if k >= len / 2 => (k - len / 2) / dup,
                            _ => k / dup,
                        };
                        u = q / (5 + stride);
                        v = u + 1 + q % (5 + stride);
                        w = match p {
                            5 | 8 => 1 + dup - k % dup + (q + round) % 3,
                            7 => 1 + (k ^ round) % 3,
                            _ => 1 + k % dup + (q + round) % 3,
                        };
                    }
                    _ => {}
                }
                let op = if k % 5 == 4 && p < 5 { Op::Bidir(u, v, w) } else { Op::Add(u, v, w) };
                apply(&mut g, &mut m, &op)?;
            }
            apply(&mut g, &mut m, &Op::Freeze)?;
            check(&g, &m)?;
            apply(&mut g, &mut m, &Op::Thaw)?;
        }
        ctx.calls += 3 * len as u64 + 4;
        ctx.states += 3;
        ctx.traces += 1;
        ctx.nontrivial += (len > 30) as u64;
        ctx.outcome(i);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (len, stride, p) = self.decode(i);
        format!("{} edges, stride {}, pattern {} (see EditMany::run)", len, stride, p)
    }
}

/// operations with weights and node ids of other magnitudes
pub fn wide_ops() -> Vec<Op> {
    vec![
        Op::Add(0, 1, 5),
        Op::Add(0, 1, 1 << HALF),
        Op::Add(0, 1, (1 << HALF) + 3),
        Op::Add(0, 1, 1 << (2 * HALF - 1)),
        Op::Bidir(0, 1, (1 << 16) + 4),
        Op::Add(1 << HALF, 0, 1),
        Op::Add(1, 1 << HALF, 7),
        Op::Add(65536, 255, 256),
        Op::Add(1 << (HALF * 5 / 4), 1 << (HALF * 5 / 4), 1),
        Op::Freeze,
        Op::Thaw,
        Op::Serde,
    ]
}

pub fn small_ops() -> Vec<Op> {
    vec![
        Op::Add(0, 1, 3),
        Op::Add(0, 1, 1),
        Op::Add(1, 0, 2),
        Op::Add(1, 1, 2),
        Op::Add(7, 7, 2),
        Op::Add(2, 9, 0),
        Op::Add(2, 0, usize::MAX),
        Op::Bidir(0, 1, 2),
        Op::Bidir(5, 2, 4),
        Op::Bidir(3, 3, 1),
        Op::Bidir(8, 1, 0),
        Op::Freeze,
        Op::Thaw,
        Op::Read,
        Op::Clone,
        Op::Serde,
    ]
}

pub fn bfs_ops() -> Vec<Op> {
    vec![
        Op::Add(0, 1, 2),
        Op::Add(0, 1, 1),
        Op::Add(3, 0, 1),
        Op::Bidir(1, 2, 3),
        Op::Bidir(1, 0, 1),
        Op::Add(4, 4, 1),
        Op::Freeze,
        Op::Thaw,
    ]
}

pub fn all_spaces(depth: u32, bfs: usize) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = vec![];
    for d in 0..=depth {
        v.push(Box::new(EditSeq { label: "all", ops: small_ops(), depth: d }));
    }
    v.push(Box::new(EditBfs { ops: bfs_ops(), depth: bfs }));
    v.push(Box::new(EditSeq { label: "magnitudes", ops: wide_ops(), depth }));
    let mut lens: Vec<usize> = (0..40).collect();
    lens.extend((2..22).map(|x| x * 28));
    lens.extend([1000, 1024, 2000, 5000]);
    if depth > 5 {
        lens.extend([40_000, 70_000, 140_000]);
        lens.extend(40..400);
    }
    v.push(Box::new(EditMany { lens }));
    v
}
