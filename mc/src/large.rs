//! Graphs beyond the exhaustively enumerated sizes: regular shapes of every size in a range and around powers of two,
//! with regular weights, under a fixed set of orders. Every (shape, size, weights) of the stated product is executed.

use crate::deep::Big;
use crate::engine::*;
use crate::persist::{bytes, observe, prepare_with_seed, same};
use crate::queries::{Oracle, ParamSet, NO_PARAMS};
use crate::reference::*;
use crate::reuse::{answer, Q};
use fast_paths::*;

const M: usize = usize::MAX;
/// word size (32 when compiled for WebAssembly, see w32/)
const BITS: usize = usize::BITS as usize;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sh {
    Chain,
    BiChain,
    Ring,
    BiRing,
    StarOut,
    StarIn,
    BiStar,
    DoubleStar,
    Complete,
    Tournament,
    Bipartite,
    Grid,
    OneWayGrid,
    Ladder,
    Tree,
    Caterpillar,
    Circulant,
    BiCirculant,
    Layers,
    Wheel,
    Lollipop,
    Parallel,
    Cliques,
    Islands,
    /// two clusters, joined by the last node only
    Dumbbell,
    /// a long line whose ends are also joined over the last node
    Arch,
}

pub const SHAPES: [Sh; 26] = [
    Sh::Chain,
    Sh::BiChain,
    Sh::Ring,
    Sh::BiRing,
    Sh::StarOut,
    Sh::StarIn,
    Sh::BiStar,
    Sh::DoubleStar,
    Sh::Complete,
    Sh::Tournament,
    Sh::Bipartite,
    Sh::Grid,
    Sh::OneWayGrid,
    Sh::Ladder,
    Sh::Tree,
    Sh::Caterpillar,
    Sh::Circulant,
    Sh::BiCirculant,
    Sh::Layers,
    Sh::Wheel,
    Sh::Lollipop,
    Sh::Parallel,
    Sh::Cliques,
    Sh::Islands,
    Sh::Dumbbell,
    Sh::Arch,
];

impl Sh {
    /// quadratically many edges
    fn dense(self) -> bool {
        matches!(self, Sh::Complete | Sh::Tournament | Sh::Bipartite)
    }
    /// a hub whose early contraction needs quadratically many shortcuts
    fn hub(self) -> bool {
        matches!(self, Sh::BiStar | Sh::DoubleStar | Sh::Wheel | Sh::Lollipop | Sh::Parallel | Sh::Layers)
    }
    fn pairs(self, n: usize) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = vec![];
        let both = |l: Vec<(usize, usize)>| -> Vec<(usize, usize)> {
            l.into_iter().flat_map(|(a, b)| [(a, b), (b, a)]).collect()
        };
        let line = |n: usize| -> Vec<(usize, usize)> { (1..n).map(|i| (i - 1, i)).collect() };
        let side = ((n as f64).sqrt() as usize).max(2);
        match self {
            Sh::Chain => v = line(n),
            Sh::BiChain => v = both(line(n)),
            Sh::Ring => v.extend((0..n).map(|i| (i, (i + 1) % n))),
            Sh::BiRing => v = both((0..n).map(|i| (i, (i + 1) % n)).collect()),
            Sh::StarOut => v.extend((1..n).map(|i| (0, i))),
            Sh::StarIn => v.extend((0..n - 1).map(|i| (i, n - 1))),
            Sh::BiStar => v = both((1..n).map(|i| (0, i)).collect()),
            Sh::DoubleStar => {
                v = both((2..n).map(|i| (i % 2, i)).collect());
                v.extend(both(vec![(0, 1)]));
            }
            Sh::Complete => {
                for a in 0..n {
                    v.extend((0..n).filter(|b| *b != a).map(|b| (a, b)));
                }
            }
            Sh::Tournament => {
                for a in 0..n {
                    v.extend((a + 1..n).map(|b| (a, b)));
                }
            }
            Sh::Bipartite => {
                for a in 0..n / 2 {
                    v.extend((n / 2..n).map(|b| (a, b)));
                }
                v.push((n - 1, 0));
            }
            Sh::Grid | Sh::OneWayGrid => {
                for i in 0..n {
                    if (i + 1) % side != 0 && i + 1 < n {
                        v.push((i, i + 1));
                    }
                    if i + side < n {
                        v.push((i, i + side));
                    }
                }
                if self == Sh::Grid {
                    v = both(v);
                }
            }
            Sh::Ladder => {
                for i in 0..n {
                    if i + 2 < n {
                        v.push((i, i + 2));
                    }
                    if i % 2 == 0 && i + 1 < n {
                        v.push((i, i + 1));
                    }
                }
                v = both(v);
            }
            Sh::Tree => v = both((1..n).map(|i| ((i - 1) / 2, i)).collect()),
            Sh::Caterpillar => {
                let h = n / 2;
                v = line(h);
                v.extend((h..n).map(|i| (i - h, i)).filter(|e| e.0 < h));
                if n % 2 == 1 {
                    v.push((0, n - 1));
                }
                v = both(v);
            }
            Sh::Circulant => {
                for i in 0..n {
                    v.extend([1, 3, 7].iter().map(|k| (i, (i + k) % n)).filter(|e| e.0 != e.1));
                }
            }
            Sh::BiCirculant => {
                v = both((0..n).flat_map(|i| [(i, (i + 1) % n), (i, (i + 4) % n)]).collect());
            }
            Sh::Layers => {
                let w = side;
                for i in 0..n {
                    let next = (i / w + 1) * w;
                    v.extend((next..(next + w).min(n)).map(|j| (i, j)));
                }
            }
            Sh::Wheel => {
                v = both((0..n - 1).map(|i| (i, (i + 1) % (n - 1))).collect());
                v.extend(both((0..n - 1).step_by(2).map(|i| (i, n - 1)).collect()));
            }
            Sh::Lollipop => {
                let k = 6.min(n);
                for a in 0..k {
                    v.extend((0..a).map(|b| (b, a)));
                }
                v.extend((k..n).map(|i| (i - 1, i)));
                v = both(v);
            }
            Sh::Parallel => {
                // many routes of two edges between the ends, and one long one
                v.extend((1..n - 1).flat_map(|i| [(0, i), (i, n - 1)]));
                v.extend((2..n - 1).map(|i| (i - 1, i)));
            }
            Sh::Cliques => {
                for a in 0..n {
                    let b = a / 4 * 4;
                    v.extend((b..(b + 4).min(n)).filter(|x| *x != a).map(|x| (a, x)));
                    if a % 4 == 3 && a + 1 < n {
                        v.extend([(a, a + 1), (a + 1, a)]);
                    }
                }
            }
            Sh::Islands => {
                // components of growing size, some nodes without edges
                let (mut at, mut k) = (0, 1);
                while at + k <= n {
                    v.extend((1..k).map(|i| (at + i - 1, at + i)));
                    v.extend((2..k).map(|i| (at + i, at)));
                    at += k;
                    k += 1;
                }
                if n > 1 {
                    v.push((n - 1, 0));
                }
            }
            Sh::Dumbbell => {
                let k = (n - 1) / 2;
                for c in 0..2 {
                    for i in 0..k {
                        v.push((c * k + i, c * k + (i + 1) % k));
                        v.push((c * k + i, c * k + (i + 4) % k));
                    }
                }
                v.push((k / 3, n - 1));
                v.push((k + k / 2, n - 1));
                v = both(v);
            }
            Sh::Arch => {
                v = line(n - 1);
                v.push((0, n - 1));
                v.push((n - 2, n - 1));
                v = both(v);
            }
        }
        v.retain(|e| e.0 != e.1 && e.0 < n && e.1 < n);
        v.sort();
        v.dedup();
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wt {
    One,
    /// small, varied, asymmetric
    Mixed,
    /// growing along the ids
    Up,
    Down,
    /// 1, 2, 4, ... up to 2^49
    Pow,
    /// just above 2^33
    Wide,
    /// close to 2^16, 2^24, 2^31, 2^32 in turn
    Edge,
    /// every third edge is extremely heavy (sums exceed the maximum weight)
    Huge,
    /// proportional to the distance of the ids, so that direct edges tie with detours
    Metric,
    /// the edges of the last node are heavy
    Hub,
}

pub const WEIGHTS: [Wt; 10] =
    [Wt::One, Wt::Mixed, Wt::Up, Wt::Down, Wt::Pow, Wt::Wide, Wt::Edge, Wt::Huge, Wt::Metric, Wt::Hub];

impl Wt {
    fn of(self, k: usize, a: usize, b: usize, n: usize) -> usize {
        match self {
            Wt::One => 1,
            Wt::Mixed => 1 + (a * 7 + b * 3 + (a % 11) * (b % 11)) % 11,
            Wt::Up => a + b + 1,
            Wt::Down => 2 * n - a - b,
            Wt::Pow => 1 << ((a * 5 + b) % (BITS - 14)),
            Wt::Wide => (1 << (BITS / 2 + 1)) + (a * 3 + b) % 17,
            Wt::Edge => (1usize << ([16, 24, 31, 32][k % 4] * BITS / 64)) - 2 + (a + 2 * b) % 4,
            Wt::Huge => {
                if k % 3 == 1 {
                    M / 2 - a * 3 - b
                } else {
                    1 + (a + b) % 5
                }
            }
            Wt::Metric => 2 * a.abs_diff(b),
            Wt::Hub => {
                if a == n - 1 || b == n - 1 {
                    100_000
                } else {
                    1 + (a * 3 + b) % 4
                }
            }
        }
    }
}

pub fn edges_of(s: Sh, n: usize, w: Wt) -> Vec<E> {
    s.pairs(n).into_iter().enumerate().map(|(k, (a, b))| (a, b, w.of(k, a, b, n))).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lo {
    Up,
    Down,
    EvensOdds,
    MiddleOut,
    EndsIn,
    BitReversed,
    Stride3,
    Stride7Down,
    /// as the default preparation found it
    Recorded,
    RecordedReversed,
}

pub const LORDERS: [Lo; 10] = [
    Lo::Up,
    Lo::Down,
    Lo::EvensOdds,
    Lo::MiddleOut,
    Lo::EndsIn,
    Lo::BitReversed,
    Lo::Stride3,
    Lo::Stride7Down,
    Lo::Recorded,
    Lo::RecordedReversed,
];

pub fn lorder(o: Lo, n: usize, recorded: &dyn Fn() -> Vec<usize>) -> Vec<usize> {
    let stride = |k: usize| -> Vec<usize> { (0..k).flat_map(|r| (r..n).step_by(k)).collect() };
    match o {
        Lo::Up => (0..n).collect(),
        Lo::Down => (0..n).rev().collect(),
        Lo::EvensOdds => stride(2),
        Lo::MiddleOut => {
            let mut v: Vec<usize> = (0..n).collect();
            v.sort_by_key(|x| (x.abs_diff(n / 2), *x));
            v
        }
        Lo::EndsIn => {
            let mut v: Vec<usize> = (0..n).collect();
            v.sort_by_key(|x| (x.abs_diff(n / 2), *x));
            v.reverse();
            v
        }
        Lo::BitReversed => {
            let b = usize::BITS - (n.max(2) - 1).leading_zeros();
            (0..1usize << b).map(|x| x.reverse_bits() >> (usize::BITS - b)).filter(|x| *x < n).collect()
        }
        Lo::Stride3 => stride(3),
        Lo::Stride7Down => {
            let mut v = stride(7);
            v.reverse();
            v
        }
        Lo::Recorded => recorded(),
        Lo::RecordedReversed => {
            let mut v = recorded();
            v.reverse();
            v
        }
    }
}

#[derive(Clone)]
pub enum LPrep {
    Default,
    Set(ParamSet),
    Order(Lo, usize),
}

impl LPrep {
    fn show(&self) -> String {
        match self {
            LPrep::Default => "prepare(&g)".into(),
            LPrep::Set(p) => format!("prepare_with_params(&g, &{})", p.show()),
            LPrep::Order(o, b) if *b == NO_PARAMS => {
                format!("prepare_with_order(&g, &{:?} order)", o)
            }
            LPrep::Order(o, b) => {
                format!("prepare_with_order_with_params(&g, &{:?} order, &ParamsWithOrder::new({}))", o, b)
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct LGraph {
    pub sh: Sh,
    pub n: usize,
    pub wt: Wt,
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    /// all pairs up to 80 nodes, beyond that from 12 sources, beyond 2100 nodes from 6 sources to some 50 targets
    One(Oracle),
    /// long lists of sources and targets
    Many(Oracle),
    /// one calculator against new ones, alternating with a second graph of the same size
    Reuse,
    /// bincode, JSON
    Stored,
    /// 32-bit
    Stored32,
    /// shuffled edges, duplicates; hash seeds
    Same,
    /// prepared again with its own ordering
    Again,
    /// every shortcut is necessary
    Lean,
}

pub struct Large {
    pub label: &'static str,
    pub graphs: Vec<LGraph>,
    pub preps: Vec<LPrep>,
    pub what: What,
}

/// list lengths around the sizes at which an implementation might switch behaviour
const LENGTHS: [usize; 22] = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257];

/// kinds of lists
const KINDS: usize = 8;

/// list number `kind` with `len` entries over `n` nodes
fn list(kind: usize, len: usize, n: usize, target: bool) -> Vec<(usize, usize)> {
    let t = target as usize;
    (0..len)
        .map(|i| match kind {
            // the best entry comes last
            0 => ((i * 3 + t * 5) % n, 2 * (len - i) + t),
            // one node, many times, then others
            1 => (if i < len / 2 { (n - 1) * (1 - t) } else { (i * 5 + 1 + t) % n }, 3 + (i * 7) % 5),
            // most entries are to be ignored
            2 => ((i + t * n / 2) % n, if i + 1 == len || i % 5 == 4 { i } else { M }),
            // free of cost, spread over all nodes
            3 => ((i * 7 + 2 * t) % n, 0),
            // heavy
            4 => ((n - 1 + t + n * len - i) % n, (1 << (BITS * 5 / 8)) + (len - i) % 9),
            // half of the maximum weight
            5 => ((i * 3 + t) % n, M / 2 + 3 - (i * 5 + t) % 7),
            // just below the maximum weight
            6 => ((i + 3 * t) % n, M - 1 - (i * 37) % 1000),
            // all magnitudes
            _ => ((i * 5 + t) % n, (1 << ((i * 13 + 7 * t + 5) % BITS)) - 1),
        })
        .collect()
}

impl Large {
    fn graph(&self, i: u64) -> (LGraph, &LPrep) {
        let k = self.preps.len() as u64;
        (self.graphs[(i / k) as usize], &self.preps[(i % k) as usize])
    }
    fn prepare(&self, n: usize, input: &InputGraph, p: &LPrep) -> Result<(FastGraph, Option<Vec<usize>>), String> {
        Ok(match p {
            LPrep::Default => (prepare(input), None),
            LPrep::Set(p) => (prepare_with_params(input, &p.params()), None),
            LPrep::Order(o, b) => {
                let order = lorder(*o, n, &|| prepare(input).get_node_ordering());
                let g = if *b == NO_PARAMS {
                    prepare_with_order(input, &order)?
                } else {
                    prepare_with_order_with_params(input, &order, &ParamsWithOrder::new(*b))?
                };
                (g, Some(order))
            }
        })
    }
}

/// the targets for queries from `s`: all, in graphs with more than 2100 nodes some 50 of them
fn targets(n: usize, s: usize) -> Vec<usize> {
    if n <= 2100 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..40).map(|k| k * (n - 1) / 39).collect();
    v.extend((s.saturating_sub(3)..n.min(s + 4)).chain([1, n - 2, (s + n / 2) % n]));
    v.sort();
    v.dedup();
    v
}

fn dist(x: u64) -> Option<usize> {
    if x >= M as u64 {
        None
    } else {
        Some(x as usize)
    }
}

impl Space for Large {
    fn name(&self) -> String {
        format!("large({},{} graphs,{} preparations)", self.label, self.graphs.len(), self.preps.len())
    }
    fn len(&self) -> u64 {
        (self.graphs.len() * self.preps.len()) as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        240
    }
    fn bounds(&self) -> String {
        format!(
            "{} (shape, size, weights) combinations with {} to {} nodes x {} preparations",
            self.graphs.len(),
            self.graphs.iter().map(|g| g.n).min().unwrap_or(0),
            self.graphs.iter().map(|g| g.n).max().unwrap_or(0),
            self.preps.len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (c, p) = self.graph(i);
        let edges = edges_of(c.sh, c.n, c.wt);
        let n = node_count(&edges);
        let input = build_input(&edges);
        let (fg, order) = self.prepare(n, &input, p)?;
        ctx.calls += edges.len() as u64 + 2;
        ctx.traces += 1;
        if fg.get_num_nodes() != n {
            return Err(format!("{} nodes, expected {}", fg.get_num_nodes(), n));
        }
        let mut h = 0;
        match self.what {
            What::One(oracle) => {
                if let Some(o) = order {
                    if fg.get_node_ordering() != o {
                        return Err("the ordering is reported differently".into());
                    }
                }
                let r = Big::new(n, &edges);
                let mut calc = create_calculator(&fg);
                let m = if n <= 80 {
                    n
                } else if n <= 2100 {
                    12
                } else {
                    6
                };
                for k in 0..m {
                    let s = k * (n - 1) / (m - 1).max(1);
                    let d = r.from(s);
                    for t in targets(n, s) {
                        let p = calc.calc_path(&fg, s, t);
                        ctx.calls += 1;
                        ctx.states += 1;
                        match oracle {
                            Oracle::Dist => {
                                let got = p.as_ref().map(|p| p.get_weight());
                                if got != dist(d[t]) {
                                    return Err(format!(
                                        "calc_path({}, {}): expected {:?}, got {:?}",
                                        s,
                                        t,
                                        dist(d[t]),
                                        got
                                    ));
                                }
                                h = mix(h, got.unwrap_or(M) as u64);
                                ctx.nontrivial += (s != t && got.is_some()) as u64;
                            }
                            Oracle::Path => {
                                if let Some(p) = &p {
                                    r.check_walk(p, &[(s, 0)], &[(t, 0)])
                                        .map_err(|m| format!("calc_path({}, {}): {}", s, t, m))?;
                                    h = mix(h, p.get_nodes().iter().fold(0, |h, x| mix(h, *x as u64)));
                                    ctx.nontrivial += (p.get_nodes().len() > 2) as u64;
                                }
                            }
                        }
                    }
                }
            }
            What::Many(oracle) => {
                let r = Big::new(n, &edges);
                let huge = n > 600;
                let all: Vec<Vec<u64>> = if huge { vec![] } else { (0..n).map(|s| r.from(s)).collect() };
                let mut calc = create_calculator(&fg);
                for (a, ls) in LENGTHS.iter().enumerate() {
                    for (b, lt) in LENGTHS.iter().enumerate() {
                        for kind in 0..KINDS * KINDS {
                            if *ls * *lt > 2000 && (kind + a + b) % 13 != 0 || huge && (kind + 3 * a + 7 * b) % 149 != 0
                            {
                                continue;
                            }
                            let s = list(kind % KINDS, *ls, n, false);
                            let t = list(kind / KINDS, *lt, n, true);
                            let p = calc.calc_path_multiple_sources_and_targets(&fg, s.clone(), t.clone());
                            ctx.calls += 1;
                            ctx.states += 1;
                            match oracle {
                                Oracle::Dist => {
                                    let mut want = M as u128;
                                    if huge {
                                        let d = r.from_many(&s);
                                        for y in t.iter().filter(|y| y.1 < M && d[y.0] < M as u64) {
                                            want = want.min(y.1 as u128 + d[y.0] as u128);
                                        }
                                    }
                                    for x in s.iter().filter(|x| x.1 < M && !huge) {
                                        for y in t.iter().filter(|y| y.1 < M) {
                                            let d = all[x.0][y.0];
                                            if d < M as u64 {
                                                want = want.min(x.1 as u128 + y.1 as u128 + d as u128);
                                            }
                                        }
                                    }
                                    let want = dist(want as u64);
                                    let got = p.as_ref().map(|p| p.get_weight());
                                    if want != got {
                                        return Err(format!(
                                            "sources {:?}, targets {:?}: expected {:?}, got {:?}",
                                            s, t, want, got
                                        ));
                                    }
                                    h = mix(h, got.unwrap_or(M) as u64);
                                    ctx.nontrivial += got.is_some() as u64;
                                }
                                Oracle::Path => {
                                    if let Some(p) = &p {
                                        r.check_walk(p, &s, &t)
                                            .map_err(|m| format!("sources {:?}, targets {:?}: {}", s, t, m))?;
                                        ctx.nontrivial += (p.get_nodes().len() > 1) as u64;
                                        h = mix(h, p.get_nodes().len() as u64);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            What::Reuse => {
                let back: Vec<E> = edges.iter().map(|e| (e.1, e.0, e.2 % 1000 + 1)).collect();
                let fg2 = prepare(&build_input(&back));
                let mut calc = create_calculator(&fg);
                let step = if n <= 24 { 1 } else { n / 16 };
                for s in (0..n).step_by(step) {
                    for t in (0..n).step_by(step) {
                        let many = Q::Many(vec![(s, 1), ((s + 1) % n, 0)], vec![(t, 0), ((t + 3) % n, 2)]);
                        for (g, q) in [(&fg, Q::One(s, t)), (&fg2, Q::One(s, t)), (&fg, many)] {
                            if (s + t) % 5 == 0 {
                                // a refused query in between
                                let _ = attempt(|| calc.calc_path(g, n, 0));
                            }
                            let x = q.ask(&mut calc, g);
                            let y = q.ask(&mut create_calculator(g), g);
                            ctx.calls += 2;
                            ctx.states += 1;
                            if x != y {
                                return Err(format!(
                                    "{}: a reused calculator gives {:?}, a new one {:?}",
                                    q.show(),
                                    x,
                                    y
                                ));
                            }
                            let z = match &q {
                                Q::One(s, t) => answer(calc_path(g, *s, *t)),
                                Q::Many(s, t) => {
                                    answer(calc_path_multiple_sources_and_targets(g, s.clone(), t.clone()))
                                }
                            };
                            if z != y {
                                return Err(format!(
                                    "{}: the stand-alone function gives {:?}, a new calculator {:?}",
                                    q.show(),
                                    z,
                                    y
                                ));
                            }
                            h = mix(h, x.as_ref().map_or(7, |x| x.2 as u64));
                            ctx.nontrivial += x.is_some() as u64;
                        }
                    }
                }
            }
            What::Stored => {
                let want = observe(&fg, ctx);
                let b = bytes(&fg);
                let g1: FastGraph = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                same("the graph read back from bincode", &want, &observe(&g1, ctx))?;
                let j = serde_json::to_string(&g1).map_err(|e| e.to_string())?;
                let g2: FastGraph = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                same("the graph read back from JSON", &want, &observe(&g2, ctx))?;
                if bytes(&g1) != b || bytes(&g2) != b {
                    return Err("serializes differently after reading".into());
                }
                let b = bincode::serialize(&input).map_err(|e| e.to_string())?;
                let i2: InputGraph = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                let list = |g: &InputGraph| g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect::<Vec<_>>();
                if list(&i2) != list(&input)
                    || i2.get_num_nodes() != n
                    || bincode::serialize(&i2).map_err(|e| e.to_string())? != b
                {
                    return Err("the input graph is restored differently".into());
                }
                ctx.states += 3;
                ctx.nontrivial += 1;
                h = want.iter().fold(0, |h, x| mix(h, *x as u64));
            }
            What::Stored32 => {
                let want = observe(&fg, ctx);
                let fits = crate::persist::fits(&serde_json::to_value(&fg).map_err(|e| e.to_string())?);
                match attempt(|| FastGraph32::new(&fg)) {
                    Err(m) => {
                        if fits {
                            return Err(format!("refused although every value fits: {}", m));
                        }
                    }
                    Ok(g) => {
                        let b = bincode::serialize(&g).map_err(|e| e.to_string())?;
                        same("the graph converted to 32 bit and back", &want, &observe(&g.convert_to_usize(), ctx))?;
                        let g: FastGraph32 = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                        let g = g.convert_to_usize();
                        same("the graph stored as FastGraph32", &want, &observe(&g, ctx))?;
                        if bytes(&g) != bytes(&fg) {
                            return Err("the graph stored as FastGraph32 serializes differently".into());
                        }
                        ctx.nontrivial += 1;
                    }
                }
                ctx.states += 2;
                h = want.iter().fold(0, |h, x| mix(h, *x as u64));
            }
            What::Same => {
                let want = bytes(&fg);
                let m = edges.len();
                for k in 0..4usize {
                    // rotated, reversed, with heavier duplicates, loops and zero weights mixed in
                    let mut l = edges.clone();
                    l.rotate_left(m * k / 4);
                    if k % 2 == 1 {
                        l.reverse();
                    }
                    if k >= 2 {
                        for j in (0..m).step_by(3) {
                            let e = edges[(j * 7 + k) % m];
                            l.insert(j, (e.0, e.1, e.2.saturating_add(1 + j % 3)));
                            l.push((e.1, e.1, 1));
                            l.push((e.1, e.0, 0));
                        }
                    }
                    let (x, _) = self.prepare(n, &build_input(&l), p)?;
                    ctx.calls += l.len() as u64 + 2;
                    ctx.states += 1;
                    if bytes(&x) != want {
                        return Err(format!("arrangement {} of the edges gives another prepared graph", k));
                    }
                }
                if matches!(p, LPrep::Default) {
                    for seed in 0..6 {
                        let (b, _) = prepare_with_seed(&edges, seed, None)?;
                        ctx.states += 1;
                        if b != want {
                            return Err(format!("hash seed {} gives another prepared graph", seed));
                        }
                    }
                }
                ctx.nontrivial += 1;
                h = want.iter().fold(0, |h, x| mix(h, *x as u64));
            }
            What::Again => {
                let o = fg.get_node_ordering();
                let mut sorted = o.clone();
                sorted.sort();
                if sorted != (0..n).collect::<Vec<_>>() || get_node_ordering(&fg) != o {
                    return Err("the reported ordering is not a permutation".into());
                }
                let budget = match p {
                    LPrep::Default => Params::default().max_settled_nodes_contraction,
                    LPrep::Set(p) => p.contr,
                    LPrep::Order(_, b) => *b,
                };
                let g2 = if budget == NO_PARAMS {
                    prepare_with_order(&input, &o)?
                } else {
                    prepare_with_order_with_params(&input, &o, &ParamsWithOrder::new(budget))?
                };
                ctx.calls += 3;
                ctx.states += 1;
                if bytes(&g2) != bytes(&fg) {
                    return Err("preparing again with the own ordering gives another prepared graph".into());
                }
                // the ordering for the graph with other weights and without some edges
                let other: Vec<E> = edges
                    .iter()
                    .enumerate()
                    .filter(|(k, e)| k % 5 != 2 || e.0 == n - 1 || e.1 == n - 1)
                    .map(|(k, e)| (e.0, e.1, 1 + (k * 5) % 9))
                    .collect();
                if node_count(&other) == n {
                    let g3 = prepare_with_order(&build_input(&other), &o)?;
                    let r = Big::new(n, &other);
                    let mut calc = create_calculator(&g3);
                    for s in [0, n / 2, n - 1] {
                        let d = r.from(s);
                        for t in targets(n, s) {
                            let got = calc.calc_path(&g3, s, t).map(|p| p.get_weight());
                            ctx.states += 1;
                            if got != dist(d[t]) {
                                return Err(format!(
                                    "ordering used for other weights: calc_path({}, {}): expected {:?}, got {:?}",
                                    s,
                                    t,
                                    dist(d[t]),
                                    got
                                ));
                            }
                        }
                    }
                }
                ctx.nontrivial += 1;
                h = o.iter().fold(0, |h, x| mix(h, *x as u64));
            }
            What::Lean => {
                let o = order.expect("src/ order");
                ctx.states += n as u64;
                let k = crate::queries::check_lean(n, &edges, &fg, &o)?;
                ctx.nontrivial += (k > 0) as u64;
                h = mix(fg.get_num_out_edges() as u64, k);
            }
        }
        ctx.outcome(h);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (c, p) = self.graph(i);
        let e = edges_of(c.sh, c.n, c.wt);
        let mut s = format!("// shape {:?}, {} nodes, weights {:?}; {}\n", c.sh, c.n, c.wt, p.show());
        if e.len() <= 150 {
            s += &show_input(&e);
        } else {
            s += &format!("// {} edges, beginning with {:?}\n", e.len(), &e[..20]);
        }
        if let LPrep::Order(o, _) = p {
            let n = node_count(&e);
            if !matches!(o, Lo::Recorded | Lo::RecordedReversed) && n < 100 {
                s += &format!("// order: {:?}\n", lorder(*o, n, &|| vec![]));
            }
        }
        s
    }
}

pub fn graphs(shapes: &[Sh], sizes: &[usize], weights: &[Wt], dense_max: usize, hub_max: usize) -> Vec<LGraph> {
    let mut v = vec![];
    for &n in sizes {
        for &sh in shapes {
            if sh.dense() && n > dense_max || sh.hub() && n > hub_max {
                continue;
            }
            for &wt in weights {
                v.push(LGraph { sh, n, wt });
            }
        }
    }
    v
}

pub fn large(label: &'static str, graphs: Vec<LGraph>, preps: Vec<LPrep>, what: What) -> Box<dyn Space> {
    Box::new(Large { label, graphs, preps, what })
}

pub fn orders(budgets: &[usize]) -> Vec<LPrep> {
    let mut v = vec![];
    for o in LORDERS {
        for &b in budgets {
            v.push(LPrep::Order(o, b));
        }
    }
    v
}
