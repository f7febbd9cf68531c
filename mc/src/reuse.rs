//! C06: a reused calculator answers as a fresh one.

use crate::engine::*;
use crate::families::*;
use crate::reference::*;
use fast_paths::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::Ordering;

pub type Answer = Option<(usize, usize, usize, Vec<usize>)>;

pub fn answer(p: Option<ShortestPath>) -> Answer {
    p.map(|p| (p.get_source(), p.get_target(), p.get_weight(), p.get_nodes().clone()))
}

fn hash_answer(a: &Answer) -> u64 {
    match a {
        None => 7,
        Some((s, t, w, n)) => {
            let mut h = mix(mix(mix(1, *s as u64), *t as u64), *w as u64);
            for x in n {
                h = mix(h, *x as u64);
            }
            h
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    One(usize, usize),
    Many(Vec<(usize, usize)>, Vec<(usize, usize)>),
}

impl Q {
    pub fn ask(&self, calc: &mut PathCalculator, g: &FastGraph) -> Answer {
        answer(match self {
            Q::One(s, t) => calc.calc_path(g, *s, *t),
            Q::Many(s, t) => calc.calc_path_multiple_sources_and_targets(g, s.clone(), t.clone()),
        })
    }
    pub fn show(&self) -> String {
        match self {
            Q::One(s, t) => format!("calc_path(&g, {}, {})", s, t),
            Q::Many(s, t) => format!("calc_path_multiple_sources_and_targets(&g, vec!{:?}, vec!{:?})", s, t),
        }
    }
}

const M: usize = WEIGHT_MAX;

fn queries3() -> Vec<Q> {
    let mut v = vec![];
    for s in 0..3 {
        for t in 0..3 {
            v.push(Q::One(s, t));
        }
    }
    v.push(Q::Many(vec![(0, 3), (1, 0)], vec![(2, 0)]));
    v.push(Q::Many(vec![(2, 0)], vec![(0, 1), (1, 2), (2, 9)]));
    v.push(Q::Many(vec![(0, M), (1, 1)], vec![(0, 0), (2, M)]));
    v
}

/// All pairs of 3-node graphs: one query on the first, then one on the second, with the same calculator.
pub struct ReusePairs {
    pub ws: Vec<usize>,
    /// three queries: first graph, second graph, first graph again
    pub three: bool,
}

struct Prepared {
    edges: Vec<E>,
    fg: FastGraph,
    fresh: Vec<Answer>,
}

thread_local! {
    static CACHE: RefCell<HashMap<String, Rc<Vec<Prepared>>>> = RefCell::new(HashMap::new());
}

impl ReusePairs {
    fn family(&self) -> Digraphs {
        Digraphs { n: 3, ws: self.ws.clone() }
    }
    /// graphs of the family that have three nodes
    fn members(&self) -> Vec<Vec<E>> {
        let f = self.family();
        (0..f.len()).map(|i| f.edges(i)).filter(|(n, _)| *n == 3).map(|x| x.1).collect()
    }
    fn prepared(&self) -> Rc<Vec<Prepared>> {
        let key = self.name();
        if let Some(x) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
            return x;
        }
        let qs = queries3();
        let v: Vec<Prepared> = self
            .members()
            .into_iter()
            .map(|edges| {
                let fg = prepare(&build_input(&edges));
                let fresh = qs.iter().map(|q| q.ask(&mut create_calculator(&fg), &fg)).collect();
                Prepared { edges, fg, fresh }
            })
            .collect();
        let v = Rc::new(v);
        CACHE.with(|c| c.borrow_mut().insert(key, v.clone()));
        v
    }
}

impl Space for ReusePairs {
    fn name(&self) -> String {
        format!("reuse-pairs(w={:?}{})", self.ws, if self.three { ",A-B-A" } else { "" })
    }
    fn len(&self) -> u64 {
        self.members().len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        let k = self.len();
        let q = queries3().len();
        format!("{} x {} graphs with 3 nodes x {} x {} queries", k, k, q, q)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let all = self.prepared();
        let qs = queries3();
        let a = &all[i as usize];
        let mut h = 0;
        for b in all.iter() {
            for (k1, q1) in qs.iter().enumerate() {
                for (k2, q2) in qs.iter().enumerate() {
                    let mut calc = create_calculator(&a.fg);
                    let r1 = q1.ask(&mut calc, &a.fg);
                    let r2 = q2.ask(&mut calc, &b.fg);
                    ctx.calls += 3;
                    ctx.states += 2;
                    let mut bad = None;
                    if r1 != a.fresh[k1] {
                        bad = Some((q1, r1, &a.fresh[k1], "first"));
                    } else if r2 != b.fresh[k2] {
                        bad = Some((q2, r2, &b.fresh[k2], "second"));
                    } else if self.three {
                        let r3 = q1.ask(&mut calc, &a.fg);
                        if r3 != a.fresh[k1] {
                            bad = Some((q1, r3, &a.fresh[k1], "third"));
                        }
                    }
                    if let Some((q, got, want, pos)) = bad {
                        return Err(format!(
                            "second graph: {:?}; queries {} on the first graph, {} on the second{}: {} query {} gives {:?}, a fresh calculator {:?}",
                            b.edges, q1.show(), q2.show(),
                            if self.three { ", then the first query on the first graph again" } else { "" },
                            pos, q.show(), got, want
                        ));
                    }
                    if b.fresh[k2].is_some() && a.fresh[k1].is_some() {
                        ctx.nontrivial += 1;
                    }
                }
                h = mix(h, hash_answer(&b.fresh[k1]));
            }
            ctx.outcome(h);
            ctx.traces += (qs.len() * qs.len()) as u64;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!(
            "// first graph\n{}// prepare(&g), then queries with one calculator on this and another graph",
            show_input(&self.members()[i as usize])
        )
    }
}

/// All sequences of operations over an alphabet of queries on several prepared graphs with one calculator.
pub struct ReuseSeq {
    pub label: &'static str,
    pub graphs: Vec<Vec<E>>,
    /// graph index, query, must be refused
    pub ops: Vec<(usize, Q, bool)>,
    pub depth: u32,
}

impl ReuseSeq {
    fn decode(&self, i: u64) -> Vec<usize> {
        let b = self.ops.len() as u64;
        let mut i = i;
        (0..self.depth)
            .map(|_| {
                let x = (i % b) as usize;
                i /= b;
                x
            })
            .collect()
    }
}

struct SeqData {
    graphs: Vec<FastGraph>,
    fresh: Vec<Answer>,
}

thread_local! {
    static SEQ: RefCell<HashMap<String, Rc<SeqData>>> = RefCell::new(HashMap::new());
}

impl Space for ReuseSeq {
    fn name(&self) -> String {
        format!("reuse-sequences({},{} operations,depth={})", self.label, self.ops.len(), self.depth)
    }
    fn len(&self) -> u64 {
        (self.ops.len() as u64).pow(self.depth)
    }
    fn chunk(&self) -> u64 {
        256
    }
    fn bounds(&self) -> String {
        format!(
            "all sequences of {} operations out of {} on {} prepared graphs",
            self.depth,
            self.ops.len(),
            self.graphs.len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let key = self.name();
        let data = match SEQ.with(|c| c.borrow().get(&key).cloned()) {
            Some(d) => d,
            None => {
                let graphs: Vec<FastGraph> = self.graphs.iter().map(|g| prepare(&build_input(g))).collect();
                let fresh = self
                    .ops
                    .iter()
                    .map(
                        |(g, q, refused)| {
                            if *refused {
                                None
                            } else {
                                q.ask(&mut create_calculator(&graphs[*g]), &graphs[*g])
                            }
                        },
                    )
                    .collect();
                let d = Rc::new(SeqData { graphs, fresh });
                SEQ.with(|c| c.borrow_mut().insert(key, d.clone()));
                d
            }
        };
        let seq = self.decode(i);
        let mut calc = create_calculator(&data.graphs[0]);
        let mut h = 0;
        for (pos, k) in seq.iter().enumerate() {
            let (g, q, refused) = &self.ops[*k];
            ctx.calls += 1;
            if *refused {
                if let Ok(a) = attempt(|| q.ask(&mut calc, &data.graphs[*g])) {
                    return Err(format!("operation {}: {} was answered: {:?}", pos, q.show(), a));
                }
                ctx.nontrivial += 1;
            } else {
                let a = q.ask(&mut calc, &data.graphs[*g]);
                if a != data.fresh[*k] {
                    return Err(format!(
                        "operation {}: {} on graph {} gives {:?}, a fresh calculator {:?}",
                        pos,
                        q.show(),
                        g,
                        a,
                        data.fresh[*k]
                    ));
                }
                h = mix(h, hash_answer(&a));
            }
        }
        ctx.states += 1;
        ctx.traces += 1;
        ctx.outcome(h);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let mut s = String::new();
        for (k, g) in self.graphs.iter().enumerate() {
            s += &format!("// graph {}\n{}", k, show_input(g));
        }
        s += "// prepare all; one calculator:\n";
        for k in self.decode(i) {
            let (g, q, refused) = &self.ops[k];
            s += &format!("// on graph {}: {}{}\n", g, q.show(), if *refused { " (panics)" } else { "" });
        }
        s
    }
}

pub fn seq_spaces(depth: u32) -> Vec<Box<dyn Space>> {
    let one = Q::One;
    // two graphs with four nodes: a chain with a detour, and its reverse with other weights
    let g0: Vec<E> = vec![(0, 1, 1), (1, 2, 1), (2, 3, 1), (0, 2, 3), (3, 0, 7)];
    let g1: Vec<E> = vec![(3, 2, 2), (2, 1, 2), (1, 0, 2), (3, 0, 5), (0, 3, 1)];
    let g2: Vec<E> = vec![(2, 3, 4)];
    // other node count: always refused
    let g3: Vec<E> = vec![(0, 1, 1), (1, 4, 1)];
    let ops = vec![
        (0, one(0, 3), false),
        (0, one(1, 0), false),
        (0, one(2, 2), false),
        (0, Q::Many(vec![(0, 5), (1, 1)], vec![(3, 0), (2, 2)]), false),
        (0, Q::Many(vec![(0, M), (3, 0)], vec![(1, M), (2, 0)]), false),
        (1, one(0, 3), false),
        (1, one(3, 0), false),
        (1, Q::Many(vec![(1, 0), (1, 3)], vec![(1, 2), (0, 0)]), false),
        (2, one(2, 3), false),
        (2, one(3, 2), false),
        (2, one(0, 1), false),
        (0, one(4, 0), true),
        (0, one(0, 9), true),
        (0, Q::Many(vec![], vec![(1, 0)]), true),
        (0, Q::Many(vec![(0, 0)], vec![]), true),
        (1, Q::Many(vec![(0, 0), (1, 0)], vec![(2, 1), (7, 0)]), true),
        (1, Q::Many(vec![(2, 0), (4, 0)], vec![(0, 0)]), true),
        (3, one(0, 4), true),
        (3, one(0, 1), true),
    ];
    let a = ReuseSeq { label: "4 nodes, 3 graphs, refused queries", graphs: vec![g0, g1, g2, g3], ops, depth };
    // one bigger graph: rings through both directions, unreachable part, single- and multi-source
    let mut big = bidir(&ring(5, |i| 1 + i % 3));
    big.push((5, 0, 1));
    big.push((2, 6, 4));
    let mut other = chain(7, |i| 2 + i % 2);
    other.push((6, 1, 3));
    let b = ReuseSeq {
        label: "7 nodes, 2 graphs",
        graphs: vec![big, other],
        ops: vec![
            (0, one(0, 3), false),
            (0, one(3, 0), false),
            (0, one(5, 6), false),
            (0, one(6, 5), false),
            (0, one(1, 1), false),
            (0, Q::Many(vec![(4, 2), (5, 0)], vec![(6, 0), (2, 5)]), false),
            (0, Q::Many(vec![(6, 0)], vec![(0, 0), (1, 0), (6, 50)]), false),
            (1, one(0, 6), false),
            (1, one(6, 2), false),
            (1, one(3, 0), false),
            (1, Q::Many(vec![(0, 9), (3, 0)], vec![(5, 1), (1, 1)]), false),
            (1, Q::Many(vec![(6, 0), (0, M)], vec![(0, 0)]), false),
        ],
        depth: depth + 1,
    };
    vec![Box::new(a), Box::new(b)]
}

// ---------------------------------------------------------------------------------------------
// long histories

/// The long history consists of queries that cannot find anything and are as cheap as possible.
pub fn idle(calc: &mut PathCalculator, g: &FastGraph) -> Result<(), String> {
    match calc.calc_path_multiple_sources_and_targets(g, vec![(0, M)], vec![(0, M)]) {
        None => Ok(()),
        Some(p) => Err(format!("query with unusable source and target returns {:?}", p)),
    }
}

pub fn long_graph() -> (Vec<E>, Vec<Q>) {
    let mut e = bidir(&ring(5, |i| 1 + i % 3));
    e.push((5, 0, 1));
    (
        e,
        vec![
            Q::One(0, 3),
            Q::One(3, 1),
            Q::One(5, 2),
            Q::One(2, 5),
            Q::One(4, 4),
            Q::Many(vec![(1, 0), (5, 2)], vec![(3, 1), (4, 0)]),
        ],
    )
}

/// query, k idle queries, query, with k in windows around the wrap of 8- and 16-bit counters
pub struct LongHistory {
    pub ks: Vec<u64>,
}

impl LongHistory {
    pub fn new(deep: bool) -> Self {
        let mut ks: Vec<u64> = (0..=300).collect();
        for c in [1u64 << 15, 1 << 16, 1 << 17] {
            for d in 0..12 {
                ks.push(c - 6 + d);
            }
        }
        if deep {
            for c in [10_000u64, 100_000, 1 << 20, 1_000_000, 1 << 24] {
                for d in 0..6 {
                    ks.push(c - 3 + d);
                }
            }
        }
        LongHistory { ks }
    }
}

impl Space for LongHistory {
    fn name(&self) -> String {
        "long-history".into()
    }
    fn len(&self) -> u64 {
        self.ks.len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        240
    }
    fn bounds(&self) -> String {
        format!(
            "query, k idle queries, query: {} values of k up to {} x 36 query pairs",
            self.ks.len(),
            self.ks.iter().max().unwrap()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (edges, qs) = long_graph();
        let g = prepare(&build_input(&edges));
        let fresh: Vec<Answer> = qs.iter().map(|q| q.ask(&mut create_calculator(&g), &g)).collect();
        let k = self.ks[i as usize];
        for a in 0..qs.len() {
            for b in 0..qs.len() {
                if k > 200_000 && (a + b) % 6 != 3 {
                    // the longest histories only with six of the query pairs
                    continue;
                }
                let mut calc = create_calculator(&g);
                for (pos, x) in [a, b].into_iter().enumerate() {
                    let r = qs[x].ask(&mut calc, &g);
                    if r != fresh[x] {
                        return Err(format!(
                            "{} then {} idle queries then {}: got {:?}, a fresh calculator {:?}",
                            qs[a].show(),
                            k,
                            qs[b].show(),
                            r,
                            fresh[x]
                        ));
                    }
                    if pos == 0 {
                        for _ in 0..k {
                            idle(&mut calc, &g)?;
                        }
                        ctx.calls += k;
                    }
                }
                ctx.traces += 1;
                ctx.states += k + 2;
                if k > 200 {
                    ctx.nontrivial += 1;
                }
            }
        }
        ctx.outcome(k);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!(
            "{}// prepare; one calculator: query, {} queries with sources [(0, WEIGHT_MAX)] and targets [(0, WEIGHT_MAX)], query",
            show_input(&long_graph().0),
            self.ks[i as usize]
        )
    }
}

fn words(calc: &PathCalculator) -> Vec<u32> {
    let n = std::mem::size_of::<PathCalculator>() / 4;
    let p = calc as *const PathCalculator as *const u32;
    (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}

/// Query histories across the wrap of 32-bit counters. Idle queries are skipped by advancing those words of the
/// calculator that were observed to be incremented by one by each of several thousand idle queries while
/// everything else stayed the same. Because such an extrapolation is a guess about the implementation, a suspected
/// violation counts only if the same history, executed query by query, fails as well.
pub struct Wrap {
    pub honest_always: bool,
}

const BEFORE: usize = 4;
const WINDOW: u64 = 14;

impl Wrap {
    fn history(&self, i: u64) -> (u64, Vec<usize>) {
        // offset of the last idle query relative to the 2^32nd query; rotation of the queries
        (i % WINDOW, (0..6).map(|k| ((i / WINDOW) as usize + k) % 6).collect())
    }

    /// `skip` advances the calculator by that many idle queries
    fn execute(
        &self,
        i: u64,
        ctx: &mut Ctx,
        skip: &dyn Fn(&mut PathCalculator, &FastGraph, u64) -> Result<bool, String>,
    ) -> Result<bool, String> {
        let (edges, qs) = long_graph();
        let g = prepare(&build_input(&edges));
        let fresh: Vec<Answer> = qs.iter().map(|q| q.ask(&mut create_calculator(&g), &g)).collect();
        let (off, rot) = self.history(i);
        let mut calc = create_calculator(&g);
        for k in 0..BEFORE {
            let x = rot[k];
            if qs[x].ask(&mut calc, &g) != fresh[x] {
                return Err(format!("{} answered wrongly at the beginning", qs[x].show()));
            }
        }
        let total = (1u64 << 32) - BEFORE as u64 - 10 + off;
        if !skip(&mut calc, &g, total)? {
            return Ok(false);
        }
        for k in 0..16 {
            let x = rot[(k * 5 + 1) % 6];
            let r = qs[x].ask(&mut calc, &g);
            ctx.calls += 1;
            if r != fresh[x] {
                return Err(format!(
                    "{} after {} earlier queries gives {:?}, a fresh calculator {:?}",
                    qs[x].show(),
                    BEFORE as u64 + total + k as u64,
                    r,
                    fresh[x]
                ));
            }
        }
        ctx.states += 16;
        Ok(true)
    }
}

pub fn honest(calc: &mut PathCalculator, g: &FastGraph, n: u64) -> Result<bool, String> {
    for _ in 0..n {
        idle(calc, g)?;
    }
    Ok(true)
}

fn accelerated(calc: &mut PathCalculator, g: &FastGraph, n: u64) -> Result<bool, String> {
    const PROBE: usize = 4096;
    honest(calc, g, 8)?;
    let w0 = words(calc);
    let mut prev = w0.clone();
    for _ in 0..PROBE {
        idle(calc, g)?;
        let w = words(calc);
        for k in 0..w.len() {
            let d = w[k].wrapping_sub(prev[k]);
            if d > 1 {
                return Ok(false);
            }
        }
        prev = w;
    }
    let counters: Vec<usize> = (0..w0.len()).filter(|k| prev[*k].wrapping_sub(w0[*k]) == PROBE as u32).collect();
    let constant = (0..w0.len()).filter(|k| prev[*k] == w0[*k]).count();
    if counters.is_empty() || counters.len() + constant != w0.len() {
        return Ok(false);
    }
    // leave the last 40 queries to the real thing
    let rest = n - 8 - PROBE as u64;
    let p = calc as *mut PathCalculator as *mut u32;
    let max = counters.iter().map(|k| prev[*k]).max().unwrap() as u64;
    // only as far as no counter wraps
    let jump = rest.min(u32::MAX as u64 - 4 - max);
    for k in counters {
        unsafe { std::ptr::write_volatile(p.add(k), prev[k] + jump as u32) };
    }
    if rest - jump > 1 << 20 {
        return Ok(false);
    }
    honest(calc, g, rest - jump)
}

impl Space for Wrap {
    fn name(&self) -> String {
        format!("wrap-2^32{}", if self.honest_always { "-honest" } else { "" })
    }
    fn len(&self) -> u64 {
        if self.honest_always {
            8
        } else {
            WINDOW * 6
        }
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        880
    }
    fn bounds(&self) -> String {
        if self.honest_always {
            "2^32 queries on one calculator, executed one by one, then 16 distinct queries".into()
        } else {
            format!("4 distinct queries, idle queries up to {} offsets around the 2^32nd, 16 distinct queries (idle queries skipped by advancing observed counters, alarms confirmed query by query)", WINDOW)
        }
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let i = if self.honest_always { (i % 4) * 3 + 2 + (i / 4) * WINDOW } else { i };
        if self.honest_always {
            self.execute(i, ctx, &honest)?;
            ctx.calls += 1 << 32;
            ctx.traces += 1;
            ctx.nontrivial += 1;
            return Ok(());
        }
        match self.execute(i, ctx, &accelerated) {
            Ok(true) => {
                ctx.traces += 1;
                ctx.nontrivial += 1;
                ctx.outcome(i);
                Ok(())
            }
            Ok(false) => {
                if ctx.notes.is_empty() {
                    ctx.notes.push("no counters found that could be advanced: 2^32 histories are covered only by the thorough tier".into());
                }
                Ok(())
            }
            Err(m) => {
                // confirm without the shortcut, one case at a time
                shared().exclusive(|sh| {
                    let (confirmed, refuted) = (sh.word(USER), sh.word(USER + 1));
                    if confirmed.load(Ordering::Relaxed) != 0 {
                        // another history is already confirmed to fail
                        return Ok(());
                    }
                    if refuted.load(Ordering::Relaxed) >= 2 {
                        ctx.notes.push(format!("suspicion not examined: {}", m));
                        return Ok(());
                    }
                    match self.execute(i, ctx, &honest) {
                        Err(m) => {
                            confirmed.store(1, Ordering::Relaxed);
                            Err(m)
                        }
                        Ok(_) => {
                            refuted.fetch_add(1, Ordering::Relaxed);
                            ctx.notes.push(format!("suspicion not confirmed by the real history: {}", m));
                            Ok(())
                        }
                    }
                })
            }
        }
    }
    fn describe(&self, i: u64) -> String {
        let i = if self.honest_always { (i % 4) * 3 + 2 + (i / 4) * WINDOW } else { i };
        let (off, rot) = self.history(i);
        let (edges, qs) = long_graph();
        format!(
            "{}// prepare; one calculator: {}; then {} queries with sources [(0, WEIGHT_MAX)], targets [(0, WEIGHT_MAX)]; then {}",
            show_input(&edges),
            (0..BEFORE).map(|k| qs[rot[k]].show()).collect::<Vec<_>>().join(", "),
            (1u64 << 32) - BEFORE as u64 - 10 + off,
            (0..16).map(|k| qs[rot[(k * 5 + 1) % 6]].show()).collect::<Vec<_>>().join(", "),
        )
    }
}
