//! Graphs stored by a 64-bit process and loaded on the 32-bit platform, and the other way around.

use crate::families::*;
use crate::persist::observe;
use crate::queries::{check_answer, Oracle};
use crate::reference::*;
use crate::space::*;
use fast_paths::*;
use serde::{Deserialize, Serialize};

/// what the README shows
#[derive(Serialize, Deserialize)]
struct YourData {
    #[serde(serialize_with = "serialize_32", deserialize_with = "deserialize_32")]
    graph: FastGraph,
    after: u32,
}

pub struct Exchange {
    fam: Fam,
    /// totals may exceed 32 bits: only what the receiving platform promises is checked
    heavy: bool,
}

#[derive(Serialize, Deserialize)]
struct Record {
    bincode: Vec<u8>,
    json: String,
    /// empty: the graph was refused
    answers: Vec<u64>,
}

/// false: a violation, true: the machinery itself failed
pub type Failure = (bool, String);

const WAYS: u64 = 3;

/// the markers of `observe` are the largest numbers of the platform
fn wide(v: Vec<usize>) -> Vec<u64> {
    v.into_iter().map(|x| if x >= usize::MAX - 3 { u64::MAX - (usize::MAX - x) as u64 } else { x as u64 }).collect()
}

impl Exchange {
    pub fn name(&self) -> String {
        format!("exchange/{}{}", self.fam.name(), if self.heavy { "/heavy" } else { "" })
    }
    pub fn bounds(&self) -> String {
        format!(
            "{} graphs x 3 preparations, stored on 64 bit and loaded on 32 bit and vice versa, bincode and JSON",
            self.fam.len()
        )
    }
    pub fn len(&self) -> u64 {
        self.fam.len() * WAYS
    }
    fn prepare(&self, n: usize, input: &InputGraph, way: u64) -> Result<FastGraph, String> {
        let order: Vec<usize> = (0..n).map(|i| if way == 1 { i } else { (i * 2) % n + (i * 2 >= n && n % 2 == 0) as usize }).collect();
        match way {
            0 => Ok(prepare(input)),
            1 => prepare_with_order(input, &order),
            _ => prepare_with_order_with_params(input, &order, &ParamsWithOrder::new(0)),
        }
    }
    pub fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i / WAYS);
        format!(
            "{}// {}; stored with serialize_32, loaded with deserialize_32 on the other platform",
            show_input(&edges),
            [
                "prepare(&g)",
                "prepare_with_order(&g, identity)",
                "prepare_with_order_with_params(&g, even nodes first, 0)"
            ][(i % WAYS) as usize]
        )
    }
    /// prepares and stores the cases from..to
    pub fn export(&self, from: u64, to: u64, ctx: &mut Ctx, at: &mut dyn FnMut(u64)) -> Result<Vec<u8>, Failure> {
        let mut v = vec![];
        for i in from..to {
            at(i);
            let r = self.store(i, ctx).map_err(|(e, m)| (e, format!("storing case {}: {}", i, m)))?;
            v.push(r);
        }
        bincode::serialize(&v).map_err(|e| (true, e.to_string()))
    }
    fn store(&self, i: u64, ctx: &mut Ctx) -> Result<Record, Failure> {
        let bad = |m: String| (false, m);
        let (n, edges) = self.fam.edges(i / WAYS);
        let graph = attempt(|| self.prepare(n, &build_input(&edges), i % WAYS)).map_err(bad)?.map_err(bad)?;
        let answers = if self.heavy { vec![1] } else { wide(attempt(|| observe(&graph, ctx)).map_err(bad)?) };
        let data = YourData { graph, after: 77 };
        ctx.calls += 2;
        match attempt(|| (bincode::serialize(&data), serde_json::to_string(&data))) {
            Ok((Ok(bincode), Ok(json))) => Ok(Record { bincode, json, answers }),
            Ok((a, b)) => Err(bad(format!("serialization failed: {:?} {:?}", a.err(), b.err()))),
            // a shortcut does not fit into 32 bits
            Err(_) if self.heavy => Ok(Record { bincode: vec![], json: String::new(), answers: vec![] }),
            Err(m) => Err(bad(format!("serialize_32: {}", m))),
        }
    }
    /// loads the cases from..to, which the other platform stored
    pub fn import(
        &self,
        from: u64,
        to: u64,
        data: &[u8],
        ctx: &mut Ctx,
        at: &mut dyn FnMut(u64),
    ) -> Result<(), Failure> {
        let v: Vec<Record> = bincode::deserialize(data).map_err(|e| (true, e.to_string()))?;
        if v.len() as u64 != to - from {
            return Err((true, "wrong number of records".into()));
        }
        for (i, r) in (from..to).zip(v) {
            at(i);
            match attempt(|| self.load(i, &r, ctx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return Err((false, m)),
                Err(m) => return Err((false, format!("unexpected panic: {}", m))),
            }
        }
        Ok(())
    }
    fn load(&self, i: u64, r: &Record, ctx: &mut Ctx) -> CaseResult {
        ctx.traces += 1;
        // a total beyond 32 bits is unreachable on a 32-bit platform, so that graphs prepared there promise less
        if r.answers.is_empty() || self.heavy && usize::BITS == 64 {
            ctx.outcome(1);
            return Ok(());
        }
        let (n, edges) = self.fam.edges(i / WAYS);
        let a: YourData = bincode::deserialize(&r.bincode).map_err(|e| format!("bincode cannot be read: {}", e))?;
        let b: YourData = serde_json::from_str(&r.json).map_err(|e| format!("JSON cannot be read: {}", e))?;
        let reference = Ref::new(n, &edges);
        for (name, d) in [("bincode", &a), ("JSON", &b)] {
            if d.after != 77 {
                return Err(format!("{}: what follows the graph is damaged", name));
            }
            let g = &d.graph;
            if g.get_num_nodes() != n {
                return Err(format!("{}: {} nodes instead of {}", name, g.get_num_nodes(), n));
            }
            if !self.heavy {
                let got = wide(observe(g, ctx));
                ctx.states += (n * n) as u64;
                if got != r.answers {
                    return Err(format!(
                        "loaded from {}: observes differently (counts, ordering, all queries): {:?} instead of {:?}",
                        name, got, r.answers
                    ));
                }
            }
            let mut calc = create_calculator(g);
            let mut h = 0;
            for s in 0..n {
                for t in 0..n {
                    let p = calc.calc_path(g, s, t);
                    ctx.calls += 1;
                    for o in [Oracle::Dist, Oracle::Path] {
                        check_answer(o, &p, &reference, &[(s, 0)], &[(t, 0)], ctx, &mut h)
                            .map_err(|m| format!("loaded from {}: calc_path({}, {}): {}", name, s, t, m))?;
                    }
                }
            }
            ctx.outcome(h);
        }
        // stored again, it is the same
        let again = bincode::serialize(&a).map_err(|e| e.to_string())?;
        if again != r.bincode || serde_json::to_string(&b).map_err(|e| e.to_string())? != r.json {
            return Err("loaded and stored again, the graph differs".into());
        }
        Ok(())
    }
}

pub fn exchanges(deep: bool) -> Vec<Exchange> {
    let x = |fam: Fam| Exchange { fam, heavy: false };
    let h = |fam: Fam| Exchange { fam, heavy: true };
    const U: usize = u32::MAX as usize;
    let tops = |l: &[usize]| fixed("topologies", l.iter().flat_map(|n| topologies(*n)).collect());
    let mut v = vec![
        x(digraphs(2, &[1, 2, 3])),
        x(digraphs(3, &[1, 2, 3])),
        x(undirected(4, &[1, 2, 3])),
        x(digraphs(4, &[1])),
        x(tops(&[5, 6, 7, 8, 9, 10])),
        x(mapped(digraphs(3, &[1, 2]), &[1, 4, 6])),
        x(raw(&[0, 1, 2], &[0, 1, 2], 2)),
        // sums just below the limit of 32 bits
        x(digraphs(3, &[1, U / 2 - 4, U / 2 - 3])),
        x(digraphs(3, &[1 << 30, (1 << 30) + 1, U / 3])),
        // single weights just below it, and sums beyond it
        h(digraphs(3, &[1, U / 2, U - 1])),
        h(undirected(4, &[U / 3, U / 2 + 1])),
        h(digraphs(3, &[U / 3, U / 2, U / 2 + 1])),
    ];
    if deep {
        v.push(x(digraphs(4, &[1, 2])));
        v.push(x(undirected(5, &[1, 2])));
        v.push(h(undirected(4, &[1, U / 3, U / 2, U / 2 + 1, U - 1])));
    }
    v
}
