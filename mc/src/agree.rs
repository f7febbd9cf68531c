//! C24: the different ways to ask for the same thing agree; C25: stored graphs that arrive incomplete.

use crate::engine::*;
use crate::families::*;
use crate::files::scratch;
use crate::persist::{bytes, observe};
use crate::reference::*;
use crate::reuse::answer;
use fast_paths::*;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read, Write};

const M: usize = usize::MAX;

#[derive(Serialize, Deserialize)]
struct Wrapped {
    #[serde(serialize_with = "serialize_32", deserialize_with = "deserialize_32")]
    graph: FastGraph,
}

/// the preparations, queries and conversions that exist twice
pub struct Agree {
    pub fam: Fam,
}

fn equal<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> CaseResult {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: {:?} and {:?}", what, a, b))
    }
}

fn equal_bytes(what: &str, a: &FastGraph, b: &FastGraph) -> CaseResult {
    if bytes(a) == bytes(b) {
        Ok(())
    } else {
        Err(format!("{}: the prepared graphs differ", what))
    }
}

impl Agree {
    fn preparations(&self, n: usize, input: &InputGraph, ctx: &mut Ctx) -> Result<Vec<FastGraph>, String> {
        let g = prepare(input);
        equal_bytes("prepare and prepare_with_params with default parameters", &g, &prepare_with_params(input, &Params::default()))?;
        equal_bytes("prepare and FastGraphBuilder::build", &g, &FastGraphBuilder::build(input))?;
        equal_bytes(
            "prepare and FastGraphBuilder::build_with_params",
            &g,
            &FastGraphBuilder::build_with_params(input, &Params::default()),
        )?;
        let mut v = vec![g];
        for p in [Params::new(0.0, 0, 0, 0), Params::new(2.0, 1, if n < 200 { M } else { 30 }, 2), Params::new(0.1, 3, 2, 1)] {
            let a = prepare_with_params(input, &p);
            equal_bytes("prepare_with_params and FastGraphBuilder", &a, &FastGraphBuilder::build_with_params(input, &p))?;
            v.push(a);
        }
        let down: Vec<usize> = (0..n).rev().collect();
        let split: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
        for o in [&down, &split] {
            let a = prepare_with_order(input, o)?;
            let b = prepare_with_order_with_params(input, o, &ParamsWithOrder::default())?;
            equal_bytes("prepare_with_order with and without default parameters", &a, &b)?;
            equal_bytes("prepare_with_order and FastGraphBuilder", &a, &FastGraphBuilder::build_with_order(input, o)?)?;
            v.push(a);
            for budget in [0, 1, if n < 200 { M } else { 30 }] {
                let p = ParamsWithOrder::new(budget);
                let a = prepare_with_order_with_params(input, o, &p)?;
                let b = FastGraphBuilder::build_with_order_with_params(input, o, &p)?;
                equal_bytes("prepare_with_order_with_params and FastGraphBuilder", &a, &b)?;
                v.push(a);
            }
        }
        ctx.calls += 20;
        Ok(v)
    }

    fn queries(&self, n: usize, g: &FastGraph, ctx: &mut Ctx) -> CaseResult {
        let ids: Vec<usize> = (0..n).filter(|s| n <= 12 || s % (n / 8) == 0 || s + 1 == n).collect();
        let mut calc = create_calculator(g);
        let mut own = PathCalculator::new(n);
        let mut h = 0;
        for &s in &ids {
            for &t in &ids {
                let a = answer(calc.calc_path(g, s, t));
                let q = |w: &str| format!("calc_path({}, {}) of a calculator and {}", s, t, w);
                equal(&q("the stand-alone function"), &a, &answer(calc_path(g, s, t)))?;
                equal(&q("PathCalculator::new"), &a, &answer(own.calc_path(g, s, t)))?;
                let many = answer(calc.calc_path_multiple_sources_and_targets(g, vec![(s, 0)], vec![(t, 0)]));
                equal(&q("the same with one source and one target"), &a, &many)?;
                let many = answer(calc_path_multiple_sources_and_targets(g, vec![(s, 0)], vec![(t, 0)]));
                equal(&q("the stand-alone one with one source and one target"), &a, &many)?;
                let (x, y) = (vec![(s, 4), (t, 9), (s, M)], vec![(t, 1), ((t + 1) % n, 3)]);
                let m1 = answer(calc.calc_path_multiple_sources_and_targets(g, x.clone(), y.clone()));
                let m2 = answer(calc_path_multiple_sources_and_targets(g, x.clone(), y.clone()));
                let m3 = answer(own.calc_path_multiple_sources_and_targets(g, x.clone(), y.clone()));
                equal(&format!("sources {:?}, targets {:?}: calculator and stand-alone function", x, y), &m1, &m2)?;
                equal(&format!("sources {:?}, targets {:?}: calculator and PathCalculator::new", x, y), &m1, &m3)?;
                ctx.calls += 8;
                ctx.states += 2;
                ctx.nontrivial += a.is_some() as u64;
                h = mix(h, a.map_or(1, |a| a.2 as u64));
            }
        }
        ctx.outcome(h);
        equal("get_node_ordering", g.get_node_ordering(), get_node_ordering(g))
    }

    fn conversions(&self, g: &FastGraph, ctx: &mut Ctx) -> CaseResult {
        let direct = attempt(|| FastGraph32::new(g));
        let wrapped = attempt(|| bincode::serialize(&Wrapped { graph: g.clone() }).map_err(|e| e.to_string()));
        ctx.calls += 2;
        match (direct, wrapped) {
            (Ok(f), Ok(Ok(w))) => {
                let d = bincode::serialize(&f).map_err(|e| e.to_string())?;
                equal("serialize_32 and FastGraph32::new: stored bytes", &w, &d)?;
                let a: Wrapped = bincode::deserialize(&d).map_err(|e| format!("deserialize_32: {}", e))?;
                let b: FastGraph32 = bincode::deserialize(&w).map_err(|e| format!("FastGraph32: {}", e))?;
                let c = f.clone().convert_to_usize();
                equal_bytes("deserialize_32 and FastGraph32::deserialize", &a.graph, &b.convert_to_usize())?;
                equal_bytes("deserialize_32 and convert_to_usize", &a.graph, &c)?;
                equal_bytes("the 32-bit representation and a copy of it", &c, &f.convert_to_usize())?;
                let j1 = serde_json::to_value(Wrapped { graph: g.clone() }).map_err(|e| e.to_string())?;
                let j2 = serde_json::to_value(FastGraph32::new(g)).map_err(|e| e.to_string())?;
                equal("serialize_32 and FastGraph32::new: JSON", &j1["graph"], &j2)
            }
            (Err(_), Err(_)) | (Err(_), Ok(Err(_))) => Ok(()),
            (a, b) => Err(format!("FastGraph32::new succeeds: {}, serialize_32: {:?}", a.is_ok(), b.map(|b| b.map(|b| b.len())))),
        }
    }

    fn input(&self, edges: &[E], input: &InputGraph, ctx: &mut Ctx) -> CaseResult {
        let mut both = InputGraph::new();
        let mut single = InputGraph::new();
        for e in edges {
            let a = both.add_edge_bidir(e.0, e.1, e.2);
            let b = single.add_edge(e.0, e.1, e.2) + single.add_edge(e.1, e.0, e.2);
            equal("add_edge_bidir and two times add_edge: number of edges", a, b)?;
        }
        both.freeze();
        single.freeze();
        let b = |g: &InputGraph| bincode::serialize(g).expect("src/ serialization");
        let l = |g: &InputGraph| -> Vec<E> { g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect() };
        equal("add_edge_bidir and two times add_edge", l(&both), l(&single))?;
        equal("add_edge_bidir and two times add_edge: stored", b(&both), b(&single))?;
        let mut again = input.clone();
        equal("an input graph and a copy", b(input), b(&again))?;
        again.thaw();
        again.freeze();
        equal("an input graph and the same one thawed and frozen", b(input), b(&again))?;
        // with nodes without edges, which only a file can have
        let path = scratch();
        let arcs: String = input.get_edges().iter().map(|e| format!("a {} {} {}\n", e.from + 1, e.to + 1, e.weight)).collect();
        let (n, m) = (input.get_num_nodes() + 2, input.get_num_edges());
        std::fs::write(&path, format!("p sp {} {}\n{}", n, m, arcs)).expect("src/ scratch file");
        let file = InputGraph::from_dimacs_file(&path);
        std::fs::remove_file(&path).expect("src/ scratch file");
        let mut again2 = file.clone();
        again2.thaw();
        again2.freeze();
        equal("a graph from a DIMACS file, thawed and frozen", b(&file), b(&again2))?;
        equal("a graph from a DIMACS file and one that was built: edges", l(&file), l(input))?;
        equal("number of nodes", file.get_num_nodes(), n)?;
        equal("number of edges", input.get_num_edges(), input.get_edges().len())?;
        equal_bytes("preparing two equal input graphs", &prepare(input), &prepare(&again))?;
        ctx.calls += 3 * edges.len() as u64 + 10;
        Ok(())
    }
}

impl Space for Agree {
    fn name(&self) -> String {
        format!("agree/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn chunk(&self) -> u64 {
        8
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        format!("{} graphs x 12 preparations x all ways to query (pairs, lists), convert, copy and build them", self.fam.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (n, edges) = self.fam.edges(i);
        let input = build_input(&edges);
        self.input(&edges, &input, ctx)?;
        for (k, g) in self.preparations(n, &input, ctx)?.iter().enumerate() {
            let here = |m: String| format!("preparation {}: {}", k, m);
            equal_bytes("a prepared graph and a copy", g, &g.clone()).map_err(here)?;
            if k % 3 == 0 || n <= 3 {
                self.queries(n, g, ctx).map_err(here)?;
            }
            self.conversions(g, ctx).map_err(here)?;
            ctx.traces += 1;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!("{}// every way to prepare, query, convert, copy and build it", show_input(&edges))
    }
}

// ---------------------------------------------------------------------------------------------

/// What happens at byte number `at` of a stream that transfers `step` bytes per call
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// the stream ends
    End,
    /// an error
    Error,
    /// every call is interrupted once
    Interrupted,
}

struct Stream {
    data: Vec<u8>,
    pos: usize,
    at: usize,
    step: usize,
    fault: Fault,
    odd: bool,
}

impl Stream {
    fn new(data: Vec<u8>, at: usize, step: usize, fault: Fault) -> Stream {
        Stream { data, pos: 0, at, step, fault, odd: false }
    }
    /// bytes that may be transferred now
    fn room(&mut self, want: usize) -> io::Result<usize> {
        if self.fault == Fault::Interrupted {
            self.odd = !self.odd;
            if self.odd {
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        let left = self.at - self.pos;
        if left == 0 && want > 0 {
            return if self.fault == Fault::Error { Err(io::Error::from_raw_os_error(5)) } else { Ok(0) };
        }
        Ok(want.min(left).min(self.step))
    }
}

impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.room(b.len())?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.room(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Storing through writers that fail, and loading what is incomplete, for each position
pub struct Partial {
    pub fam: Fam,
}

/// kinds of stored objects
const OBJECTS: u64 = 4;
const FORMATS: u64 = 2;

enum Stored {
    Fast(FastGraph),
    Wrapped(Wrapped),
    Small(FastGraph32),
    Input(InputGraph),
}

impl Stored {
    fn make(kind: u64, edges: &[E]) -> Stored {
        let input = build_input(edges);
        match kind {
            0 => Stored::Fast(prepare(&input)),
            1 => Stored::Wrapped(Wrapped { graph: prepare(&input) }),
            2 => Stored::Small(FastGraph32::new(&prepare(&input))),
            _ => Stored::Input(input),
        }
    }
    fn store(&self, json: bool, w: impl Write) -> Result<(), String> {
        fn f<T: Serialize>(x: &T, json: bool, w: impl Write) -> Result<(), String> {
            if json {
                serde_json::to_writer(w, x).map_err(|e| e.to_string())
            } else {
                bincode::serialize_into(w, x).map_err(|e| e.to_string())
            }
        }
        match self {
            Stored::Fast(x) => f(x, json, w),
            Stored::Wrapped(x) => f(x, json, w),
            Stored::Small(x) => f(x, json, w),
            Stored::Input(x) => f(x, json, w),
        }
    }
    fn load(kind: u64, json: bool, r: impl Read) -> Result<Stored, String> {
        fn f<T: for<'a> Deserialize<'a>>(json: bool, r: impl Read) -> Result<T, String> {
            if json {
                serde_json::from_reader(r).map_err(|e| e.to_string())
            } else {
                bincode::deserialize_from(r).map_err(|e| e.to_string())
            }
        }
        Ok(match kind {
            0 => Stored::Fast(f(json, r)?),
            1 => Stored::Wrapped(f(json, r)?),
            2 => Stored::Small(f(json, r)?),
            _ => Stored::Input(f(json, r)?),
        })
    }
    fn load_slice(kind: u64, json: bool, b: &[u8]) -> Result<Stored, String> {
        fn f<'a, T: Deserialize<'a>>(json: bool, b: &'a [u8]) -> Result<T, String> {
            if json {
                serde_json::from_slice(b).map_err(|e| e.to_string())
            } else {
                bincode::deserialize(b).map_err(|e| e.to_string())
            }
        }
        Ok(match kind {
            0 => Stored::Fast(f(json, b)?),
            1 => Stored::Wrapped(f(json, b)?),
            2 => Stored::Small(f(json, b)?),
            _ => Stored::Input(f(json, b)?),
        })
    }
    fn load_value(kind: u64, v: serde_json::Value) -> Result<Stored, String> {
        fn f<T: for<'a> Deserialize<'a>>(v: serde_json::Value) -> Result<T, String> {
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        Ok(match kind {
            0 => Stored::Fast(f(v)?),
            1 => Stored::Wrapped(f(v)?),
            2 => Stored::Small(f(v)?),
            _ => Stored::Input(f(v)?),
        })
    }
    fn bytes(&self, json: bool) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        self.store(json, &mut v)?;
        Ok(v)
    }
    fn observe(&self, ctx: &mut Ctx) -> Vec<usize> {
        match self {
            Stored::Fast(g) | Stored::Wrapped(Wrapped { graph: g }) => observe(g, ctx),
            Stored::Small(f) => observe(&f.clone().convert_to_usize(), ctx),
            Stored::Input(g) => {
                let mut v = vec![g.get_num_nodes()];
                v.extend(g.get_edges().iter().flat_map(|e| [e.from, e.to, e.weight]));
                v
            }
        }
    }
}

/// every way to leave out or spoil one part of a JSON document: a member of an object is missing, a number is
/// replaced by something that is no node, edge or weight
fn spoiled(v: &serde_json::Value, small: bool) -> Vec<(String, serde_json::Value)> {
    use serde_json::{json, Value};
    let mut out = vec![];
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let mut w = m.clone();
                w.remove(k);
                out.push((format!("without {:?}", k), Value::Object(w)));
                for (what, y) in spoiled(x, small) {
                    let mut w = m.clone();
                    w.insert(k.clone(), y);
                    out.push((format!("{:?}: {}", k, what), Value::Object(w)));
                }
                // a wrong type
                let wrong: Vec<Value> = if x.is_array() {
                    vec![json!(3), json!({}), json!("x"), Value::Null]
                } else if x.is_boolean() {
                    vec![json!(1), json!("true"), Value::Null]
                } else {
                    vec![]
                };
                for y in wrong {
                    let mut w = m.clone();
                    w.insert(k.clone(), y.clone());
                    out.push((format!("{:?} is {}", k, y), Value::Object(w)));
                }
            }
        }
        Value::Array(l) => {
            // the first and the last entry
            for i in [0, l.len().wrapping_sub(1)] {
                if i < l.len() {
                    for (what, y) in spoiled(&l[i], small) {
                        let mut w = l.clone();
                        w[i] = y;
                        out.push((format!("entry {}: {}", i, what), Value::Array(w)));
                    }
                }
            }
        }
        Value::Number(_) => {
            let mut bad = vec![json!(-1), json!(1.5), json!("1"), json!(true), json!([]), Value::Null];
            bad.push(json!(18446744073709551616.0f64));
            if small {
                bad.push(json!(1u64 << 32));
                bad.push(json!((1u64 << 32) + 1));
                bad.push(json!(u64::MAX));
            }
            out.extend(bad.into_iter().map(|b| (format!("{} instead of {}", b, v), b.clone())));
        }
        _ => {}
    }
    out
}

impl Partial {
    fn faults(&self, kind: u64, json: bool, edges: &[E], ctx: &mut Ctx) -> CaseResult {
        let x = Stored::make(kind, edges);
        let want = x.observe(ctx);
        let whole = x.bytes(json)?;
        let n = whole.len();
        ctx.calls += 2;
        // complete transfers in small and interrupted pieces
        for (step, fault) in [(1, Fault::None), (3, Fault::None), (7, Fault::Interrupted), (n, Fault::Interrupted)] {
            let mut w = Stream::new(vec![], M, step, fault);
            let r = attempt(|| x.store(json, &mut w));
            if r != Ok(Ok(())) || w.data != whole {
                return Err(format!("storing in pieces of {} bytes ({:?}): {:?}, other bytes than at once", step, fault, r));
            }
            let r = attempt(|| Stored::load(kind, json, Stream::new(whole.clone(), n, step, fault)));
            match r {
                Ok(Ok(y)) => {
                    if y.observe(ctx) != want || y.bytes(json)? != whole {
                        return Err(format!("loading in pieces of {} bytes ({:?}): a different graph", step, fault));
                    }
                }
                Ok(Err(m)) | Err(m) => {
                    return Err(format!("loading in pieces of {} bytes ({:?}) fails: {}", step, fault, m))
                }
            }
            ctx.calls += 2;
            ctx.states += 2;
        }
        for at in 0..n {
            for fault in [Fault::End, Fault::Error] {
                let mut w = Stream::new(vec![], at, 1 + at % 9, fault);
                match attempt(|| x.store(json, &mut w)) {
                    Ok(Ok(())) => {
                        return Err(format!("storing reports success although only {} of {} bytes could be written", at, n))
                    }
                    Err(m) => return Err(format!("storing panics when byte {} cannot be written: {}", at, m)),
                    Ok(Err(_)) => {}
                }
                if w.data != whole[..at] {
                    return Err(format!("what is stored before byte {} fails is not the beginning of the whole", at));
                }
                match attempt(|| Stored::load(kind, json, Stream::new(whole.clone(), at, 1 + at % 9, fault)).err()) {
                    Ok(None) => return Err(format!("a graph is loaded from the first {} of {} bytes ({:?})", at, n, fault)),
                    Err(m) => return Err(format!("loading panics when byte {} cannot be read ({:?}): {}", at, fault, m)),
                    Ok(Some(_)) => {}
                }
                ctx.calls += 2;
                ctx.states += 2;
                ctx.nontrivial += 2;
            }
            match attempt(|| Stored::load_slice(kind, json, &whole[..at]).err()) {
                Ok(None) => return Err(format!("a graph is loaded from a slice with the first {} of {} bytes", at, n)),
                Err(m) => return Err(format!("loading the first {} of {} bytes panics: {}", at, n, m)),
                Ok(Some(_)) => {}
            }
            ctx.calls += 1;
        }
        if x.bytes(json)? != whole || x.observe(ctx) != want {
            return Err("the graph has changed after it could not be stored".into());
        }
        Ok(())
    }

    fn spoil(&self, kind: u64, edges: &[E], ctx: &mut Ctx) -> CaseResult {
        let x = Stored::make(kind, edges);
        let v: serde_json::Value = serde_json::from_slice(&x.bytes(true)?).map_err(|e| e.to_string())?;
        for (what, y) in spoiled(&v, kind == 1 || kind == 2) {
            let text = y.to_string();
            for tree in [false, true] {
                let r = attempt(|| {
                    if tree {
                        Stored::load_value(kind, y.clone()).err()
                    } else {
                        Stored::load_slice(kind, true, text.as_bytes()).err()
                    }
                });
                match r {
                    Ok(None) => return Err(format!("a graph is loaded from JSON with {}", what)),
                    Err(m) => return Err(format!("loading JSON with {} panics: {}", what, m)),
                    Ok(Some(_)) => {}
                }
                ctx.calls += 1;
                ctx.states += 1;
                ctx.nontrivial += 1;
            }
        }
        Ok(())
    }

    fn split(&self, i: u64) -> (u64, u64, (usize, Vec<E>)) {
        (i % OBJECTS, i / OBJECTS % (FORMATS + 1), self.fam.edges(i / OBJECTS / (FORMATS + 1)))
    }
}

impl Space for Partial {
    fn name(&self) -> String {
        format!("partial/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * OBJECTS * (FORMATS + 1)
    }
    fn chunk(&self) -> u64 {
        4
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x prepared, 32-bit helper, 32-bit, input graph x (bincode, JSON: every byte position at which writing or reading ends or fails, pieces, interruptions; every JSON part missing or mistyped)",
            self.fam.len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (kind, f, (_, edges)) = self.split(i);
        ctx.traces += 1;
        ctx.outcome(i % 1000);
        if f == FORMATS {
            self.spoil(kind, &edges, ctx)
        } else {
            self.faults(kind, f == 1, &edges, ctx)
        }
    }
    fn describe(&self, i: u64) -> String {
        let (kind, f, (_, edges)) = self.split(i);
        format!(
            "{}// {} as {}",
            show_input(&edges),
            ["prepare(&g)", "a struct with serialize_32/deserialize_32", "FastGraph32", "the input graph"][kind as usize],
            ["bincode through faulty streams", "JSON through faulty streams", "JSON with parts missing or mistyped"][f as usize]
        )
    }
}
