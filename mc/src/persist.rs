//! C07 (serialization), C08 (32-bit representation), C10 (determinism), C18 (re-preparation).

use crate::engine::*;
use crate::families::*;
use crate::queries::ParamSet;
use crate::reference::*;
use fast_paths::*;
use serde::{Deserialize, Serialize};

/// Everything a user can observe of a prepared graph
pub fn observe(g: &FastGraph, ctx: &mut Ctx) -> Vec<usize> {
    let n = g.get_num_nodes();
    let mut v = vec![n, g.get_num_out_edges(), g.get_num_in_edges()];
    v.extend(g.get_node_ordering());
    v.push(usize::MAX - 1);
    let mut calc = create_calculator(g);
    let put = |v: &mut Vec<usize>, p: Option<ShortestPath>| match p {
        None => v.push(usize::MAX - 2),
        Some(p) => {
            v.push(p.get_source());
            v.push(p.get_target());
            v.push(p.get_weight());
            v.extend(p.get_nodes());
            v.push(usize::MAX - 3);
        }
    };
    // all pairs, in graphs with more than 140 nodes those of some 20 sources
    let sources = |n: usize| (0..n).filter(move |s| n <= 140 || s % (n / 16) == 0 || *s + 2 >= n);
    for s in sources(n) {
        for t in (0..n).filter(|t| n <= 2100 || t % (n / 40) == 0 || t + 3 >= n) {
            put(&mut v, calc.calc_path(g, s, t));
            ctx.calls += 1;
        }
    }
    if n > 2 {
        for s in sources(n - 1) {
            put(
                &mut v,
                calc.calc_path_multiple_sources_and_targets(
                    g,
                    vec![(s, 2), (s + 1, 0)],
                    vec![((s + 2) % n, 0), (0, 1)],
                ),
            );
            ctx.calls += 1;
        }
    }
    v
}

pub fn bytes(g: &FastGraph) -> Vec<u8> {
    bincode::serialize(g).expect("serialization failed")
}

pub fn same(what: &str, a: &[usize], b: &[usize]) -> CaseResult {
    if a == b {
        Ok(())
    } else {
        Err(format!("{} observes differently (counts, ordering, all queries): {:?} instead of {:?}", what, b, a))
    }
}

pub enum Config {
    Default,
    Set(ParamSet),
    Order(u64, usize),
}

pub fn prepare_as(input: &InputGraph, n: usize, c: &Config) -> Result<FastGraph, String> {
    match c {
        Config::Default => Ok(prepare(input)),
        Config::Set(p) => Ok(prepare_with_params(input, &p.params())),
        Config::Order(k, b) => {
            prepare_with_order_with_params(input, &permutation(n, *k % factorial(n)), &ParamsWithOrder::new(*b))
        }
    }
}
pub fn show_config(n: usize, c: &Config) -> String {
    match c {
        Config::Default => "prepare(&g)".into(),
        Config::Set(p) => format!("prepare_with_params(&g, &{})", p.show()),
        Config::Order(k, b) => format!(
            "prepare_with_order_with_params(&g, &{:?}, &ParamsWithOrder::new({}))",
            permutation(n, *k % factorial(n)),
            b
        ),
    }
}

// ---------------------------------------------------------------------------------------------

pub struct SerdeFast {
    pub fam: Fam,
    pub configs: Vec<Config>,
}

impl Space for SerdeFast {
    fn name(&self) -> String {
        format!("serde-fastgraph/{}/{} configurations", self.fam.name(), self.configs.len())
    }
    fn len(&self) -> u64 {
        self.fam.len() * self.configs.len() as u64
    }
    fn bounds(&self) -> String {
        format!("{} prepared graphs x bincode, JSON, JSON tree, and chains of them", self.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let c = &self.configs[(i % self.configs.len() as u64) as usize];
        let (n, edges) = self.fam.edges(i / self.configs.len() as u64);
        let input = build_input(&edges);
        let g = prepare_as(&input, n, c)?;
        let want = observe(&g, ctx);
        let b = bytes(&g);
        // bincode with fixed and variable integers
        let g1: FastGraph = bincode::deserialize(&b).map_err(|e| format!("bincode cannot read it back: {}", e))?;
        same("the graph read back from bincode", &want, &observe(&g1, ctx))?;
        if bytes(&g1) != b {
            return Err("re-serializing the graph read from bincode gives other bytes".into());
        }
        {
            use bincode::Options;
            let o = bincode::DefaultOptions::new().with_big_endian();
            let v = o.serialize(&g).map_err(|e| e.to_string())?;
            let x: FastGraph = o.deserialize(&v).map_err(|e| format!("bincode (varint) cannot read it back: {}", e))?;
            if bytes(&x) != b {
                return Err("the graph read from bincode (varint) serializes differently".into());
            }
        }
        let j = serde_json::to_string(&g1).map_err(|e| e.to_string())?;
        let g2: FastGraph = serde_json::from_str(&j).map_err(|e| format!("JSON cannot be read back: {}", e))?;
        same("the graph read back from JSON", &want, &observe(&g2, ctx))?;
        if serde_json::to_string(&g2).map_err(|e| e.to_string())? != j || bytes(&g2) != b {
            return Err("re-serializing the graph read from JSON gives another text".into());
        }
        // a self-describing tree with sorted field names
        let t = serde_json::to_value(&g).map_err(|e| e.to_string())?;
        let g3: FastGraph =
            serde_json::from_value(t.clone()).map_err(|e| format!("JSON tree cannot be read back: {}", e))?;
        if bytes(&g3) != b || serde_json::to_value(&g3).map_err(|e| e.to_string())? != t {
            return Err("the graph read from a JSON tree serializes differently".into());
        }
        // the original is unchanged
        if bytes(&g) != b {
            return Err("serializing or querying changed the graph".into());
        }
        if bytes(&g.clone()) != b {
            return Err("a clone serializes differently".into());
        }
        ctx.calls += 12;
        ctx.states += 5;
        ctx.traces += 1;
        if g.get_num_out_edges() + g.get_num_in_edges() > edges.len() {
            ctx.nontrivial += 1;
        }
        ctx.outcome(want.iter().fold(0, |h, x| mix(h, *x as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let c = &self.configs[(i % self.configs.len() as u64) as usize];
        let (n, edges) = self.fam.edges(i / self.configs.len() as u64);
        format!(
            "{}let fg = {};\n// serialize (bincode, serde_json), deserialize, compare all queries, serialize again",
            show_input(&edges),
            show_config(n, c)
        )
    }
}

/// Input graphs: raw edge lists x {not frozen, frozen, thawed, frozen-thawed-extended}
pub struct SerdeInput {
    pub fam: Fam,
}

fn input_view(g: &InputGraph) -> String {
    match attempt(|| {
        (
            g.get_num_nodes(),
            g.get_num_edges(),
            g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect::<Vec<_>>(),
        )
    }) {
        Ok(x) => format!("frozen {:?}", x),
        Err(_) => format!("not frozen {:?}", g.unit_test_output_string()),
    }
}

impl Space for SerdeInput {
    fn name(&self) -> String {
        format!("serde-inputgraph/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * 4
    }
    fn bounds(&self) -> String {
        format!("{} edge lists x 4 editing states x bincode, JSON", self.fam.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (_, edges) = self.fam.edges(i / 4);
        let state = i % 4;
        let mut g = InputGraph::new();
        for e in &edges {
            g.add_edge(e.0, e.1, e.2);
        }
        if state > 0 {
            g.freeze();
        }
        if state > 1 {
            g.thaw();
        }
        if state > 2 {
            g.add_edge(1, 0, 1);
            g.add_edge(4, 1, 3);
        }
        let b = bincode::serialize(&g).map_err(|e| e.to_string())?;
        let x: InputGraph = bincode::deserialize(&b).map_err(|e| e.to_string())?;
        let j = serde_json::to_string(&g).map_err(|e| e.to_string())?;
        let y: InputGraph = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        ctx.calls += edges.len() as u64 + 8;
        ctx.states += 4;
        ctx.traces += 1;
        let want = input_view(&g);
        for (name, mut z) in [("bincode", x), ("JSON", y)] {
            if input_view(&z) != want {
                return Err(format!("restored from {}: {} instead of {}", name, input_view(&z), want));
            }
            if bincode::serialize(&z).map_err(|e| e.to_string())? != b {
                return Err(format!("restored from {}: serializes differently", name));
            }
            // both continue alike
            let mut o = g.clone();
            for h in [&mut o, &mut z] {
                if state == 1 {
                    h.thaw();
                }
                h.add_edge(2, 0, 2);
                h.add_edge(0, 2, 1);
                h.freeze();
            }
            if input_view(&o) != input_view(&z) {
                return Err(format!(
                    "restored from {} and edited further: {} instead of {}",
                    name,
                    input_view(&z),
                    input_view(&o)
                ));
            }
            if bytes(&prepare(&o)) != bytes(&prepare(&z)) {
                return Err(format!("restored from {}: prepares differently", name));
            }
        }
        if want.len() > 20 {
            ctx.nontrivial += 1;
        }
        ctx.outcome(want.bytes().fold(0, |h, x| mix(h, x as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i / 4);
        format!(
            "{}// {}; then serialize and deserialize",
            show_input(&edges).replace("g.freeze();\n", ""),
            [
                "not frozen",
                "g.freeze()",
                "g.freeze(); g.thaw()",
                "g.freeze(); g.thaw(); g.add_edge(1, 0, 1); g.add_edge(4, 1, 3)"
            ][(i % 4) as usize]
        )
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct As32 {
    #[serde(serialize_with = "serialize_32", deserialize_with = "deserialize_32")]
    g: FastGraph,
}

pub fn fits(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::Number(x) => match x.as_u64() {
            Some(x) => x < u32::MAX as u64 || x == u64::MAX,
            None => true,
        },
        serde_json::Value::Array(a) => a.iter().all(fits),
        serde_json::Value::Object(o) => o.values().all(fits),
        _ => true,
    }
}

pub struct ThirtyTwo {
    pub fam: Fam,
    pub configs: Vec<Config>,
}

impl Space for ThirtyTwo {
    fn name(&self) -> String {
        format!("32bit/{}/{} configurations", self.fam.name(), self.configs.len())
    }
    fn len(&self) -> u64 {
        self.fam.len() * self.configs.len() as u64
    }
    fn bounds(&self) -> String {
        format!("{} prepared graphs x direct conversion, serialize_32/deserialize_32 with bincode and JSON", self.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let c = &self.configs[(i % self.configs.len() as u64) as usize];
        let (n, edges) = self.fam.edges(i / self.configs.len() as u64);
        let g = prepare_as(&build_input(&edges), n, c)?;
        let want = observe(&g, ctx);
        let must = fits(&serde_json::to_value(&g).map_err(|e| e.to_string())?);
        ctx.traces += 1;
        ctx.states += 1;
        // every way there, all must agree
        let direct = attempt(|| FastGraph32::new(&g));
        ctx.calls += 1;
        match direct {
            Err(m) => {
                if must {
                    return Err(format!("refused although every value fits: {}", m));
                }
                ctx.nontrivial += 1;
            }
            Ok(g32) => {
                let b32 = bincode::serialize(&g32).map_err(|e| e.to_string())?;
                let back = g32.convert_to_usize();
                same("the graph converted to 32 bit and back", &want, &observe(&back, ctx))?;
                if bytes(&back) != bytes(&g) {
                    return Err("the graph converted to 32 bit and back serializes differently".into());
                }
                let again: FastGraph32 = bincode::deserialize(&b32).map_err(|e| e.to_string())?;
                same("the graph stored as FastGraph32", &want, &observe(&again.convert_to_usize(), ctx))?;
                if must {
                    ctx.nontrivial += 1;
                }
                ctx.calls += 6;
                ctx.states += 2;
            }
        }
        let holder = As32 { g };
        match attempt(|| bincode::serialize(&holder)) {
            Err(m) => {
                if must {
                    return Err(format!("serialize_32 refused although every value fits: {}", m));
                }
            }
            Ok(Err(e)) => {
                if must {
                    return Err(format!("serialize_32 failed although every value fits: {}", e));
                }
            }
            Ok(Ok(b)) => {
                let x: As32 = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                same("the graph stored with serialize_32 (bincode)", &want, &observe(&x.g, ctx))?;
                let j = serde_json::to_string(&holder).map_err(|e| e.to_string())?;
                let x: As32 = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                same("the graph stored with serialize_32 (JSON)", &want, &observe(&x.g, ctx))?;
                ctx.calls += 4;
                ctx.states += 2;
            }
        }
        ctx.outcome(want.iter().fold(0, |h, x| mix(h, *x as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let c = &self.configs[(i % self.configs.len() as u64) as usize];
        let (n, edges) = self.fam.edges(i / self.configs.len() as u64);
        format!(
            "{}let fg = {};\n// FastGraph32::new(&fg).convert_to_usize(), serialize_32/deserialize_32; compare all queries",
            show_input(&edges),
            show_config(n, c)
        )
    }
}

// ---------------------------------------------------------------------------------------------
// C10

/// raw lists against the canonical list of the same graph
pub struct RawVsCanonical {
    pub fam: Fam,
    pub configs: Vec<Config>,
}

fn canonical(edges: &[E]) -> Vec<E> {
    let mut v: Vec<E> = edges.iter().cloned().filter(accepted).collect();
    v.sort();
    v.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    v
}

impl Space for RawVsCanonical {
    fn name(&self) -> String {
        format!("insertion-order/{}/{} configurations", self.fam.name(), self.configs.len())
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn bounds(&self) -> String {
        format!(
            "{} raw edge lists against the sorted list without dropped edges x {} configurations",
            self.fam.len(),
            self.configs.len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (n, edges) = self.fam.edges(i);
        let canon = canonical(&edges);
        let a = build_input(&edges);
        let b = build_input(&canon);
        if a.get_num_nodes() != n || b.get_num_nodes() != n {
            return Err("wrong node count".into());
        }
        for c in &self.configs {
            let x = bytes(&prepare_as(&a, n, c)?);
            let y = bytes(&prepare_as(&b, n, c)?);
            ctx.calls += 4 + edges.len() as u64 + canon.len() as u64;
            ctx.states += 2;
            ctx.traces += 1;
            if x != y {
                return Err(format!("prepared from {:?} and from {:?} differ [{}]", edges, canon, show_config(n, c)));
            }
            ctx.outcome(x.iter().fold(0, |h, x| mix(h, *x as u64)));
        }
        if canon != edges {
            ctx.nontrivial += 1;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!(
            "{}// compare the bytes of the prepared graph with those for\n{}",
            show_input(&edges),
            show_input(&canonical(&edges))
        )
    }
}

/// all permutations of a fixed edge list
pub struct Permuted {
    pub label: &'static str,
    pub list: Vec<E>,
}
impl Family for Permuted {
    fn name(&self) -> String {
        format!("permutations({},{} edges)", self.label, self.list.len())
    }
    fn len(&self) -> u64 {
        factorial(self.list.len())
    }
    fn get(&self, i: u64, out: &mut Vec<E>) {
        out.clear();
        out.extend(permutation(self.list.len(), i).into_iter().map(|k| self.list[k]));
    }
    fn max_nodes(&self) -> usize {
        node_count(&self.list)
    }
}

/// Hash seeds are answers of the environment: std obtains them per thread from getrandom(2), which is interposed in
/// this binary (see seam.rs). Every case prepares in a new thread whose seed is dictated by the harness.
pub struct Seeds {
    pub fam: Fam,
    pub seeds: u64,
}

pub fn prepare_with_seed(edges: &[E], seed: u64, warmup: Option<&[E]>) -> Result<(Vec<u8>, bool), String> {
    let e = edges.to_vec();
    let w = warmup.map(|w| w.to_vec());
    std::thread::spawn(move || {
        crate::seam::set_random_seed(Some(seed));
        let r = attempt(|| {
            if let Some(w) = w {
                prepare(&build_input(&w));
            }
            bytes(&prepare(&build_input(&e)))
        });
        let used = crate::seam::random_seed_used();
        crate::seam::set_random_seed(None);
        r.map(|b| (b, used))
    })
    .join()
    .map_err(|_| "the preparing thread died".to_string())?
}

impl Space for Seeds {
    fn name(&self) -> String {
        format!("hash-seeds/{}/{} seeds", self.fam.name(), self.seeds)
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn chunk(&self) -> u64 {
        4
    }
    fn bounds(&self) -> String {
        format!("{} graphs x {} hash seeds, each in a new thread", self.fam.len(), self.seeds)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (_, edges) = self.fam.edges(i);
        let base = bytes(&prepare(&build_input(&edges)));
        let mut used = true;
        for s in 0..self.seeds {
            let (b, u) = prepare_with_seed(&edges, s, None)?;
            used &= u;
            ctx.calls += 2;
            ctx.states += 1;
            ctx.traces += 1;
            if b != base {
                return Err(format!("hash seed {}: the prepared graph differs", s));
            }
        }
        if used {
            // the dictated seed really was requested by the code under test
            ctx.nontrivial += 1;
        }
        ctx.outcome(base.iter().fold(0, |h, x| mix(h, *x as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!(
            "{}// prepare(&g) in several new threads or processes and compare the serialized bytes",
            show_input(&edges)
        )
    }
}

/// What was prepared or queried before does not matter: all ordered pairs of graphs.
pub struct AfterOther {
    pub fam: Fam,
}

impl Space for AfterOther {
    fn name(&self) -> String {
        format!("prepare-after/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        format!("all {}^2 ordered pairs of graphs: second one prepared after the first", self.fam.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (_, first) = self.fam.edges(i);
        // the reference bytes come from a new thread that prepared nothing else
        let n = self.fam.len();
        let mut all: Vec<(Vec<E>, Vec<u8>)> = vec![];
        for k in 0..n {
            let (_, e) = self.fam.edges(k);
            let b = bytes(&prepare(&build_input(&e)));
            all.push((e, b));
        }
        let a = build_input(&first);
        for (e, want) in &all {
            let g = prepare(&a);
            if g.get_num_nodes() > 0 {
                calc_path(&g, 0, g.get_num_nodes() - 1);
            }
            let b = bytes(&prepare(&build_input(e)));
            ctx.calls += 5;
            ctx.states += 1;
            ctx.traces += 1;
            if b != *want {
                return Err(format!("{:?} prepared after {:?} differs from before", e, first));
            }
        }
        let probe = (i * 7 + 3) % n;
        let (_, e) = self.fam.edges(probe);
        let (b, _) = prepare_with_seed(&e, i, None)?;
        let (c, _) = prepare_with_seed(&e, i, Some(&first))?;
        ctx.calls += 6;
        if b != all[probe as usize].1 || c != b {
            return Err(format!("{:?} prepared in a new thread differs", e));
        }
        ctx.nontrivial += 1;
        ctx.outcome(all[i as usize].1.iter().fold(0, |h, x| mix(h, *x as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!("{}// prepare(&g), query it, then prepare each other graph and compare the bytes with those of preparing it alone", show_input(&edges))
    }
}

// ---------------------------------------------------------------------------------------------
// C18

pub struct Again {
    pub fam: Fam,
    pub params: Vec<ParamSet>,
}

impl Space for Again {
    fn name(&self) -> String {
        format!("re-prepare/{}/{} parameter sets", self.fam.name(), self.params.len())
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x {} parameter sets, prepared again with their own ordering",
            self.fam.len(),
            self.params.len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (n, edges) = self.fam.edges(i);
        let input = build_input(&edges);
        for p in &self.params {
            let g = prepare_with_params(&input, &p.params());
            let order = g.get_node_ordering();
            let mut sorted = order.clone();
            sorted.sort();
            if sorted != (0..n).collect::<Vec<_>>() || get_node_ordering(&g) != order {
                return Err(format!("reported ordering {:?} is not a permutation of {} nodes", order, n));
            }
            let g2 = prepare_with_order_with_params(&input, &order, &ParamsWithOrder::new(p.contr))
                .map_err(|e| format!("own ordering {:?} refused: {}", order, e))?;
            if bytes(&g) != bytes(&g2) {
                return Err(format!(
                    "preparing again with the own ordering {:?} and budget {} differs [{}]",
                    order,
                    p.contr,
                    p.show()
                ));
            }
            ctx.calls += 5;
            ctx.states += 1;
            ctx.traces += 1;
            if order.windows(2).any(|w| w[0] > w[1]) {
                ctx.nontrivial += 1;
            }
            ctx.outcome(order.iter().fold(0, |h, x| mix(h, *x as u64)));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!(
            "{}// let a = prepare_with_params(&g, &p); let b = prepare_with_order_with_params(&g, &a.get_node_ordering(), &ParamsWithOrder::new(p.max_settled_nodes_contraction)); bincode bytes of a and b must be equal, for p in\n// {}",
            show_input(&edges),
            self.params.iter().map(|p| p.show()).collect::<Vec<_>>().join("\n// ")
        )
    }
}

/// The ordering of one graph used for every other graph with the same number of nodes
pub struct Transfer {
    pub fam: Fam,
}

impl Space for Transfer {
    fn name(&self) -> String {
        format!("ordering-transfer/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        format!("all {}^2 ordered pairs of graphs with equal node counts, all queries", self.fam.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (n, edges) = self.fam.edges(i);
        let order = prepare(&build_input(&edges)).get_node_ordering();
        for k in 0..self.fam.len() {
            let (m, other) = self.fam.edges(k);
            if m != n {
                continue;
            }
            let r = Ref::new(n, &other);
            let g = prepare_with_order(&build_input(&other), &order)
                .map_err(|e| format!("ordering {:?} refused for {:?}: {}", order, other, e))?;
            let mut calc = create_calculator(&g);
            let mut h = 0;
            for s in 0..n {
                for t in 0..n {
                    let p = calc.calc_path(&g, s, t);
                    crate::queries::check_answer(
                        crate::queries::Oracle::Dist,
                        &p,
                        &r,
                        &[(s, 0)],
                        &[(t, 0)],
                        ctx,
                        &mut h,
                    )
                    .map_err(|m| {
                        format!("ordering {:?} used for {:?}: calc_path({}, {}): {}", order, other, s, t, m)
                    })?;
                    ctx.calls += 1;
                    ctx.states += 1;
                }
            }
            ctx.traces += 1;
            ctx.outcome(h);
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!(
            "{}// let order = prepare(&g).get_node_ordering(); use it with prepare_with_order for another graph",
            show_input(&edges)
        )
    }
}
