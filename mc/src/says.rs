//! C27: what objects say about themselves: debug texts, counts, edge ranges, path results.

use crate::engine::*;
use crate::families::*;
use crate::persist::{bytes, prepare_as, show_config, Config};
use crate::reference::*;
use fast_paths::*;

const M: usize = usize::MAX;

fn equal<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> CaseResult {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: {:?} and {:?}", what, a, b))
    }
}

/// the edges that a text of add_edge statements describes
fn parse(text: &str) -> Result<Vec<E>, String> {
    let mut v = vec![];
    for l in text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
        let bad = || format!("not a statement that adds an edge: {:?}", l);
        let inner = l.strip_prefix("g.add_edge(").and_then(|l| l.strip_suffix(");")).ok_or_else(bad)?;
        let n: Vec<usize> = inner.split(',').map(|x| x.trim().parse::<usize>()).collect::<Result<_, _>>().map_err(|_| bad())?;
        if n.len() != 3 {
            return Err(bad());
        }
        v.push((n[0], n[1], n[2]));
    }
    Ok(v)
}

/// the texts of an input graph while it is edited
pub struct Texts {
    pub fam: Fam,
}

impl Space for Texts {
    fn name(&self) -> String {
        format!("texts/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * 2
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let mut raw = vec![];
        self.fam.get(i / 2, &mut raw);
        let bidir = i % 2 == 1;
        let mut g = InputGraph::new();
        let mut expected: Vec<E> = vec![];
        let texts = |g: &InputGraph, expected: &[E], ordered: bool, when: &str| -> CaseResult {
            let a = g.unit_test_output_string();
            let b = format!("{:?}", g);
            let c = format!("{:#?}", g);
            for t in [&a, &b, &c] {
                let mut l = parse(t).map_err(|m| format!("{}: {}", when, m))?;
                let mut e = expected.to_vec();
                if !ordered {
                    l.sort_unstable();
                    e.sort_unstable();
                }
                equal(&format!("{}: edges in the text and in the graph", when), l, e)?;
            }
            Ok(())
        };
        texts(&g, &expected, false, "empty graph")?;
        for e in &raw {
            if bidir {
                g.add_edge_bidir(e.0, e.1, e.2);
            } else {
                g.add_edge(e.0, e.1, e.2);
            }
            if accepted(e) {
                expected.push(*e);
                if bidir {
                    expected.push((e.1, e.0, e.2));
                }
            }
            texts(&g, &expected, false, "while edges are added")?;
            ctx.states += 1;
        }
        g.freeze();
        let mut merged = expected.clone();
        merged.sort_unstable();
        merged.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
        for round in 0..3 {
            let when = ["frozen", "frozen after thawing", "copy"][round];
            let l: Vec<E> = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
            equal(&format!("{}: edges", when), &l, &merged)?;
            equal(&format!("{}: number of edges", when), g.get_num_edges(), merged.len())?;
            equal(&format!("{}: number of nodes", when), g.get_num_nodes(), node_count(&raw))?;
            texts(&g, &l, true, when)?;
            for (e, l) in g.get_edges().iter().zip(&l) {
                let t = e.unit_test_output_string();
                equal("text of an edge", parse(&t)?, vec![*l])?;
                let new = Edge::new(l.0, l.1, l.2);
                equal("edge with the same ends and weight", (new.from, new.to, new.weight), *l)?;
                equal("its text", new.unit_test_output_string(), t)?;
                equal("its debug text", format!("{:?}", new), format!("{:?}", e))?;
                let d = format!("{:?}", e);
                for x in [l.0, l.1, l.2] {
                    if !d.contains(&x.to_string()) {
                        return Err(format!("the debug text {} of edge {:?} lacks {}", d, l, x));
                    }
                }
            }
            // the statements of the text build the graph again
            let mut again = InputGraph::new();
            for e in parse(&format!("{:?}", g))? {
                again.add_edge(e.0, e.1, e.2);
            }
            again.freeze();
            equal("texts of the graph that was built from the text", again.unit_test_output_string(), g.unit_test_output_string())?;
            ctx.states += 1;
            match round {
                0 => {
                    g.thaw();
                    texts(&g, &merged, false, "thawed")?;
                    g.freeze();
                }
                1 => g = g.clone(),
                _ => (),
            }
        }
        ctx.calls += 20 + raw.len() as u64 * 4;
        ctx.traces += 1;
        ctx.nontrivial += (merged.len() < expected.len() || expected.len() < raw.len()) as u64;
        ctx.outcome(merged.iter().fold(1, |h, e| mix(h, (e.0 * 31 + e.1 * 7) as u64 ^ e.2 as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let mut raw = vec![];
        self.fam.get(i / 2, &mut raw);
        format!("raw edges {:?}, {}; texts after every step", raw, if i % 2 == 1 { "add_edge_bidir" } else { "add_edge" })
    }
    fn bounds(&self) -> String {
        format!("{} edge lists x one-way and bidirectional, text after every call", self.fam.len())
    }
}

/// counts, ranges and orders of prepared graphs, and their results
pub struct Layout {
    pub fam: Fam,
    pub configs: Vec<Config>,
}

fn layout(g: &FastGraph, what: &str) -> Result<Vec<usize>, String> {
    let n = g.get_num_nodes();
    let order = g.get_node_ordering();
    let mut seen = vec![false; n];
    for &x in &order {
        if x >= n || std::mem::replace(&mut seen[x], true) {
            return Err(format!("{}: the order {:?} is no permutation", what, order));
        }
    }
    equal(&format!("{}: length of the order and number of nodes", what), order.len(), n)?;
    let (mut o, mut i) = (0, 0);
    let mut v = vec![n, g.get_num_out_edges(), g.get_num_in_edges()];
    for &x in &order {
        for (kind, begin, end, at) in [
            ("out-edges", g.begin_out_edges(x), g.end_out_edges(x), &mut o),
            ("in-edges", g.begin_in_edges(x), g.end_in_edges(x), &mut i),
        ] {
            if begin != *at || end < begin {
                return Err(format!("{}: the {} of node {} are {}..{}, those of the nodes before it (order {:?}) end at {}", what, kind, x, begin, end, order, at));
            }
            *at = end;
            v.push(end);
        }
    }
    equal(&format!("{}: end of the last out-edges and number of out-edges", what), o, g.get_num_out_edges())?;
    equal(&format!("{}: end of the last in-edges and number of in-edges", what), i, g.get_num_in_edges())?;
    v.extend(order);
    Ok(v)
}

impl Space for Layout {
    fn name(&self) -> String {
        format!("layout/{}/{} configurations", self.fam.name(), self.configs.len())
    }
    fn len(&self) -> u64 {
        self.fam.len() * self.configs.len() as u64
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let c = self.configs.len() as u64;
        let (n, edges) = self.fam.edges(i / c);
        let input = build_input(&edges);
        let config = &self.configs[(i % c) as usize];
        let g = prepare_as(&input, n, config)?;
        equal("number of nodes of the input and of the prepared graph", n, g.get_num_nodes())?;
        let l = layout(&g, "prepared graph")?;
        if let Config::Order(k, _) = config {
            equal("given and reported order", permutation(n, k % factorial(n)), g.get_node_ordering())?;
        }
        let copy = g.clone();
        equal("counts, ranges and order of the graph and a copy", &l, &layout(&copy, "copy")?)?;
        equal("debug text of the graph and a copy", format!("{:?}", g), format!("{:?}", copy))?;
        let loaded: FastGraph = bincode::deserialize(&bytes(&g)).map_err(|e| e.to_string())?;
        equal("counts, ranges and order of the graph and a stored one", &l, &layout(&loaded, "stored graph")?)?;
        equal("debug text of the graph and a stored one", format!("{:?}", g), format!("{:?}", loaded))?;
        if edges.iter().all(|e| e.2 < 1 << 20) {
            let half = FastGraph32::new(&g).convert_to_usize();
            equal("counts, ranges and order of the graph and a converted one", &l, &layout(&half, "converted graph")?)?;
        }
        // results
        let mut calc = create_calculator(&g);
        // distances are other properties' business
        let reference = if n <= 8 { Some(Ref::new(n, &edges)) } else { None };
        let mut results = vec![];
        for s in 0..n {
            for t in 0..n {
                let r = calc.calc_path(&g, s, t);
                ctx.calls += 1;
                ctx.states += 1;
                let w = reference.as_ref().map(|r| r.multi(&[(s, 0)], &[(t, 0)]));
                let r = match r {
                    None => {
                        let none = ShortestPath::none(s, t);
                        equal("absent path found", none.is_found(), false)?;
                        equal("source of an absent path", none.get_source(), s)?;
                        equal("target of an absent path", none.get_target(), t)?;
                        equal("nodes of an absent path", none.get_nodes().len(), 0)?;
                        if w.map_or(false, |w| w < M as u128) {
                            return Err(format!("no path from {} to {}, but the distance is {:?}", s, t, w));
                        }
                        results.push((none, M));
                        continue;
                    }
                    Some(r) => r,
                };
                equal("source", r.get_source(), s)?;
                equal("target", r.get_target(), t)?;
                equal("weight", r.get_weight() as u128, w.unwrap_or(r.get_weight() as u128))?;
                equal("found", r.is_found(), true)?;
                equal("first node", r.get_nodes().first(), Some(&s))?;
                equal("last node", r.get_nodes().last(), Some(&t))?;
                if s == t {
                    let x = ShortestPath::singular(s);
                    equal("a trivial path and singular()", &r, &x)?;
                    equal("its nodes", r.get_nodes(), x.get_nodes())?;
                }
                let same = ShortestPath::new(s, t, r.get_weight(), vec![]);
                equal("the path and one with other nodes", &r, &same)?;
                equal("the same, the other way round", &same, &r)?;
                let w = r.get_weight();
                results.push((r, w));
            }
        }
        // equality between all of them
        if n <= 5 {
            for (i, (a, x)) in results.iter().enumerate() {
                for (j, (b, y)) in results.iter().enumerate() {
                    let e = a == b;
                    let expected = a.get_source() == b.get_source() && a.get_target() == b.get_target() && x == y;
                    if e != expected || e != !(a != b) || (i == j) != expected {
                        return Err(format!("{:?} == {:?} is {}", a, b, e));
                    }
                }
            }
        }
        ctx.traces += 1;
        ctx.nontrivial += (g.get_num_out_edges() + g.get_num_in_edges() > edges.len()) as u64;
        ctx.outcome(l.iter().fold(3, |h, x| mix(h, *x as u64)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let c = self.configs.len() as u64;
        let (n, edges) = self.fam.edges(i / c);
        format!("{}\n{}", show_input(&edges), show_config(n, &self.configs[(i % c) as usize]))
    }
    fn bounds(&self) -> String {
        format!("{} graphs x {} configurations x all ranges, all queries, all pairs of results", self.fam.len(), self.configs.len())
    }
    fn case_timeout(&self) -> u64 {
        60
    }
}

/// all pairs of path results
pub struct Results {
    pub ids: Vec<usize>,
    pub weights: Vec<usize>,
}

impl Results {
    /// (source, target, weight, nodes, built how)
    fn parts(&self, k: u64) -> (usize, usize, usize, Vec<usize>, u64) {
        let m = self.ids.len() as u64;
        let (s, t) = (self.ids[(k % m) as usize], self.ids[(k / m % m) as usize]);
        let k = k / (m * m);
        let w = self.weights[(k % self.weights.len() as u64) as usize];
        let nodes = match k / self.weights.len() as u64 {
            0 => vec![s, t],
            1 => vec![],
            _ => vec![s, 7, t],
        };
        (s, t, w, nodes, 0)
    }
    fn objects(&self) -> u64 {
        let m = self.ids.len() as u64;
        m * m * self.weights.len() as u64 * 3
    }
    fn get(&self, k: u64) -> (ShortestPath, (usize, usize, usize, Vec<usize>, u64)) {
        let (m, n) = (self.ids.len() as u64, self.objects());
        if k < n {
            let p = self.parts(k);
            (ShortestPath::new(p.0, p.1, p.2, p.3.clone()), p)
        } else if k < n + m {
            let s = self.ids[(k - n) as usize];
            (ShortestPath::singular(s), (s, s, 0, vec![s], 1))
        } else {
            let (s, t) = (self.ids[((k - n - m) % m) as usize], self.ids[((k - n - m) / m) as usize]);
            (ShortestPath::none(s, t), (s, t, M, vec![], 2))
        }
    }
    fn all(&self) -> u64 {
        let m = self.ids.len() as u64;
        self.objects() + m + m * m
    }
}

impl Space for Results {
    fn name(&self) -> String {
        format!("results(ids={:?},weights={:?})", self.ids, self.weights)
    }
    fn len(&self) -> u64 {
        self.all() * self.all()
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let ((a, x), (b, y)) = (self.get(i / self.all()), self.get(i % self.all()));
        for (a, x) in [(&a, &x), (&b, &y), (&a.clone(), &x)] {
            equal("source, target and weight", (a.get_source(), a.get_target(), a.get_weight()), (x.0, x.1, x.2))?;
            equal("nodes", a.get_nodes(), &x.3)?;
            equal("found", a.is_found(), x.2 != M)?;
            equal("equal to itself", a == a, true)?;
            let d = format!("{:?}", a);
            for n in [x.0, x.1, x.2] {
                if !d.contains(&n.to_string()) {
                    return Err(format!("the debug text {} lacks {}", d, n));
                }
            }
        }
        let same = (x.0, x.1, x.2) == (y.0, y.1, y.2);
        equal(&format!("{:?} == {:?}", a, b), a == b, same)?;
        equal(&format!("{:?} == {:?}", b, a), b == a, same)?;
        equal(&format!("{:?} != {:?}", a, b), a != b, !same)?;
        ctx.states += 1;
        ctx.calls += 20;
        ctx.traces += 1;
        ctx.nontrivial += (same && x.3 != y.3) as u64;
        ctx.outcome(mix(same as u64, (x.2 == M) as u64 * 2 + (y.2 == M) as u64));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?} and {:?}", self.get(i / self.all()).0, self.get(i % self.all()).0)
    }
    fn bounds(&self) -> String {
        format!("all pairs of {} results (new, singular, none)", self.all())
    }
}

/// prepared graphs without edges, made by FastGraph::new, and parameters
pub struct Empty {
    pub max: usize,
}
impl Space for Empty {
    fn name(&self) -> String {
        format!("empty(n<{})", self.max)
    }
    fn len(&self) -> u64 {
        self.max as u64
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let n = i as usize;
        let g = FastGraph::new(n);
        equal("nodes, out-edges and in-edges", (g.get_num_nodes(), g.get_num_out_edges(), g.get_num_in_edges()), (n, 0, 0))?;
        let mut c = create_calculator(&g);
        for s in 0..n {
            equal("ranges", (g.begin_out_edges(s), g.end_out_edges(s), g.begin_in_edges(s), g.end_in_edges(s)), (0, 0, 0, 0))?;
            for t in 0..n {
                equal("path in a graph without edges", c.calc_path(&g, s, t), if s == t { Some(ShortestPath::singular(s)) } else { None })?;
                ctx.states += 1;
                ctx.calls += 1;
            }
        }
        for (a, b, c, d) in [(0.5f32, n, 2 * n + 1, 7), (0.0, 0, n, M), (1e30, M, 1, n)] {
            let p = Params::new(a, b, c, d);
            let got = (p.max_settled_nodes_initial_relevance, p.max_settled_nodes_neighbor_relevance, p.max_settled_nodes_contraction);
            equal("parameters", got, (b, c, d))?;
            equal("factor", p.hierarchy_depth_factor, a)?;
            equal("parameter", ParamsWithOrder::new(c).max_settled_nodes_contraction_with_order, c)?;
        }
        ctx.traces += 1;
        ctx.nontrivial += 1;
        ctx.outcome(n as u64);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("FastGraph::new({})", i)
    }
}
