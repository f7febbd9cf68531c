//! Spaces over graph x preparation x query: C01, C02, C03, C04, C14, C16 and the multi-source spaces of C05/C02/C14.

use crate::engine::*;
use crate::families::*;
use crate::reference::*;
use fast_paths::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Oracle {
    /// exact weights, None iff unreachable
    Dist,
    /// returned paths are genuine
    Path,
}

#[derive(Clone)]
pub struct ParamSet {
    pub depth: f32,
    pub quot: f32,
    pub init: usize,
    pub neigh: usize,
    pub contr: usize,
}

impl ParamSet {
    pub fn params(&self) -> Params {
        let mut p = Params::new(self.depth, self.init, self.neigh, self.contr);
        p.edge_quotient_factor = self.quot;
        p
    }
    pub fn show(&self) -> String {
        format!(
            "Params {{ hierarchy_depth_factor: {:?}, edge_quotient_factor: {:?}, max_settled_nodes_initial_relevance: {}, max_settled_nodes_neighbor_relevance: {}, max_settled_nodes_contraction: {} }}",
            self.depth, self.quot, self.init, self.neigh, self.contr
        )
    }
}

pub fn params(depth: f32, init: usize, neigh: usize, contr: usize) -> ParamSet {
    ParamSet { depth, quot: 1.0, init, neigh, contr }
}

pub enum Prep {
    /// prepare()
    Default,
    /// prepare_with_params, all of the list per graph
    Params(Vec<ParamSet>),
    /// prepare_with_order with all orders and budgets (usize::MAX - 1 stands for prepare_with_order without params)
    AllOrders(Vec<usize>),
}

pub const NO_PARAMS: usize = usize::MAX - 1;

pub struct GraphQueries {
    pub fam: Fam,
    pub prep: Prep,
    pub oracle: Oracle,
    /// use the stand-alone calc_path functions (a fresh calculator per query)
    pub standalone: bool,
}

impl GraphQueries {
    /// number of preparations addressed by the index (orders), rest is looped inside
    fn outer(&self) -> u64 {
        match &self.prep {
            Prep::AllOrders(_) => factorial(self.fam.max_nodes()),
            _ => 1,
        }
    }
    fn inner(&self) -> usize {
        match &self.prep {
            Prep::Default => 1,
            Prep::Params(v) => v.len(),
            Prep::AllOrders(b) => b.len(),
        }
    }
    fn prep_name(&self) -> String {
        match &self.prep {
            Prep::Default => "default".into(),
            Prep::Params(v) => format!("params({})", v.len()),
            Prep::AllOrders(b) => format!("all-orders,budgets={:?}", b),
        }
    }
}

impl Space for GraphQueries {
    fn name(&self) -> String {
        format!(
            "{}{}/{}/{}",
            match self.oracle {
                Oracle::Dist => "dist",
                Oracle::Path => "path",
            },
            if self.standalone { "-standalone" } else { "" },
            self.fam.name(),
            self.prep_name()
        )
    }
    fn len(&self) -> u64 {
        self.fam.len() * self.outer()
    }
    fn chunk(&self) -> u64 {
        16
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x {} orders x {} settings x all source/target pairs",
            self.fam.len(),
            self.outer(),
            self.inner()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let outer = self.outer();
        let (n, edges) = self.fam.edges(i / outer);
        let o = i % outer;
        if outer > 1 && o >= factorial(n) {
            // smaller graph than the family's maximum: each of its orders is covered exactly once
            return Ok(());
        }
        let input = build_input(&edges);
        let reference = Ref::new(n, &edges);
        ctx.calls += edges.len() as u64 + 1;
        for k in 0..self.inner() {
            let (fg, conf) = match &self.prep {
                Prep::Default => (prepare(&input), String::new()),
                Prep::Params(v) => (prepare_with_params(&input, &v[k].params()), String::new()),
                Prep::AllOrders(b) => {
                    let order = permutation(n, o);
                    let r = if b[k] == NO_PARAMS {
                        prepare_with_order(&input, &order)
                    } else {
                        prepare_with_order_with_params(&input, &order, &ParamsWithOrder::new(b[k]))
                    };
                    let fg = match r {
                        Ok(fg) => fg,
                        Err(e) => return Err(format!("order {:?} refused: {}", order, e)),
                    };
                    if self.oracle == Oracle::Dist && fg.get_node_ordering() != order {
                        return Err(format!("order {:?} is reported as {:?}", order, fg.get_node_ordering()));
                    }
                    (fg, String::new())
                }
            };
            let _ = conf;
            if fg.get_num_nodes() != n {
                return Err(format!("prepared graph has {} nodes instead of {}", fg.get_num_nodes(), n));
            }
            self.queries(n, &fg, &reference, ctx).map_err(|m| format!("{} [{}]", m, self.conf(n, o, k)))?;
            ctx.traces += 1;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let outer = self.outer();
        let (n, edges) = self.fam.edges(i / outer);
        format!(
            "{}// preparation(s): {}",
            show_input(&edges),
            (0..self.inner()).map(|k| self.conf(n, i % outer, k)).collect::<Vec<_>>().join(" | ")
        )
    }
}

impl GraphQueries {
    fn conf(&self, n: usize, o: u64, k: usize) -> String {
        match &self.prep {
            Prep::Default => "prepare(&g)".into(),
            Prep::Params(v) => format!("prepare_with_params(&g, &{})", v[k].show()),
            Prep::AllOrders(b) => {
                if o >= factorial(n) {
                    "skipped".into()
                } else if b[k] == NO_PARAMS {
                    format!("prepare_with_order(&g, &{:?})", permutation(n, o))
                } else {
                    format!(
                        "prepare_with_order_with_params(&g, &{:?}, &ParamsWithOrder::new({}))",
                        permutation(n, o),
                        b[k]
                    )
                }
            }
        }
    }

    fn queries(&self, n: usize, fg: &FastGraph, r: &Ref, ctx: &mut Ctx) -> CaseResult {
        let mut calc = create_calculator(fg);
        let mut h = 0;
        for s in 0..n {
            for t in 0..n {
                let p = if self.standalone { calc_path(fg, s, t) } else { calc.calc_path(fg, s, t) };
                ctx.calls += 1;
                ctx.states += 1;
                check_answer(self.oracle, &p, r, &[(s, 0)], &[(t, 0)], ctx, &mut h)
                    .map_err(|m| format!("calc_path({}, {}): {}", s, t, m))?;
            }
        }
        ctx.outcome(h);
        Ok(())
    }
}

pub fn check_answer(
    oracle: Oracle,
    p: &Option<ShortestPath>,
    r: &Ref,
    s: &[(usize, usize)],
    t: &[(usize, usize)],
    ctx: &mut Ctx,
    h: &mut u64,
) -> CaseResult {
    match oracle {
        Oracle::Dist => {
            let want = if s.len() == 1 && t.len() == 1 && s[0].1 == 0 && t[0].1 == 0 {
                r.d[s[0].0][t[0].0]
            } else {
                r.multi(s, t)
            };
            let got = p.as_ref().map_or(INF, |p| p.get_weight() as u128);
            if want != got {
                let show = |x: u128| {
                    if x == INF {
                        "no path".to_string()
                    } else {
                        format!("weight {}", x)
                    }
                };
                return Err(format!("expected {}, got {}: {:?}", show(want), show(got), p));
            }
            if want != INF && want > 0 {
                ctx.nontrivial += 1;
            }
            *h = mix(*h, got as u64);
        }
        Oracle::Path => {
            if let Some(p) = p {
                r.check_path(p, s, t)?;
                if p.get_nodes().len() > 2 {
                    ctx.nontrivial += 1;
                }
                for x in p.get_nodes() {
                    *h = mix(*h, *x as u64);
                }
            }
            *h = mix(*h, 99);
        }
    }
    Ok(())
}

/// All pairs of weighted source and target lists up to a length
pub struct Multi {
    pub fam: Fam,
    pub ws: Vec<usize>,
    pub max_len: usize,
    pub oracle: Oracle,
    pub standalone: bool,
    /// prepare with the identity/reversed order instead of default, to vary the hierarchy
    pub orders: bool,
    pub lists_per_node: Vec<Vec<Vec<(usize, usize)>>>,
}

fn lists(n: usize, ws: &[usize], max_len: usize) -> Vec<Vec<(usize, usize)>> {
    let mut res: Vec<Vec<(usize, usize)>> = vec![];
    let mut last: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for _ in 0..max_len {
        let mut nxt = vec![];
        for l in &last {
            for a in 0..n {
                for w in ws {
                    let mut m = l.clone();
                    m.push((a, *w));
                    nxt.push(m);
                }
            }
        }
        res.extend(nxt.iter().cloned());
        last = nxt;
    }
    res
}

pub fn multi(fam: Fam, ws: &[usize], max_len: usize, oracle: Oracle, standalone: bool, orders: bool) -> Box<dyn Space> {
    let lists_per_node = (0..=fam.max_nodes()).map(|n| lists(n, ws, max_len)).collect();
    Box::new(Multi { fam, ws: ws.to_vec(), max_len, oracle, standalone, orders, lists_per_node })
}

impl Space for Multi {
    fn name(&self) -> String {
        format!(
            "multi-{}{}{}/{}/weights={:?},len<={}",
            match self.oracle {
                Oracle::Dist => "dist",
                Oracle::Path => "path",
            },
            if self.standalone { "-standalone" } else { "" },
            if self.orders { "-orders" } else { "" },
            self.fam.name(),
            self.ws,
            self.max_len
        )
    }
    fn len(&self) -> u64 {
        self.fam.len() * if self.orders { 2 } else { 1 }
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        60
    }
    fn bounds(&self) -> String {
        let k = self.lists_per_node[self.fam.max_nodes()].len();
        format!("{} preparations x {} source lists x {} target lists", self.len(), k, k)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (gi, o) = if self.orders { (i / 2, i % 2) } else { (i, 0) };
        let (n, edges) = self.fam.edges(gi);
        let input = build_input(&edges);
        let r = Ref::new(n, &edges);
        let fg = if self.orders {
            let mut order: Vec<usize> = (0..n).collect();
            if o == 1 {
                order.reverse();
            }
            prepare_with_order(&input, &order)?
        } else {
            prepare(&input)
        };
        if fg.get_num_nodes() != n {
            return Err("wrong node count".into());
        }
        ctx.calls += edges.len() as u64 + 2;
        let lists = &self.lists_per_node[n];
        let mut calc = create_calculator(&fg);
        let mut h = 0;
        for s in lists {
            for t in lists {
                let p = if self.standalone {
                    calc_path_multiple_sources_and_targets(&fg, s.clone(), t.clone())
                } else {
                    calc.calc_path_multiple_sources_and_targets(&fg, s.clone(), t.clone())
                };
                ctx.calls += 1;
                ctx.states += 1;
                check_answer(self.oracle, &p, &r, s, t, ctx, &mut h)
                    .map_err(|m| format!("sources {:?}, targets {:?}: {}", s, t, m))?;
            }
        }
        ctx.outcome(h);
        ctx.traces += 1;
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (gi, o) = if self.orders { (i / 2, i % 2) } else { (i, 2) };
        let (_, edges) = self.fam.edges(gi);
        format!(
            "{}// {}",
            show_input(&edges),
            ["prepare_with_order(identity)", "prepare_with_order(reversed)", "prepare(&g)"][o as usize]
        )
    }
}

// ---------------------------------------------------------------------------------------------
// C16

/// Replays the contraction from the stored edges: every stored edge must be an input edge or a shortcut u->w over a
/// centre v such that, among the nodes not contracted before v, every route u~>w that avoids v is heavier. An edge that
/// was written several times counts where it was written last; until then the replay knows only the input edge, so that
/// the routes it finds are never lighter than those the preparation could see.
pub fn check_lean(n: usize, edges: &[E], fg: &FastGraph, order: &[usize]) -> Result<u64, String> {
    const NONE: u64 = u64::MAX;
    let set = |l: &mut Vec<(usize, u64)>, b: usize, x: u64| match l.iter_mut().find(|y| y.0 == b) {
        Some(y) => y.1 = y.1.min(x),
        None => l.push((b, x)),
    };
    let mut w: Vec<Vec<(usize, u64)>> = vec![vec![]; n];
    for e in edges.iter().filter(|e| accepted(e)) {
        set(&mut w[e.0], e.1, e.2 as u64);
    }
    let mut rank = vec![0; n];
    for (r, v) in order.iter().enumerate() {
        rank[*v] = r;
    }
    let g = FastGraph32::new(fg);
    let mut stored: Vec<(usize, usize)> = vec![];
    let mut by_centre: Vec<Vec<(usize, usize, u64)>> = vec![vec![]; n];
    let mut shortcuts = 0;
    for (fwd, list) in [(true, &g.edges_fwd), (false, &g.edges_bwd)] {
        for e in list {
            let (base, adj) = (e.base_node as usize, e.adj_node as usize);
            let (a, b) = if fwd { (base, adj) } else { (adj, base) };
            if rank[base] >= rank[adj] {
                return Err(format!("edge {} -> {} is stored at the node contracted later", a, b));
            }
            stored.push((a, b));
            let x = e.weight as u64;
            if e.replaced_in_edge == u32::MAX {
                if !w[a].contains(&(b, x)) {
                    return Err(format!(
                        "edge {} -> {} with weight {} is neither a shortcut nor an input edge",
                        a, b, x
                    ));
                }
            } else {
                let c = g.edges_bwd[e.replaced_in_edge as usize].base_node as usize;
                if rank[c] >= rank[base] {
                    return Err(format!("shortcut {} -> {} over {}, which is contracted later", a, b, c));
                }
                by_centre[c].push((a, b, x));
                shortcuts += 1;
            }
        }
    }
    stored.sort();
    if let Some(p) = stored.windows(2).find(|p| p[0] == p[1]) {
        return Err(format!("two edges stored for the node pair {} -> {}", p[0].0, p[0].1));
    }
    let mut d = vec![NONE; n];
    let mut touched: Vec<usize> = vec![];
    let mut heap = std::collections::BinaryHeap::new();
    for &v in order {
        by_centre[v].sort();
        for k in 0..by_centre[v].len() {
            let (a, b, x) = by_centre[v][k];
            if k == 0 || by_centre[v][k - 1].0 != a {
                // Dijkstra from a without v and what was contracted before, as far as it matters
                let limit = by_centre[v].iter().filter(|s| s.0 == a).map(|s| s.2).max().unwrap();
                for u in touched.drain(..) {
                    d[u] = NONE;
                }
                d[a] = 0;
                touched.push(a);
                heap.push((std::cmp::Reverse(0u64), a));
                while let Some((std::cmp::Reverse(y), u)) = heap.pop() {
                    if y > d[u] {
                        continue;
                    }
                    for &(t, l) in &w[u] {
                        let z = y.saturating_add(l);
                        if rank[t] > rank[v] && z < d[t] && z <= limit {
                            if d[t] == NONE {
                                touched.push(t);
                            }
                            d[t] = z;
                            heap.push((std::cmp::Reverse(z), t));
                        }
                    }
                }
            }
            if d[b] <= x {
                return Err(format!(
                    "contracting {} added {} -> {} with weight {}, although a route avoiding it has weight {}",
                    v, a, b, x, d[b]
                ));
            }
        }
        for &(a, b, x) in &by_centre[v] {
            set(&mut w[a], b, x);
        }
    }
    Ok(shortcuts)
}

pub struct Lean {
    pub fam: Fam,
}

impl Space for Lean {
    fn name(&self) -> String {
        format!("lean/{}/all-orders,budget=unlimited", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * factorial(self.fam.max_nodes())
    }
    fn chunk(&self) -> u64 {
        64
    }
    fn bounds(&self) -> String {
        format!("{} graphs x {} orders", self.fam.len(), factorial(self.fam.max_nodes()))
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let outer = factorial(self.fam.max_nodes());
        let (n, edges) = self.fam.edges(i / outer);
        if i % outer >= factorial(n) {
            return Ok(());
        }
        let order = permutation(n, i % outer);
        let input = build_input(&edges);
        let fg = prepare_with_order_with_params(&input, &order, &ParamsWithOrder::new(usize::MAX))?;
        ctx.calls += edges.len() as u64 + 2;
        ctx.states += n as u64 + 1; // the remaining graphs during the contraction
        ctx.traces += 1;
        let k = check_lean(n, &edges, &fg, &order).map_err(|m| format!("order {:?}: {}", order, m))?;
        if fg.get_num_out_edges() + fg.get_num_in_edges() > input.get_num_edges() + k as usize {
            return Err(format!("order {:?}: more edges than input edges and shortcuts", order));
        }
        ctx.nontrivial += (k > 0) as u64;
        ctx.outcome(mix(fg.get_num_out_edges() as u64, fg.get_num_in_edges() as u64 * 64 + k));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let outer = factorial(self.fam.max_nodes());
        let (n, edges) = self.fam.edges(i / outer);
        if i % outer >= factorial(n) {
            return "skipped".into();
        }
        format!(
            "{}let fg = prepare_with_order_with_params(&g, &{:?}, &ParamsWithOrder::new(usize::MAX)).unwrap();\n// look at the edges of FastGraph32::new(&fg)",
            show_input(&edges),
            permutation(n, i % outer)
        )
    }
}
