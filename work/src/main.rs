//! C26: how much work do the calls do? Counts executed basic blocks and moved bytes instead of time, and compares
//! graphs of one family at n and 4n nodes.

use fast_paths::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BinaryHeap;

extern "C" {
    static mut work_blocks: u64;
    static mut work_bytes: u64;
    static mut work_limit: u64;
}

/// zeroed memory costs, too
struct Zero;
unsafe impl GlobalAlloc for Zero {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        work_bytes += l.size() as u64;
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Zero = Zero;

fn now() -> u64 {
    unsafe { work_blocks + work_bytes / 16 }
}

fn cost<T>(f: impl FnOnce() -> T) -> (u64, T) {
    let a = now();
    let r = f();
    (now() - a, r)
}

type E = (usize, usize, usize);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    Chain,
    OneWayChain,
    Ring,
    OneWayRing,
    Tree,
    WideTree,
    Caterpillar,
    Ladder,
    /// a grid of four rows
    Strip,
    /// components of eight nodes
    Islands,
    /// a chain that uses every eighth id
    SparseIds,
    /// one node with edges from and to all others; prepared with a given order
    Star,
    Grid,
    OneWayGrid,
}
use Shape::*;
const SHAPES: [Shape; 14] =
    [Chain, OneWayChain, Ring, OneWayRing, Tree, WideTree, Caterpillar, Ladder, Strip, Islands, SparseIds, Star, Grid, OneWayGrid];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Weights {
    One,
    Mixed,
    Rising,
}
const WEIGHTS: [Weights; 3] = [Weights::One, Weights::Mixed, Weights::Rising];

/// how the nodes are numbered: along the shape, or scattered (multiplication by an odd number modulo a power of two)
const LABELS: [bool; 2] = [false, true];

fn edges(sh: Shape, n: usize, w: Weights, scatter: bool) -> Vec<E> {
    let mut v: Vec<(usize, usize)> = vec![];
    let mut both = |a: usize, b: usize| {
        v.push((a, b));
        v.push((b, a));
    };
    match sh {
        Chain => (1..n).for_each(|i| both(i - 1, i)),
        OneWayChain => v = (1..n).map(|i| (i - 1, i)).collect(),
        Ring => (0..n).for_each(|i| both(i, (i + 1) % n)),
        OneWayRing => v = (0..n).map(|i| (i, (i + 1) % n)).collect(),
        Tree => (1..n).for_each(|i| both(i, (i - 1) / 2)),
        WideTree => (1..n).for_each(|i| both(i, (i - 1) / 5)),
        Caterpillar => {
            for i in 0..n / 2 {
                both(i, n / 2 + i);
                if i > 0 {
                    both(i - 1, i);
                }
            }
        }
        Ladder | Strip => {
            let k = if sh == Ladder { 2 } else { 4 };
            for i in 0..n {
                if i % k > 0 {
                    both(i, i - 1);
                }
                if i >= k {
                    both(i, i - k);
                }
            }
        }
        Islands => {
            for i in 0..n {
                if i % 8 > 0 {
                    both(i, i - 1);
                }
                if i % 8 > 2 {
                    both(i, i - 2);
                }
            }
        }
        SparseIds => (1..n / 8).for_each(|i| both(8 * (i - 1), 8 * i)),
        Star => (1..n).for_each(|i| both(0, i)),
        Grid | OneWayGrid => {
            let s = (n as f64).sqrt() as usize;
            for a in 0..s {
                for b in 0..s {
                    if a > 0 {
                        both(a * s + b, a * s + b - s);
                    }
                    if b > 0 {
                        both(a * s + b, a * s + b - 1);
                    }
                }
            }
            if sh == OneWayGrid {
                // every third row and column is one-way
                v.retain(|e| {
                    let (a, b) = (e.0 / s, e.0 % s);
                    let row = e.0.abs_diff(e.1) == 1;
                    !(row && a % 3 == 1 && e.0 > e.1 || !row && b % 3 == 2 && e.0 < e.1)
                });
            }
        }
    }
    let weight = |a: usize, b: usize| match w {
        Weights::One => 1,
        Weights::Mixed => 10 + (a * 7 + b * 13 + (a % 101) * (b % 103)) % 23,
        Weights::Rising => 1 + a + b,
    };
    let label = |a: usize| if scatter { a.wrapping_mul(2654435769) % n } else { a };
    v.into_iter().map(|(a, b)| (label(a), label(b), weight(a, b))).collect()
}

/// plain Dijkstra from one node to another, for comparison
fn dijkstra(out: &[Vec<(usize, usize)>], s: usize, t: usize) -> (u64, usize) {
    cost(|| {
        let mut d = vec![usize::MAX; out.len()];
        let mut h = BinaryHeap::new();
        d[s] = 0;
        h.push((std::cmp::Reverse(0), s));
        while let Some((std::cmp::Reverse(x), a)) = h.pop() {
            if a == t {
                break;
            }
            if x == d[a] {
                for &(b, w) in &out[a] {
                    if x + w < d[b] {
                        d[b] = x + w;
                        h.push((std::cmp::Reverse(x + w), b));
                    }
                }
            }
        }
        d[t]
    })
}

/// work per node of the answer that does not count as work of the search
const PER_NODE: u64 = 60;

/// What was measured at one size: (what, work or amount)
struct Profile {
    n: usize,
    of: Vec<(String, u64)>,
    last: Vec<(String, u64)>,
    calls: u64,
    fail: Option<String>,
}

impl Profile {
    fn allowed(&self, what: &str, factor: f64, add: u64) -> Option<u64> {
        self.last.iter().find(|x| x.0 == what).map(|x| (x.1 as f64 * factor) as u64 + add)
    }
    fn fail(&mut self, m: String) {
        if self.fail.is_none() {
            self.fail = Some(m);
        }
    }
    /// `what` took `c`; it may have grown by `factor` (and `add`) since the graph of a quarter of the size
    fn put(&mut self, what: &str, c: u64, factor: f64, add: u64) {
        if let Some(a) = self.allowed(what, factor, add) {
            if c > a {
                let before = self.last.iter().find(|x| x.0 == what).unwrap().1;
                self.fail(format!("{}: {} at about {} nodes, {} at four times as many (more than {} = {} x {} + {})", what, before, self.n / 4, c, a, factor, before, add));
            }
        }
        self.of.push((what.to_string(), c));
    }
    /// executes a call; the process ends at once when it does far more work than it may
    fn measure<T>(&mut self, what: &str, factor: f64, add: u64, f: impl FnOnce() -> T) -> T {
        eprintln!("{} (about {} nodes)", what, self.n);
        let a = self.allowed(what, factor, add).unwrap_or(4_000_000_000);
        unsafe { work_limit = now() + 3 * a + 1_000_000 };
        let (c, r) = cost(f);
        unsafe { work_limit = u64::MAX };
        self.calls += 1;
        self.put(what, c, factor, add);
        r
    }
}

/// the nodes the queries start and end at: the ends of the id range, some in between, each with the next id
fn ends(n: usize, many: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 2, n - 2, n - 1];
    for k in 0..many {
        let a = (k * (n - 1) / many + k * k * 7) % n;
        v.push(a);
        v.push((a + 1) % n);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn profile(sh: Shape, w: Weights, scatter: bool, p: &mut Profile) {
    let (e, n) = (edges(sh, p.n, w, scatter), p.n);
    let grid = matches!(sh, Grid | OneWayGrid);
    // calls that are linear, up to logarithms
    let linear = 6.5;
    // witness searches reach further on larger graphs with these weights
    let prep = if grid { 60.0 } else if w == Weights::Rising { 16.0 } else { 7.5 };
    let k = 3000;
    let g = p.measure("add_edge and freeze", linear, k, || {
        let mut g = InputGraph::new();
        e.iter().for_each(|x| {
            g.add_edge(x.0, x.1, x.2);
        });
        g.freeze();
        g
    });
    p.measure("thaw and freeze again", linear, k, || {
        let mut g = g.clone();
        g.thaw();
        g.freeze();
    });
    p.measure("freeze a graph with every edge five times", linear, k, || {
        let mut g = InputGraph::new();
        for i in 0..5 {
            e.iter().for_each(|x| {
                g.add_edge(x.0, x.1, x.2 + i % 3);
            });
        }
        g.freeze();
    });
    let nodes = g.get_num_nodes();
    let text = std::env::temp_dir().join(format!("work-{}.txt", std::process::id()));
    let name = text.to_str().unwrap();
    p.measure("InputGraph::to_file", linear, k, || g.to_file(name).expect("to_file"));
    p.measure("InputGraph::from_file", linear, k, || InputGraph::from_file(name));
    p.measure("InputGraph::to_dimacs_file", linear, k, || g.to_dimacs_file(name).expect("to_dimacs_file"));
    p.measure("InputGraph::from_dimacs_file", linear, k, || InputGraph::from_dimacs_file(name));
    let _ = std::fs::remove_file(name);
    let text = p.measure("serialize an InputGraph", linear, k, || bincode::serialize(&g).expect("serialize"));
    p.measure("deserialize an InputGraph", linear, k, || bincode::deserialize::<InputGraph>(&text).expect("deserialize"));

    let (f, order);
    if sh == Star {
        let hub = 0;
        order = (0..nodes).filter(|&x| x != hub).chain([hub]).collect::<Vec<_>>();
        // takes every leaf from the list of the hub
        f = p.measure("prepare_with_order", 20.0, 20 * k, || prepare_with_order(&g, &order).expect("the order is refused"));
        p.measure("get_node_ordering", linear, k, || f.get_node_ordering());
    } else {
        f = p.measure("prepare", prep, 20 * k, || prepare(&g));
        let first = p.of.last().unwrap().1;
        order = p.measure("get_node_ordering", linear, k, || f.get_node_ordering());
        let again = p.measure("prepare_with_order", prep, 20 * k, || prepare_with_order(&g, &order).expect("the order is refused"));
        let second = p.of.last().unwrap().1;
        if second > first + first / 2 + 20 * k {
            p.fail(format!("prepare_with_order: {} at {} nodes, but prepare, which has to find the order, takes {}", second, n, first));
        }
        let (a, b) = (again.get_num_out_edges() + again.get_num_in_edges(), f.get_num_out_edges() + f.get_num_in_edges());
        if a > 2 * b + 100 {
            p.fail(format!("prepare_with_order leaves {} edges, prepare {} ({} nodes)", a, b, n));
        }
    }
    p.put("edges in the prepared graph", (f.get_num_in_edges() + f.get_num_out_edges()) as u64, if grid { 8.0 } else { 5.0 }, 100);
    // calls whose work is proportional to the size of the prepared graph
    let size = |p: &Profile| (nodes as f64, p.of.iter().find(|x| x.0 == "edges in the prepared graph").unwrap().1 as f64);
    let (n1, m1) = size(p);
    let m0 = p.last.iter().find(|x| x.0 == "edges in the prepared graph").map_or(1.0, |x| x.1.max(1) as f64);
    let m = 1.6 * (m1 / m0).max(n1 / (n1 / 4.0));
    let bytes = p.measure("serialize", m, k, || bincode::serialize(&f).expect("serialize"));
    p.put("bytes of the stored graph", bytes.len() as u64, m, k);
    p.measure("deserialize", m, k, || bincode::deserialize::<FastGraph>(&bytes).expect("deserialize"));
    drop(bytes);
    let small = p.measure("FastGraph32::new", m, k, || FastGraph32::new(&f));
    let bytes = p.measure("serialize a FastGraph32", m, k, || bincode::serialize(&small).expect("serialize"));
    p.measure("deserialize a FastGraph32", m, k, || bincode::deserialize::<FastGraph32>(&bytes).expect("deserialize"));
    drop(bytes);
    p.measure("convert_to_usize", m, k, || small.convert_to_usize());
    p.measure("clone", m, k, || f.clone());
    let mut c = p.measure("create_calculator", linear, k, || create_calculator(&f));
    // queries
    let mut out = vec![vec![]; nodes];
    e.iter().for_each(|e| out[e.0].push((e.1, e.2)));
    eprintln!("queries (about {} nodes)", n);
    let at = if n <= 256 { (0..nodes).collect() } else { ends(nodes, if n > 20_000 { 12 } else { 24 }) };
    let (mut worst, mut trivial, mut absent, mut near, mut lists) = (0, 0, 0, 0, 0);
    let (mut sum, mut plain, mut compared) = (0u64, 0u64, 0u64);
    let mut fresh = vec![];
    let side = (n as f64).sqrt() as usize;
    let query = |c: &mut PathCalculator, s: usize, t: usize, limit: u64| -> (u64, Option<(usize, usize)>) {
        unsafe { work_limit = now() + limit };
        let (k, r) = cost(|| c.calc_path(&f, s, t));
        unsafe { work_limit = u64::MAX };
        (k, r.map(|r| (r.get_weight(), r.get_nodes().len())))
    };
    // a query may do as much as this before it is stopped
    let far = 400 * nodes as u64 + 10_000_000;
    for (i, &s) in at.iter().enumerate() {
        for (j, &t) in at.iter().enumerate() {
            let (k, r) = query(&mut c, s, t, far);
            p.calls += 1;
            let rest = k.saturating_sub(PER_NODE * r.map_or(0, |r| r.1 as u64));
            let slot = match r {
                None => &mut absent,
                Some((_, 1)) => &mut trivial,
                Some((_, 2)) => &mut near,
                _ => &mut worst,
            };
            *slot = rest.max(*slot);
            if (i + 3 * j) % 7 == 0 && fresh.len() < 40 {
                fresh.push((s, t, k));
            }
            if (i * at.len() + j) % (at.len() * at.len() / 50 + 1) == 0 && (!grid || r.map_or(0, |r| r.1) * 4 > side) {
                let (d, x) = dijkstra(&out, s, t);
                if r.map_or(usize::MAX, |r| r.0) != x {
                    p.fail(format!("wrong weight from {} to {}", s, t));
                }
                sum += k;
                plain += d;
                compared += 1;
            }
        }
    }
    // edges are queries, too
    for x in e.iter().step_by(e.len() / 300 + 1) {
        let (k, r) = query(&mut c, x.0, x.1, far);
        p.calls += 1;
        near = near.max(k.saturating_sub(PER_NODE * r.map_or(0, |r| r.1 as u64)));
    }
    // several sources and targets
    for x in at.chunks_exact(6).take(40) {
        let (a, b) = ([(x[0], 0), (x[3], 5), (x[1], 1)], [(x[2], 3), (x[5], 0), (x[4], 2)]);
        unsafe { work_limit = now() + far };
        let (k, r) = cost(|| c.calc_path_multiple_sources_and_targets(&f, a.to_vec(), b.to_vec()));
        unsafe { work_limit = u64::MAX };
        p.calls += 1;
        lists = lists.max(k.saturating_sub(PER_NODE * r.map_or(0, |r| r.get_nodes().len() as u64)));
    }
    let l1: Vec<_> = (0..nodes).map(|x| (x, x % 7)).collect();
    let l2 = l1.clone();
    let few = vec![(at[at.len() / 3], 1), (at[at.len() / 2], 0)];
    let few2 = few.clone();
    p.measure("query with all nodes as sources", linear, k, || c.calc_path_multiple_sources_and_targets(&f, l1, few));
    p.measure("query with all nodes as targets", linear, k, || c.calc_path_multiple_sources_and_targets(&f, few2, l2));
    let (f1, f2) = if grid { (7.0, 4.0) } else { (2.0, 1.6) };
    p.put("trivial query", trivial, f2, 600);
    p.put("query without an answer", absent, f2, 600);
    p.put("query between adjacent nodes", near, f1, 900);
    p.put("query with three sources and targets, beyond the work for the nodes of the path", lists, f1, 1800);
    p.put("query, beyond the work for the nodes of the path", worst, f1, 900);
    // how much of the work of plain Dijkstra? (grids, where the paths are short)
    if grid && w != Weights::Rising && n >= 4096 && compared > 0 && sum * 100 > plain * 30 {
        p.fail(format!("{} queries took {}, plain Dijkstra {}", compared, sum, plain));
    }
    if grid && n >= 4096 && (trivial * 4 > worst || near * 3 > worst) {
        p.fail(format!("{} nodes: the worst query takes {} (without the work for the nodes of the path), from a node to itself {}, between adjacent nodes {}", n, worst, trivial, near));
    }
    if std::env::var("SHARE").is_ok() {
        eprintln!("share {} {}", n, sum as f64 / plain.max(1) as f64);
    }
    p.put("(mean query)", sum / compared.max(1), 1e9, 0);
    p.put("(mean plain Dijkstra)", plain / compared.max(1), 1e9, 0);
    // queries after thousands of queries
    for &(s, t, before) in &fresh {
        let (k, _) = query(&mut c, s, t, far);
        p.calls += 1;
        if k > before + before / 2 + 600 {
            p.fail(format!("a query from {} to {} takes {}, after other queries {} ({} nodes)", s, t, before, k, n));
        }
    }
    for i in 0..if n > 20_000 { 300 } else { 1500 } {
        query(&mut c, at[i % at.len()], at[i * 31 % at.len()], far);
        p.calls += 1;
    }
    for &(s, t, before) in &fresh {
        let (k, _) = query(&mut c, s, t, far);
        p.calls += 1;
        if k > before + before / 2 + 600 {
            p.fail(format!("a query from {} to {} takes {}, after thousands of queries {} ({} nodes)", s, t, before, k, n));
        }
    }
}

fn sizes(sh: Shape, tier: &str) -> Vec<usize> {
    let top = match (sh, tier) {
        (Grid, "quick") | (OneWayGrid, "quick") => 6,
        (Grid, _) | (OneWayGrid, _) => 7,
        (Strip, "quick") | (Ladder, "quick") => 7,
        (_, "quick") => 8,
        _ => 9,
    };
    (4..=top).map(|k| 1 << (2 * k)).collect()
}

/// all graphs of one tier
fn all() -> Vec<(Shape, Weights, bool)> {
    let mut v = vec![];
    for sh in SHAPES {
        for w in WEIGHTS {
            for l in LABELS {
                v.push((sh, w, l));
            }
        }
    }
    v
}

/// work names                 the cases
/// work selftest              does the counter count?
/// work run TIER CASE         -> JSON
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let list = all();
    if a[1] == "names" {
        let v: Vec<String> = list.iter().map(|x| format!("{:?}, weights {:?}, {}", x.0, x.1, if x.2 { "ids scattered" } else { "ids along the shape" })).collect();
        println!("{}", serde_json::json!(v));
        return;
    }
    if a[1] == "selftest" {
        let g = |n: usize| {
            let mut g = InputGraph::new();
            edges(Chain, n, Weights::One, false).iter().for_each(|x| {
                g.add_edge(x.0, x.1, x.2);
            });
            g.freeze();
            g
        };
        let (small, large) = (g(100), g(400));
        let (a, f) = cost(|| prepare(&small));
        let (b, _) = cost(|| prepare(&large));
        let (c, _) = cost(|| f.clone());
        let (z, _) = cost(|| vec![0u8; 1 << 20]);
        let (again, _) = cost(|| prepare(&small));
        println!("{} {} {} {}", a, b, c, z);
        std::process::exit(if a > 5_000 && b > 3 * a && c > 100 && z >= 1 << 16 && again.abs_diff(a) < a / 4 { 0 } else { 1 });
    }
    let (sh, w, scatter) = list[a[3].parse::<usize>().unwrap()];
    let mut last = vec![];
    let mut calls = 0;
    let mut table = vec![];
    let mut fail = None;
    let mut done = vec![];
    for n in sizes(sh, &a[2]) {
        let mut p = Profile { n, of: vec![], last, calls: 0, fail: None };
        profile(sh, w, scatter, &mut p);
        calls += p.calls;
        done.push(n);
        table.push(serde_json::json!({"nodes": n, "work": p.of.iter().map(|x| serde_json::json!([x.0, x.1])).collect::<Vec<_>>()}));
        last = p.of;
        if p.fail.is_some() {
            fail = p.fail;
            break;
        }
    }
    println!("{}", serde_json::json!({"violation": fail, "calls": calls, "sizes": done, "table": table}));
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}
