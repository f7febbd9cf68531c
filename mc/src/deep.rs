//! C19: long paths and deeply nested hierarchies.

use crate::engine::*;
use crate::families::*;
use crate::reference::*;
use fast_paths::*;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap};

/// Plain Dijkstra on the raw edges
pub struct Big {
    pub n: usize,
    adj: Vec<Vec<(usize, u64)>>,
    w: HashMap<(usize, usize), u64>,
}

impl Big {
    pub fn new(n: usize, edges: &[E]) -> Big {
        let mut adj = vec![vec![]; n];
        let mut w = HashMap::with_capacity(edges.len());
        for e in edges.iter().filter(|e| accepted(e)) {
            adj[e.0].push((e.1, e.2 as u64));
            let x = w.entry((e.0, e.1)).or_insert(e.2 as u64);
            *x = (*x).min(e.2 as u64);
        }
        Big { n, adj, w }
    }
    pub fn from(&self, s: usize) -> Vec<u64> {
        self.from_many(&[(s, 0)])
    }
    pub fn from_many(&self, starts: &[(usize, usize)]) -> Vec<u64> {
        let mut d = vec![u64::MAX; self.n];
        let mut q = BinaryHeap::new();
        for &(s, w) in starts {
            if (w as u64) < d[s] {
                d[s] = w as u64;
                q.push(Reverse((w as u64, s)));
            }
        }
        while let Some(Reverse((x, u))) = q.pop() {
            if x > d[u] {
                continue;
            }
            for &(v, w) in &self.adj[u] {
                // what reaches the maximum weight does not exist
                let y = x.saturating_add(w);
                if y < d[v] {
                    d[v] = y;
                    q.push(Reverse((y, v)));
                }
            }
        }
        d
    }
    /// Is `p` a walk as promised, from one of `s` to one of `t`?
    pub fn check_walk(&self, p: &ShortestPath, s: &[(usize, usize)], t: &[(usize, usize)]) -> CaseResult {
        let l = p.get_nodes();
        if l.is_empty() || p.get_source() != l[0] || p.get_target() != l[l.len() - 1] || !p.is_found() {
            return Err(format!("source/target are not the first/last node: {:?}", p));
        }
        let mut seen = vec![false; self.n];
        let mut sum = 0u128;
        for (i, x) in l.iter().enumerate() {
            if *x >= self.n || std::mem::replace(&mut seen[*x], true) {
                return Err(format!("unknown or repeated node {}: {:?}", x, p));
            }
            if i > 0 {
                match self.w.get(&(l[i - 1], *x)) {
                    None => return Err(format!("no edge {} -> {}: {:?}", l[i - 1], x, p)),
                    Some(w) => sum += *w as u128,
                }
            }
        }
        let rest = p.get_weight() as u128;
        let ok = s
            .iter()
            .filter(|x| x.0 == l[0])
            .any(|x| t.iter().filter(|y| y.0 == l[l.len() - 1]).any(|y| x.1 as u128 + sum + y.1 as u128 == rest));
        if !ok {
            return Err(format!("endpoints not requested, or weight is not the sum of the edge weights: {:?}", p));
        }
        Ok(())
    }
    pub fn check(&self, p: &Option<ShortestPath>, s: usize, t: usize, want: u64) -> CaseResult {
        match p {
            None if want == u64::MAX => Ok(()),
            None => Err(format!("{} -> {}: no path, expected weight {}", s, t, want)),
            Some(p) => {
                if p.get_weight() as u64 != want {
                    return Err(format!("{} -> {}: weight {}, expected {}", s, t, p.get_weight(), want as i64));
                }
                let l = p.get_nodes();
                if l.first() != Some(&s) || l.last() != Some(&t) || p.get_source() != s || p.get_target() != t {
                    return Err(format!("{} -> {}: wrong end nodes", s, t));
                }
                let mut sum = 0;
                for x in l.windows(2) {
                    match self.w.get(&(x[0], x[1])) {
                        None => return Err(format!("{} -> {}: no edge {} -> {}", s, t, x[0], x[1])),
                        Some(w) => sum += w,
                    }
                }
                if sum != want {
                    return Err(format!("{} -> {}: node list weighs {}, expected {}", s, t, sum, want));
                }
                Ok(())
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Chain,
    BiChain,
    Ring,
    BiRing,
    Star,
    Ladder,
    Grid,
    Comb,
    /// a chain with one-way shortcuts back
    Snake,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ord_ {
    Default,
    /// ids ascending / descending
    Up,
    Down,
    /// inner nodes ascending/descending, then the two ends
    Inner,
    InnerRev,
    /// from the middle to the ends, alternating
    MiddleOut,
    EndsIn,
    /// odd ids, then every second of the rest, ... (balanced nesting)
    Halving,
    /// odd positions ascending, then even ones descending
    Zigzag,
}

pub const ORDERS: [Ord_; 9] = [
    Ord_::Default,
    Ord_::Up,
    Ord_::Down,
    Ord_::Inner,
    Ord_::InnerRev,
    Ord_::MiddleOut,
    Ord_::EndsIn,
    Ord_::Halving,
    Ord_::Zigzag,
];

fn order(kind: Ord_, n: usize) -> Vec<usize> {
    match kind {
        Ord_::Default => vec![],
        Ord_::Up => (0..n).collect(),
        Ord_::Down => (0..n).rev().collect(),
        Ord_::Inner | Ord_::InnerRev => {
            let mut v: Vec<usize> = (1..n.saturating_sub(1)).collect();
            if kind == Ord_::InnerRev {
                v.reverse();
            }
            if n > 1 {
                v.push(n - 1);
            }
            v.push(0);
            v
        }
        Ord_::MiddleOut | Ord_::EndsIn => {
            let m = n / 2;
            let mut v = vec![];
            for k in 0..n {
                let a = m + k;
                if a < n {
                    v.push(a);
                }
                if k > 0 && k <= m {
                    v.push(m - k);
                }
            }
            if kind == Ord_::EndsIn {
                v.reverse();
            }
            v
        }
        Ord_::Halving => {
            let mut v = vec![];
            let mut rest: Vec<usize> = (0..n).collect();
            while !rest.is_empty() {
                v.extend(rest.iter().skip(1).step_by(2));
                rest = rest.into_iter().step_by(2).collect();
                if rest.len() == 1 {
                    v.push(rest[0]);
                    break;
                }
            }
            v
        }
        Ord_::Zigzag => {
            let mut v: Vec<usize> = (0..n).skip(1).step_by(2).collect();
            let mut w: Vec<usize> = (0..n).step_by(2).collect();
            w.reverse();
            v.extend(w);
            v
        }
    }
}

pub fn shape(s: Shape, n: usize) -> Vec<E> {
    let d = |i: usize| 1 + (i * 5 + 3) % 7;
    match s {
        Shape::Chain => chain(n, d),
        Shape::BiChain => bidir(&chain(n, d)),
        Shape::Ring => ring(n, d),
        Shape::BiRing => bidir(&ring(n, |i| 1 + i % 2)),
        Shape::Star => bidir(&star(n, d)),
        Shape::Ladder => bidir(&grid((n + 1) / 2, 2, |a, b| 1 + (a + b) % 3)),
        Shape::Grid => {
            let c = ((n as f64).sqrt() as usize).max(2);
            bidir(&grid((n / c).max(2), c, |a, b| 1 + (a * 3 + b) % 4))
        }
        Shape::Comb => {
            let mut v = bidir(&chain(n / 2, d));
            for i in 0..n / 2 {
                v.extend(bidir(&[(i, n / 2 + i, 2)]));
            }
            v
        }
        Shape::Snake => {
            let mut v = chain(n, |_| 2);
            for i in 0..n / 3 {
                v.push((i * 3 + 2, i * 3, 1));
            }
            v
        }
    }
}

#[derive(Clone, Copy)]
pub struct DeepCase {
    pub shape: Shape,
    pub n: usize,
    pub order: Ord_,
    /// node ids are multiplied by this
    pub stride: usize,
    /// 0 = no, 1 = bincode, 2 = 32 bit
    pub stored: usize,
}

pub struct Deep {
    pub label: String,
    pub cases: Vec<DeepCase>,
}

impl Space for Deep {
    fn name(&self) -> String {
        format!("deep({},{} cases)", self.label, self.cases.len())
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        240
    }
    fn bounds(&self) -> String {
        format!(
            "{} (shape, size, order, id stride, stored) combinations up to {} nodes",
            self.cases.len(),
            self.cases.iter().map(|c| c.n * c.stride).max().unwrap_or(0)
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let c = self.cases[i as usize];
        let mut edges = shape(c.shape, c.n);
        let plain_n = node_count(&edges);
        for e in edges.iter_mut() {
            e.0 *= c.stride;
            e.1 *= c.stride;
        }
        let n = node_count(&edges);
        let input = build_input(&edges);
        let mut fg = if c.order == Ord_::Default {
            prepare(&input)
        } else {
            let mut o: Vec<usize> = order(c.order, plain_n).iter().map(|x| x * c.stride).collect();
            // nodes without edges in between
            if c.stride > 1 {
                let mut gaps: Vec<usize> = (0..n).filter(|x| x % c.stride != 0).collect();
                if c.stride % 2 == 0 {
                    gaps.extend(o);
                    o = gaps;
                } else {
                    o.extend(gaps);
                }
            }
            let fg = prepare_with_order(&input, &o)?;
            if fg.get_node_ordering() != o {
                return Err("the ordering is reported differently".into());
            }
            fg
        };
        match c.stored {
            1 => {
                let b = bincode::serialize(&fg).map_err(|e| e.to_string())?;
                fg = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            }
            2 => fg = FastGraph32::new(&fg).convert_to_usize(),
            _ => {}
        }
        if fg.get_num_nodes() != n {
            return Err(format!("{} nodes, expected {}", fg.get_num_nodes(), n));
        }
        ctx.calls += edges.len() as u64 + 2;
        let r = Big::new(n, &edges);
        let mut calc = create_calculator(&fg);
        let last = n - 1;
        let mid = n / 2 / c.stride * c.stride;
        let q1 = n / 4 / c.stride * c.stride;
        let q3 = n * 3 / 4 / c.stride * c.stride;
        let mut longest = 0;
        for s in [0, last, mid] {
            let d = r.from(s);
            for t in [0, q1, mid, q3, last, last.saturating_sub(c.stride)] {
                let p = calc.calc_path(&fg, s, t);
                ctx.calls += 1;
                ctx.states += 1;
                r.check(&p, s, t, d[t])?;
                if let Some(p) = p {
                    longest = longest.max(p.get_nodes().len());
                }
            }
            let p = calc_path_multiple_sources_and_targets(&fg, vec![(s, 1)], vec![(mid, 3), (last, 0)]);
            let want = [(mid, 4), (last, 1)].iter().filter(|x| d[x.0] != u64::MAX).map(|x| d[x.0] + x.1).min();
            ctx.calls += 1;
            ctx.states += 1;
            if p.map(|p| p.get_weight() as u64) != want {
                return Err(format!("multiple targets from {}: expected {:?}", s, want));
            }
        }
        ctx.traces += 1;
        ctx.nontrivial += (longest > 2) as u64;
        ctx.outcome(mix(longest as u64, i));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let c = self.cases[i as usize];
        let e = shape(c.shape, c.n);
        let mut s = format!(
            "// {:?} with {} nodes (ids multiplied by {}), order {:?}, {}\n",
            c.shape,
            c.n,
            c.stride,
            c.order,
            ["queried directly", "after bincode", "after conversion to 32 bit"][c.stored]
        );
        if e.len() < 40 {
            s += &show_input(&e);
            if c.order != Ord_::Default {
                s += &format!("// order before multiplying: {:?}\n", order(c.order, node_count(&e)));
            }
        } else {
            s += &format!("// edges (before multiplying) begin with {:?}\n", &e[..12]);
            let o = order(c.order, node_count(&e));
            s += &format!(
                "// order begins with {:?}, ends with {:?}\n",
                &o[..o.len().min(8)],
                &o[o.len().saturating_sub(4)..]
            );
        }
        s
    }
}

const SHAPES: [Shape; 9] = [
    Shape::Chain,
    Shape::BiChain,
    Shape::Ring,
    Shape::BiRing,
    Shape::Star,
    Shape::Ladder,
    Shape::Grid,
    Shape::Comb,
    Shape::Snake,
];

/// every size from 2 up with every shape and order
pub fn every_size(max: usize, stored: bool) -> Box<dyn Space> {
    let mut cases = vec![];
    for n in 2..=max {
        for s in SHAPES {
            for o in ORDERS {
                // contracting the hub or whole grid lines first needs quadratically many shortcuts
                if s == Shape::Star && n > 60 && !matches!(o, Ord_::Default | Ord_::Down) {
                    continue;
                }
                if matches!(s, Shape::Chain) && n < 2 || n < 4 && matches!(s, Shape::Ring | Shape::BiRing | Shape::Comb)
                {
                    continue;
                }
                for stride in [1, 3] {
                    if stride > 1 && n % 5 != 2 {
                        continue;
                    }
                    for st in 0..3 {
                        if st > 0 && (!stored || n % 7 != 3) {
                            continue;
                        }
                        cases.push(DeepCase { shape: s, n, order: o, stride, stored: st });
                    }
                }
            }
        }
    }
    Box::new(Deep { label: format!("every size up to {}", max), cases })
}

pub fn huge(sizes: &[usize], grid: &[usize], star: &[usize]) -> Box<dyn Space> {
    let mut cases = vec![];
    let mut add = |shape, n, order, stride, stored| cases.push(DeepCase { shape, n, order, stride, stored });
    for &n in sizes {
        for s in [Shape::Chain, Shape::BiChain, Shape::Ring, Shape::BiRing, Shape::Snake] {
            for o in ORDERS {
                add(s, n, o, 1, 0);
                if matches!(o, Ord_::Inner | Ord_::MiddleOut | Ord_::Default) {
                    add(s, n, o, 1, 1 + (n + s as usize) % 2);
                    if n <= 100_000 {
                        add(s, n, o, 3, 0);
                    }
                }
            }
        }
        for o in [Ord_::Default, Ord_::Up, Ord_::Down] {
            add(Shape::Ladder, n, o, 1, 0);
        }
        for o in [Ord_::Default, Ord_::Down] {
            add(Shape::Comb, n, o, 1, 0);
        }
    }
    for &n in grid {
        add(Shape::Grid, n, Ord_::Default, 1, 0);
        add(Shape::Grid, n, Ord_::Default, 2, 1);
    }
    for &n in star {
        for o in [Ord_::Default, Ord_::Down] {
            add(Shape::Star, n, o, 1, 0);
        }
    }
    Box::new(Deep { label: format!("sizes {:?}, grids {:?}, stars {:?}", sizes, grid, star), cases })
}
