//! Reference model: what the documentation says, independent of the implementation.

use fast_paths::*;

pub const MAXN: usize = 10;
pub const INF: u128 = u128::MAX;

/// (from, to, weight) as passed to add_edge
pub type E = (usize, usize, usize);

/// All-pairs distances of a small graph given by raw edges: loops and zero weights are ignored, of duplicates the
/// cheapest counts, a total weight that reaches WEIGHT_MAX counts as unreachable.
#[derive(Clone)]
pub struct Ref {
    pub n: usize,
    pub w: [[u128; MAXN]; MAXN],
    pub d: [[u128; MAXN]; MAXN],
}

pub fn accepted(e: &E) -> bool {
    e.0 != e.1 && e.2 > 0
}

/// Node count the documentation promises for a list of raw edges
pub fn node_count(edges: &[E]) -> usize {
    edges.iter().filter(|e| accepted(e)).map(|e| e.0.max(e.1) + 1).max().unwrap_or(0)
}

impl Ref {
    pub fn new(n: usize, edges: &[E]) -> Ref {
        assert!(n <= MAXN);
        let mut w = [[INF; MAXN]; MAXN];
        for e in edges.iter().filter(|e| accepted(e)) {
            let x = &mut w[e.0][e.1];
            *x = (*x).min(e.2 as u128);
        }
        let mut d = w;
        for i in 0..n {
            d[i][i] = 0;
        }
        for k in 0..n {
            for i in 0..n {
                if d[i][k] == INF {
                    continue;
                }
                for j in 0..n {
                    if d[k][j] != INF {
                        let x = d[i][k] + d[k][j];
                        if x < d[i][j] {
                            d[i][j] = x;
                        }
                    }
                }
            }
        }
        for i in 0..n {
            for j in 0..n {
                if d[i][j] >= WEIGHT_MAX as u128 {
                    d[i][j] = INF;
                }
            }
        }
        Ref { n, w, d }
    }

    /// Optimum over all source/target pairs; INF if there is none below WEIGHT_MAX
    pub fn multi(&self, s: &[(usize, usize)], t: &[(usize, usize)]) -> u128 {
        let mut best = INF;
        for &(a, wa) in s {
            if wa == WEIGHT_MAX {
                continue;
            }
            for &(b, wb) in t {
                if wb == WEIGHT_MAX || self.d[a][b] == INF {
                    continue;
                }
                best = best.min(wa as u128 + self.d[a][b] + wb as u128);
            }
        }
        if best >= WEIGHT_MAX as u128 {
            INF
        } else {
            best
        }
    }

    /// Is `p` a walk as promised, from one of `s` to one of `t`?
    pub fn check_path(&self, p: &ShortestPath, s: &[(usize, usize)], t: &[(usize, usize)]) -> Result<(), String> {
        let nodes = p.get_nodes();
        let bad = |m: &str| Err(format!("{}: {:?}", m, p));
        if nodes.is_empty() {
            return bad("empty node list");
        }
        if nodes.iter().any(|x| *x >= self.n) {
            return bad("unknown node in node list");
        }
        let (a, b) = (nodes[0], nodes[nodes.len() - 1]);
        if p.get_source() != a || p.get_target() != b {
            return bad("source/target are not the first/last node");
        }
        let mut sum = 0u128;
        let mut seen = 0u32;
        for (i, x) in nodes.iter().enumerate() {
            if seen & (1 << x) != 0 {
                return bad("node occurs twice");
            }
            seen |= 1 << x;
            if i > 0 {
                let w = self.w[nodes[i - 1]][*x];
                if w == INF {
                    return bad("consecutive nodes without an edge");
                }
                sum += w;
            }
        }
        let ok = s
            .iter()
            .filter(|x| x.0 == a)
            .any(|x| t.iter().filter(|y| y.0 == b).any(|y| x.1 as u128 + sum + y.1 as u128 == p.get_weight() as u128));
        if !ok {
            return bad("endpoints not requested, or weight is not the sum of the edge weights");
        }
        if !p.is_found() {
            return bad("returned path claims not to be found");
        }
        Ok(())
    }
}

pub fn build_input(edges: &[E]) -> InputGraph {
    let mut g = InputGraph::new();
    for e in edges {
        g.add_edge(e.0, e.1, e.2);
    }
    g.freeze();
    g
}

pub fn show_input(edges: &[E]) -> String {
    let mut s = String::from("let mut g = InputGraph::new();\n");
    for e in edges {
        s += &format!("g.add_edge({}, {}, {});\n", e.0, e.1, e.2);
    }
    s + "g.freeze();\n"
}

/// k-th permutation of 0..n (factorial number system, so that k -> permutation is a bijection)
pub fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut res = Vec::with_capacity(n);
    for i in (1..=n).rev() {
        let f = factorial(i - 1);
        res.push(pool.remove((k / f) as usize));
        k %= f;
    }
    res
}

pub fn factorial(n: usize) -> u64 {
    (1..=n as u64).product()
}
