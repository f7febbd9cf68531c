//! Which spaces decide which property in which tier.

use crate::acts;
use crate::agree;
use crate::deep;
use crate::editing;
use crate::engine::Space;
use crate::families::*;
use crate::files::*;
use crate::history;
use crate::interleave;
use crate::large::{self, large, LGraph, LPrep, Lo, Sh, What, Wt};
use crate::persist::*;
use crate::queries::*;
use crate::reference::E;
use crate::refuse;
use crate::reuse::*;
use crate::says;

type Spaces = Vec<Box<dyn Space>>;

const M: usize = usize::MAX;

fn gq(fam: Fam, prep: Prep, oracle: Oracle) -> Box<dyn Space> {
    Box::new(GraphQueries { fam, prep, oracle, standalone: false })
}
fn alone(fam: Fam, oracle: Oracle) -> Box<dyn Space> {
    Box::new(GraphQueries { fam, prep: Prep::Default, oracle, standalone: true })
}

fn tops(ns: &[usize]) -> Vec<Vec<E>> {
    ns.iter().flat_map(|n| topologies(*n)).collect()
}

const BUDGETS: [usize; 6] = [0, 1, 2, 3, M, NO_PARAMS];

pub fn param_grid(full: bool) -> Vec<ParamSet> {
    let mut v = vec![];
    let budgets: &[usize] = if full { &[0, 1, 2, M] } else { &[0, 1, M] };
    for &a in budgets {
        for &b in budgets {
            for &c in budgets {
                for (d, q) in [(0.1f32, 1.0f32), (0.0, 5.0), (7.0, 0.0)] {
                    let mut p = params(d, a, b, c);
                    p.quot = q;
                    v.push(p);
                }
            }
        }
    }
    let ext = [0.0f32, 1.0, -1.0, 1e30, -1e30, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    for d in ext {
        for q in ext {
            let mut p = params(d, 500, 100, 500);
            p.quot = q;
            v.push(p);
        }
    }
    v
}

fn few_params() -> Vec<ParamSet> {
    let mut v = vec![
        params(0.1, 500, 100, 500),
        params(0.0, 0, 0, 0),
        params(10.0, 1, 1, 1),
        params(0.5, M, M, M),
        params(0.1, 100, 0, 2),
        params(2.0, 0, 3, M),
    ];
    v[4].quot = 0.0;
    v[5].quot = 9.0;
    v
}

fn configs(orders: u64) -> Vec<Config> {
    let mut v: Vec<Config> = vec![Config::Default];
    v.extend(few_params().into_iter().skip(1).map(Config::Set));
    for k in 0..orders {
        v.push(Config::Order(k, if k % 2 == 0 { 0 } else { M }));
    }
    v
}

/// families for the default preparation
fn default_families(deep: bool) -> Vec<Fam> {
    let mut v: Vec<Fam> = vec![
        raw(&[0, 1, 2], &[0, 1, 2], 0),
        raw(&[0, 1, 2], &[0, 1, 2], 1),
        raw(&[0, 1, 2], &[0, 1, 2], 2),
        raw(&[0, 1, 2], &[0, 1, 2], 3),
        raw(&[0, 1], &[0, 1, 2, 5], 5),
        digraphs(2, &[1, 2, 3, 7]),
        digraphs(3, &[1, 2, 3, 5]),
        digraphs(4, &[1, 2]),
        undirected(5, &[1, 2, 3]),
        table(5, 0),
        table(5, 1),
        mapped(digraphs(3, &[1, 2, 3]), &[1, 4, 8]),
        mapped(digraphs(3, &[1, 2, 3]), &[5, 9, 0]),
        mapped(digraphs(4, &[1]), &[2, 3, 6, 7]),
        fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])),
        raw(&[0, 1, 2], &[0, 1, 2], 4),
        raw(&[0, 1, 2, 3], &[1, 2], 4),
        digraphs(3, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17]),
        digraphs(4, &[2, 3]),
        digraphs(5, &[1]),
        undirected(6, &[1]),
        table(5, 2),
        table(5, 3),
    ];
    if deep {
        v.push(digraphs(4, &[1, 3, 4]));
        v.push(undirected(5, &[1, 2, 3, 5]));
        v.push(undirected(6, &[1, 2]));
        v.push(mapped(digraphs(4, &[1, 2]), &[9, 0, 4, 5]));
        v.push(Box::new(PairStates { n: 5, states: vec![(0, 0), (1, 0), (0, 1), (1, 2), (2, 2)], label: "mixed" }));
        v.push(Box::new(PairStates {
            n: 5,
            states: vec![(0, 0), (1, 1), (2, 2), (1, 0), (0, 2), (2, 1)],
            label: "mixed and symmetric",
        }));
        v.push(undirected(7, &[1]));
    }
    v
}

pub fn huge_weights() -> Vec<usize> {
    vec![1, M / 2, M / 2 + 1, M - 1, M]
}

/// sizes beyond the exhaustively enumerated ones
fn sizes(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (11..=if deep { 200 } else { 66 }).collect();
    v.extend([
        47, 48, 49, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000,
        1024, 1025,
    ]);
    if deep {
        v.extend([
            150, 199, 201, 400, 499, 500, 501, 600, 767, 768, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048,
            2049,
        ]);
    }
    v.sort();
    v.dedup();
    v
}
fn upto(v: Vec<usize>, max: usize) -> Vec<usize> {
    v.into_iter().filter(|x| *x <= max).collect()
}

/// magnitudes around powers of two
fn magnitudes(deep: bool) -> Vec<Fam> {
    let ks: &[u32] = if deep {
        &[7, 8, 15, 16, 20, 23, 24, 30, 31, 32, 33, 40, 48, 52, 53, 54, 62]
    } else {
        &[8, 16, 24, 31, 32, 53]
    };
    ks.iter()
        .map(|k| {
            let x = 1usize << k;
            digraphs(3, &[x - 1, x, x + 1])
        })
        .collect()
}

fn large_default(deep: bool, oracle: Oracle) -> Vec<Box<dyn Space>> {
    let all = &large::SHAPES;
    let g = large::graphs(all, &sizes(deep), &large::WEIGHTS, 40, if deep { 130 } else { 100 });
    let name = match oracle {
        Oracle::Dist => "distances",
        Oracle::Path => "paths",
    };
    vec![large(name, g, vec![LPrep::Default], What::One(oracle))]
}

fn large_orders(deep: bool, oracle: Oracle) -> Box<dyn Space> {
    let w = [Wt::One, Wt::Mixed, Wt::Up, Wt::Edge, Wt::Metric];
    let s = if deep { sizes(false) } else { vec![11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128] };
    let g = large::graphs(&large::SHAPES, &upto(s, 130), &w, 24, 40);
    let name = match oracle {
        Oracle::Dist => "distances for orders",
        Oracle::Path => "paths for orders",
    };
    let b: &[usize] = if deep { &[0, 1, 3, 10, M, NO_PARAMS] } else { &[0, 2, NO_PARAMS] };
    large(name, g, large::orders(b), What::One(oracle))
}

/// large sparse graphs in which searches settle far more nodes than the usual limits
fn wide(deep: bool) -> Vec<LGraph> {
    let s: &[usize] = if deep { &[601, 1003, 1203, 1502, 2051] } else { &[601, 1003, 1203] };
    let mut v = large::graphs(&[Sh::Dumbbell, Sh::Arch], s, &[Wt::Hub, Wt::One], 0, 0);
    v.extend(large::graphs(
        &[Sh::BiChain, Sh::BiRing, Sh::Tree, Sh::Islands, Sh::Cliques],
        &s[1..],
        &[Wt::Hub, Wt::Mixed],
        0,
        0,
    ));
    if deep {
        v.extend(large::graphs(
            &[Sh::Grid, Sh::Ladder, Sh::BiCirculant, Sh::OneWayGrid],
            &[601, 1003],
            &[Wt::Mixed, Wt::Metric],
            0,
            0,
        ));
    }
    v
}

fn wide_preps(deep: bool, budgets: &[usize]) -> Vec<LPrep> {
    let mut v = vec![];
    for &b in budgets {
        for o in [Lo::Down, Lo::Recorded] {
            v.push(LPrep::Order(o, b));
        }
        if deep {
            v.push(LPrep::Order(Lo::EndsIn, b));
            v.push(LPrep::Order(Lo::BitReversed, b));
            v.push(LPrep::Order(Lo::EvensOdds, b));
        }
    }
    v
}

/// sparse graphs with thousands of nodes
fn huge(deep: bool) -> Vec<LGraph> {
    let s: &[usize] = if deep {
        &[
            2050, 4097, 4999, 8193, 10_001, 16_385, 20_011, 32_769, 50_021, 65_535, 65_536, 65_537, 70_003, 100_003,
            131_073,
        ]
    } else {
        &[2050, 5003, 10_007, 66_001]
    };
    let sh = [
        Sh::BiChain,
        Sh::BiRing,
        Sh::Ring,
        Sh::Ladder,
        Sh::Tree,
        Sh::Caterpillar,
        Sh::BiCirculant,
        Sh::Cliques,
        Sh::StarOut,
        Sh::StarIn,
        Sh::Arch,
    ];
    large::graphs(&sh, s, if deep { &[Wt::Mixed, Wt::Edge, Wt::One] } else { &[Wt::Mixed] }, 0, 0)
}

/// fixed orders fill large trees and circulants with too many shortcuts
fn huge_space(deep: bool, label: &'static str, preps: Vec<LPrep>, what: What) -> Spaces {
    let (plain, others): (Vec<_>, Vec<_>) = preps.into_iter().partition(|p| matches!(p, LPrep::Default));
    let mut v = vec![];
    if !plain.is_empty() {
        v.push(large(label, huge(deep), plain, what));
    }
    if !others.is_empty() {
        let g = huge(deep).into_iter().filter(|g| !matches!(g.sh, Sh::Tree | Sh::BiCirculant));
        v.push(large(label, g.collect(), others, what));
    }
    v
}

fn huge_preps() -> Vec<LPrep> {
    vec![LPrep::Default, LPrep::Order(Lo::BitReversed, 20)]
}

fn c01(deep: bool) -> Spaces {
    let mut v: Spaces = default_families(deep).into_iter().map(|f| gq(f, Prep::Default, Oracle::Dist)).collect();
    v.push(alone(digraphs(3, &[1, 2]), Oracle::Dist));
    v.push(alone(digraphs(4, &[1]), Oracle::Dist));
    if deep {
        v.push(gq(digraphs(4, &[1, 2, 3, 4]), Prep::Default, Oracle::Dist));
    }
    v.extend(magnitudes(deep).into_iter().map(|f| gq(f, Prep::Default, Oracle::Dist)));
    v.extend(large_default(deep, Oracle::Dist));
    v.push(large("wide searches", wide(deep), vec![LPrep::Default], What::One(Oracle::Dist)));
    v.extend(huge_space(deep, "thousands of nodes", vec![LPrep::Default], What::One(Oracle::Dist)));
    v
}

fn order_spaces(deep: bool, oracle: Oracle) -> Spaces {
    let all = |f: Fam, b: &[usize]| gq(f, Prep::AllOrders(b.to_vec()), oracle);
    let mut v = vec![
        all(digraphs(2, &[1, 2, 3]), &BUDGETS),
        all(digraphs(3, &[1, 2, 3]), &BUDGETS),
        all(raw(&[0, 1, 2], &[0, 1, 2], 3), &[0, M]),
        all(mapped(digraphs(3, &[1, 2]), &[1, 3, 4]), &[0, 2]),
        all(digraphs(4, &[1]), &[0, 1, 2, M, NO_PARAMS]),
        all(undirected(4, &[1, 2, 3, 5]), &[0, 1, 2, M]),
        all(fixed("topologies 5", topologies(5)), &[0, 1, 2, 3, M]),
        all(fixed("topologies 6", topologies(6)), &[0, 1, 2, 3, M]),
        all(fixed("topologies 7", topologies(7)), &[0, 2, M]),
    ];
    v.push(all(digraphs(3, &[1, 2, 3, 5, 8]), &BUDGETS));
    if deep {
        v.push(all(digraphs(4, &[1, 2]), &[0, 2, M]));
        v.push(all(undirected(5, &[1, 2]), &[0, 2, M]));
        v.push(all(fixed("topologies 8", topologies(8)), &[0, 2, M]));
        v.push(all(fixed("topologies 9", topologies(9)), &[0, M]));
    } else {
        v.push(all(digraphs(4, &[1, 2]), &[if oracle == Oracle::Dist { 1 } else { M }]));
        v.push(all(undirected(5, &[1]), &[0, 1, M]));
        v.push(all(undirected(5, &[1, 2]), &[if oracle == Oracle::Dist { M } else { 2 }]));
        v.push(all(fixed("topologies 8", topologies(8)), &[if oracle == Oracle::Dist { 2 } else { M }]));
    }
    if deep && oracle == Oracle::Dist {
        v.push(all(digraphs(4, &[1, 2, 3]), &[1]));
        v.push(all(fixed("topologies 10", topologies(10)), &[M]));
    }
    v.push(large_orders(deep, oracle));
    v.push(large(
        "wide searches for orders",
        wide(deep),
        wide_preps(deep, if deep { &[0, 400, 700, NO_PARAMS, M] } else { &[0, 700, M] }),
        What::One(oracle),
    ));
    if oracle == Oracle::Dist {
        v.extend(huge_space(
            deep,
            "distances for orders, thousands of nodes",
            vec![LPrep::Order(Lo::BitReversed, 20)],
            What::One(oracle),
        ));
        let simple = |g: &LGraph| matches!(g.sh, Sh::BiChain | Sh::Ring | Sh::StarOut | Sh::StarIn);
        v.push(large(
            "distances without parameters, thousands of nodes",
            huge(deep).into_iter().filter(|g| g.n <= 2050 && g.sh != Sh::Tree || simple(g)).collect(),
            vec![LPrep::Order(Lo::BitReversed, NO_PARAMS)],
            What::One(oracle),
        ));
        v.push(large(
            "distances for evens first, thousands of nodes",
            huge(deep).into_iter().filter(simple).collect(),
            vec![LPrep::Order(Lo::EvensOdds, 3)],
            What::One(oracle),
        ));
    }
    v
}

fn c02(deep: bool) -> Spaces {
    let mut v: Spaces = default_families(deep).into_iter().map(|f| gq(f, Prep::Default, Oracle::Path)).collect();
    v.extend(order_spaces(deep, Oracle::Path));
    v.push(alone(digraphs(3, &[1, 2]), Oracle::Path));
    v.push(gq(digraphs(3, &[1, 2, 3]), Prep::Params(param_grid(false)), Oracle::Path));
    v.push(multi(digraphs(2, &[1, 3]), &[0, 1, 3], 3, Oracle::Path, false, true));
    v.push(multi(digraphs(3, &[1, 2]), &[0, 1, 4], 2, Oracle::Path, false, true));
    v.push(multi(fixed("topologies 5", topologies(5)), &[0, 2], 2, Oracle::Path, false, true));
    v.extend(magnitudes(deep).into_iter().map(|f| gq(f, Prep::Default, Oracle::Path)));
    v.extend(large_default(deep, Oracle::Path));
    v.push(large_many(deep, Oracle::Path));
    for k in [8usize, 16, 20, 21, 24, 31, 32, 40, 53] {
        let x = 1usize << k;
        v.push(multi(digraphs(2, &[x - 1, x + 1]), &[0, 1, x, 3 * x], 3, Oracle::Path, false, true));
        v.push(multi(digraphs(3, &[x]), &[0, 3 * x + 1], 2, Oracle::Path, false, true));
    }
    v.extend(huge_space(deep, "paths, thousands of nodes", huge_preps(), What::One(Oracle::Path)));
    v.extend(huge_space(deep, "long lists, thousands of nodes, paths", vec![LPrep::Default], What::Many(Oracle::Path)));
    v
}

fn large_many(deep: bool, oracle: Oracle) -> Box<dyn Space> {
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::Mixed, Wt::One, Wt::Edge, Wt::Huge] };
    let s: &[usize] = if deep { &[11, 16, 33, 64, 65, 100, 129, 200] } else { &[12, 40, 65, 130] };
    let name = match oracle {
        Oracle::Dist => "long lists, distances",
        Oracle::Path => "long lists, paths",
    };
    large(
        name,
        large::graphs(&large::SHAPES, s, w, 40, 65),
        vec![LPrep::Default, LPrep::Order(Lo::Stride3, 5)],
        What::Many(oracle),
    )
}

fn c04(deep: bool) -> Spaces {
    let p = |f: Fam, g: Vec<ParamSet>| gq(f, Prep::Params(g), Oracle::Dist);
    let mut v = vec![
        p(digraphs(3, &[1, 2, 3]), param_grid(true)),
        p(raw(&[0, 1, 2], &[0, 1, 2], 2), param_grid(false)),
        p(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), param_grid(true)),
        p(undirected(4, &[1, 2, 3]), param_grid(true)),
        p(digraphs(4, &[1]), param_grid(true)),
        p(digraphs(4, &[1, 2]), few_params()),
        p(undirected(5, &[1, 2]), few_params()),
        p(mapped(digraphs(3, &[1, 2]), &[1, 4, 6]), param_grid(false)),
        p(undirected(5, &[1, 2, 3]), few_params()),
        p(digraphs(3, &[1, 2, 3, 5, 9]), param_grid(true)),
    ];
    if deep {
        v.push(p(digraphs(4, &[1, 2]), param_grid(true)));
        v.push(p(undirected(5, &[1, 2]), param_grid(true)));
        v.push(p(table(5, 1), few_params()));
        v.push(p(table(5, 2), few_params()));
        v.push(p(undirected(5, &[1, 2, 3, 5]), few_params()));
    }
    let s = if deep { upto(sizes(false), 260) } else { vec![11, 12, 13, 15, 16, 17, 20, 25, 33, 64, 65, 100, 129] };
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::One, Wt::Mixed, Wt::Up, Wt::Edge, Wt::Metric] };
    let mut ps: Vec<LPrep> = few_params().into_iter().map(LPrep::Set).collect();
    for c in [0, 1, 2, 5, 10, 50] {
        ps.push(LPrep::Set(params(0.1, c + 1, c / 2, c)));
        ps.push(LPrep::Set(params(1.0, 500 - c, c, 3)));
    }
    v.push(large("parameters", large::graphs(&large::SHAPES, &s, w, 24, 40), ps, What::One(Oracle::Dist)));
    let ps = [50, 300, 499, 500, 1000, M].iter().map(|c| LPrep::Set(params(0.1, *c, 100, *c))).collect();
    v.push(large("wide searches", wide(deep), ps, What::One(Oracle::Dist)));
    v.extend(huge_space(
        deep,
        "parameters, thousands of nodes",
        vec![LPrep::Set(params(1.0, 20, 5, 20))],
        What::One(Oracle::Dist),
    ));
    let g = huge(deep).into_iter().filter(|g| g.n < 20_000 && !matches!(g.sh, Sh::Tree | Sh::BiCirculant));
    let ps = vec![LPrep::Set(params(0.0, 3, M, 1))];
    v.push(large("no weight on edges, thousands of nodes", g.collect(), ps, What::One(Oracle::Dist)));
    v
}

fn c05(deep: bool) -> Spaces {
    let d = Oracle::Dist;
    let mut v = vec![
        multi(digraphs(2, &[1, 3]), &[0, 1, 3, M], 3, d, false, true),
        multi(digraphs(3, &[1, 2]), &[0, 1, 4, M], 2, d, false, false),
        multi(digraphs(3, &[1]), &[0, 2, M], 2, d, false, true),
        multi(digraphs(3, &[1]), &[0, 2], 3, d, false, false),
        multi(digraphs(3, &[2]), &[0, 1, M], 2, d, true, false),
        multi(undirected(4, &[1, 3]), &[0, 2], 2, d, false, true),
        multi(fixed("topologies 5", topologies(5)), &[0, 1, 5], 2, d, false, true),
        multi(fixed("topologies 8", topologies(8)), &[0, 3], 2, d, false, true),
        multi(mapped(digraphs(2, &[1, 2]), &[3, 1]), &[0, 1, M], 2, d, false, false),
        multi(digraphs(4, &[1]), &[0, 1], 2, d, false, true),
        multi(digraphs(3, &[1, 2]), &[0, 1, 4], 3, d, false, false),
        multi(fixed("topologies 4", topologies(4)), &[0, 1, 3], 3, d, false, true),
    ];
    if deep {
        v.push(multi(digraphs(4, &[1, 2]), &[0, 3], 2, d, false, false));
        v.push(multi(digraphs(3, &[1, 2, 3]), &[0, 1, 2, 5, M - 1, M], 2, d, false, true));
        v.push(multi(digraphs(3, &[1]), &[0, 1, M], 3, d, false, true));
        v.push(multi(digraphs(2, &[1, 3]), &[0, 1, 2, M], 4, d, false, false));
    }
    for k in [16usize, 31, 32, 53] {
        let x = 1usize << k;
        v.push(multi(digraphs(2, &[x - 1, x + 1]), &[0, 1, x - 1, x, x + 1, M], 2, d, false, true));
    }
    v.push(large_many(deep, d));
    for k in [8usize, 20, 21, 24, 40] {
        let x = 1usize << k;
        v.push(multi(digraphs(2, &[x - 1, x + 1]), &[0, 1, x, 3 * x, M], 2, d, false, true));
    }
    v.push(multi(digraphs(2, &[1, 2]), &[0, M / 2 - 1, M / 2, M / 2 + 1, M - 4, M - 2, M - 1], 2, d, false, true));
    v.push(multi(digraphs(3, &[1, 3]), &[0, M / 2 + 1, M - 5], 2, d, false, false));
    v.push(multi(digraphs(2, &[1, 1 << 62]), &[0, 1 << 62, (1 << 63) - 1, 1 << 63, M - 1], 2, d, true, false));
    v.extend(huge_space(deep, "long lists, thousands of nodes", vec![LPrep::Default], What::Many(d)));
    v
}

fn c06(deep: bool) -> Spaces {
    let mut v: Spaces =
        vec![Box::new(ReusePairs { ws: vec![1, 2], three: false }), Box::new(ReusePairs { ws: vec![3], three: true })];
    v.extend(seq_spaces(if deep { 6 } else { 5 }));
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::Mixed, Wt::One, Wt::Huge, Wt::Edge, Wt::Pow] };
    v.push(large("reuse", large::graphs(&large::SHAPES, &sizes(deep), w, 40, 100), vec![LPrep::Default], What::Reuse));
    v.extend(huge_space(deep, "reuse, thousands of nodes", vec![LPrep::Default], What::Reuse));
    v.push(Box::new(history::single(true)));
    v.push(Box::new(LongHistory::new(deep)));
    v.push(Box::new(Wrap { honest_always: false }));
    if deep {
        v.push(Box::new(ReusePairs { ws: vec![1, 2, 4], three: false }));
        v.push(Box::new(history::pairs(true, &[0, 3, 4, 6, 8, 9, 12, 14, 15], &[0, 1, 3, 5, 7], "two calls")));
        v.push(Box::new(Wrap { honest_always: true }));
    }
    v
}

fn c07(deep: bool) -> Spaces {
    let f = |fam: Fam, c: Vec<Config>| -> Box<dyn Space> { Box::new(SerdeFast { fam, configs: c }) };
    let i = |fam: Fam| -> Box<dyn Space> { Box::new(SerdeInput { fam }) };
    let mut v = vec![
        f(raw(&[0, 1, 2], &[0, 1, 2], 0), vec![Config::Default]),
        f(digraphs(3, &[1, 2, M - 1]), configs(6)),
        f(digraphs(4, &[1]), configs(4)),
        f(undirected(4, &[1, 2, 1 << 40]), configs(4)),
        f(mapped(digraphs(3, &[1, 2]), &[1, 4, 5]), configs(2)),
        f(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), configs(12)),
        i(raw(&[0, 1, 2], &[0, 1, M], 0)),
        i(raw(&[0, 1, 2], &[0, 1, M], 1)),
        i(raw(&[0, 1, 2], &[0, 1, M], 2)),
        i(raw(&[0, 1, 2], &[1, 2], 3)),
        i(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10]))),
        i(raw(&[0, 1, 2], &[0, 1, 2], 3)),
        i(raw(&[0, 1, 3], &[1, 2], 4)),
        f(undirected(5, &[1, 2]), configs(4)),
    ];
    if deep {
        v.push(f(digraphs(4, &[1, 2]), configs(2)));
        v.push(f(digraphs(4, &[1 << 32, 3]), configs(2)));
        v.push(f(table(5, 1), vec![Config::Default]));
        v.push(i(raw(&[0, 1, 2], &[0, 1, 2], 4)));
    }
    for k in [7usize, 8, 16, 24, 31, 32, 33, 53, 62] {
        let x = 1usize << k;
        v.push(f(digraphs(3, &[x - 1, x]), vec![Config::Default, Config::Order(3, 0)]));
    }
    v.push(large_stored("stored", deep, What::Stored));
    v.push(many_edges("stored, nodes with many edges", deep, What::Stored));
    v.extend(huge_space(deep, "stored, thousands of nodes", huge_preps(), What::Stored));
    v
}

/// nodes that keep several hundred edges in the hierarchy
fn many_edges(label: &'static str, deep: bool, what: What) -> Box<dyn Space> {
    let s: &[usize] = if deep {
        &[127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1026, 2050, 4098]
    } else {
        &[129, 256, 257, 300, 514, 1026]
    };
    let w = [Wt::Mixed, Wt::Edge];
    let mut g = large::graphs(&[Sh::StarOut, Sh::StarIn, Sh::BiChain, Sh::Islands], s, &w, 0, 0);
    g.extend(large::graphs(
        &[Sh::BiStar, Sh::Tournament, Sh::Complete, Sh::Bipartite],
        if deep { &[130, 258] } else { &[130] },
        &w[..1],
        300,
        300,
    ));
    large(label, g, vec![LPrep::Default, LPrep::Order(Lo::Up, 2), LPrep::Order(Lo::Down, 2)], what)
}

fn large_stored(label: &'static str, deep: bool, what: What) -> Box<dyn Space> {
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::Mixed, Wt::Edge, Wt::Wide, Wt::Huge] };
    let s = upto(sizes(deep), if deep { 260 } else { 130 });
    large(
        label,
        large::graphs(&large::SHAPES, &s, w, 40, 65),
        vec![LPrep::Default, LPrep::Order(Lo::EvensOdds, 2)],
        what,
    )
}

fn c08(deep: bool) -> Spaces {
    let t = |fam: Fam, c: Vec<Config>| -> Box<dyn Space> { Box::new(ThirtyTwo { fam, configs: c }) };
    let w: Vec<usize> = vec![1, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32];
    let mut v = vec![
        t(raw(&[0], &[0], 0), vec![Config::Default]),
        t(
            digraphs(
                2,
                &[
                    1,
                    (1 << 31) - 1,
                    1 << 31,
                    (1 << 32) - 3,
                    (1 << 32) - 2,
                    (1 << 32) - 1,
                    1 << 32,
                    (1 << 32) + 1,
                    1 << 40,
                    (1 << 63) + 5,
                    M - 1,
                    M,
                ],
            ),
            configs(2),
        ),
        t(chains3(&w), configs(6)),
        t(digraphs(3, &[1, 2]), configs(6)),
        t(digraphs(4, &[1]), configs(3)),
        t(undirected(3, &w), configs(6)),
        t(undirected(4, &[1 << 31, (1 << 31) - 1]), configs(3)),
        t(digraphs(3, &[1 << 31, (1 << 32) - 2, (1 << 32) - 1]), configs(2)),
        t(mapped(digraphs(3, &[1, (1 << 32) - 2]), &[2, 5, 6]), configs(2)),
        t(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), configs(8)),
        t(digraphs(3, &w), configs(6)),
        t(undirected(4, &[1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1]), configs(4)),
    ];
    if deep {
        v.push(t(digraphs(4, &[1 << 31, (1 << 32) - 2]), configs(2)));
        v.push(t(digraphs(4, &[1, 2]), configs(1)));
    }
    for k in [8usize, 15, 16, 24, 30] {
        let x = 1usize << k;
        v.push(t(digraphs(3, &[x - 1, x]), vec![Config::Default, Config::Order(3, 0)]));
    }
    v.push(large_stored("32 bit", deep, What::Stored32));
    v.push(many_edges("32 bit, nodes with many edges", deep, What::Stored32));
    v.extend(huge_space(deep, "32 bit, thousands of nodes", huge_preps(), What::Stored32));
    v
}

/// chains of 4 nodes with every weight combination (shortcut weights cross the limits)
fn chains3(w: &[usize]) -> Fam {
    let mut l = vec![];
    for a in w {
        for b in w {
            for c in w {
                l.push(vec![(0, 1, *a), (1, 2, *b), (2, 3, *c)]);
                l.push(vec![(0, 1, *a), (1, 2, *b), (2, 3, *c), (3, 0, 2), (1, 3, *a)]);
            }
        }
    }
    fixed(&format!("chains3 over {:?}", w), l)
}

fn c10(deep: bool) -> Spaces {
    let r = |fam: Fam, c: Vec<Config>| -> Box<dyn Space> { Box::new(RawVsCanonical { fam, configs: c }) };
    let s = |fam: Fam, seeds: u64| -> Box<dyn Space> { Box::new(Seeds { fam, seeds }) };
    let ties: Vec<E> = vec![(0, 1, 1), (1, 2, 1), (2, 3, 1), (3, 0, 1), (0, 2, 2), (1, 3, 2)];
    let dups: Vec<E> = vec![(0, 1, 2), (0, 1, 1), (1, 1, 3), (1, 2, 2), (2, 0, 0), (2, 1, 2), (0, 2, 4)];
    let mut v = vec![
        r(raw(&[0, 1, 2], &[0, 1, 2], 2), configs(2)),
        r(raw(&[0, 1, 2], &[0, 1, 2], 3), configs(1)),
        r(raw(&[0, 1, 3], &[1, 2], 4), vec![Config::Default, Config::Order(5, 1)]),
        r(Box::new(Permuted { label: "ties", list: ties }), configs(4)),
        r(Box::new(Permuted { label: "duplicates", list: dups }), configs(4)),
        s(digraphs(3, &[1, 2]), 8),
        s(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), 64),
        s(fixed("larger", larger()), 16),
        Box::new(AfterOther { fam: digraphs(3, &[1, 2]) }),
        Box::new(AfterOther { fam: fixed("topologies 3..7", tops(&[3, 4, 5, 6, 7])) }),
    ];
    v.push(r(raw(&[0, 1, 2], &[0, 1, 2], 4), configs(1)));
    v.push(s(digraphs(4, &[1]), 4));
    if deep {
        v.push(r(raw(&[0, 1, 2, 3], &[1, 2], 4), configs(1)));
        v.push(s(digraphs(4, &[1]), 32));
        v.push(s(digraphs(3, &[1, 2, 3]), 16));
        v.push(s(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), 512));
        v.push(s(fixed("larger", larger()), 128));
        v.push(Box::new(AfterOther { fam: digraphs(4, &[1]) }));
    }
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::One, Wt::Mixed, Wt::Metric] };
    v.push(large(
        "edge arrangements and hash seeds",
        large::graphs(&large::SHAPES, &sizes(deep), w, 40, 65),
        vec![LPrep::Default, LPrep::Order(Lo::Stride3, 4)],
        What::Same,
    ));
    v.push(large(
        "arrangements, thousands of nodes",
        huge(deep).into_iter().filter(|g| g.n < if deep { 20_500 } else { 10_000 }).collect(),
        vec![LPrep::Default],
        What::Same,
    ));
    v.push(Box::new(history::single(false)));
    if deep {
        v.push(Box::new(history::pairs(false, &(0..20).collect::<Vec<_>>(), &[0, 2, 4, 5, 7], "two calls")));
    } else {
        v.push(Box::new(history::pairs(false, &[0, 4, 6, 8, 9, 12, 14], &[0, 1, 4], "two calls")));
    }
    v
}

/// medium sized graphs with many ties
fn larger() -> Vec<Vec<E>> {
    vec![
        bidir(&grid(6, 6, |_, _| 1)),
        bidir(&grid(5, 9, |a, b| 1 + (a + b) % 2)),
        bidir(&ring(40, |_| 1)),
        bidir(&star(30, |_| 1)),
        grid(7, 7, |a, b| 1 + (a * b) % 3),
    ]
}

fn c11(deep: bool) -> Spaces {
    let r = |fam: Fam, extra: &[usize]| -> Box<dyn Space> { Box::new(RoundTrip { fam, extra: extra.to_vec() }) };
    let mut sizes: Vec<usize> = (700..1000).step_by(13).collect();
    sizes.extend([2000, 10_000]);
    let mut v = vec![
        r(raw(&[0], &[0], 0), &[0, 1, 2]),
        r(raw(&[0, 1, 9], &[0, 1, 10, M], 1), &[0, 1, 3]),
        r(raw(&[0, 1, 9], &[0, 1, M], 2), &[0, 1]),
        r(digraphs(3, &[1, 12]), &[0, 1, 4]),
        r(digraphs(4, &[1]), &[0]),
        r(mapped(digraphs(2, &[1, M, M - 1]), &[99, 100]), &[0, 900]),
        r(mapped(digraphs(2, &[1, 7]), &[999_999, 3]), &[0, 1]),
        r(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), &[0, 5]),
        r(long_files(&sizes), &[0, 1]),
        r(digraphs(4, &[1, 10]), &[0]),
        r(digraphs(3, &[1, 12, 123, M]), &[0, 2]),
        r(raw(&[0, 1, 10], &[0, 1, M], 3), &[0, 1]),
        r(raw(&[0, 1, 9, 10], &[0, 1, 10, M], 3), &[0]),
        r(long_files(&(600..1100).collect::<Vec<_>>()), &[0]),
    ];
    for k in [7usize, 8, 15, 16, 24, 31, 32, 33, 52, 53, 54, 62, 63] {
        let x = 1usize << k;
        v.push(r(digraphs(3, &[x - 1, x, x + 1]), &[0, 3]));
        if k < 21 {
            v.push(r(mapped(digraphs(3, &[1, x]), &[x - 1, x, x + 1]), &[0, 1]));
        }
    }
    for k in 1..20u32 {
        let x = 10usize.pow(k);
        v.push(r(digraphs(3, &[x - 1, x]), &[0]));
    }
    if deep {
        v.push(r(digraphs(4, &[9, 10, 100]), &[0]));
        v.push(r(digraphs(4, &[1, M]), &[0, 7]));
    }
    v
}

fn c12(deep: bool) -> Spaces {
    let mut v: Spaces = vec![];
    let (p, d) = if deep { (6, 5) } else { (5, 4) };
    for k in 0..=p {
        v.push(Box::new(Lines { dimacs: false, alphabet: plain_lines(), k, lenient: false, tag: String::new() }));
    }
    for k in 0..=d {
        v.push(Box::new(Lines { dimacs: true, alphabet: dimacs_lines(), k, lenient: false, tag: String::new() }));
    }
    // longer files over a smaller alphabet
    v.push(Box::new(Lines {
        dimacs: true,
        alphabet: vec!["p sp 3 2", "p sp 3 3", "a 1 2 5", "a 2 3 1", "a 2 2 1", "c", "a 4 1 1"],
        k: if deep { 8 } else { 6 },
        lenient: false,
        tag: String::new(),
    }));
    for dimacs in [false, true] {
        for (k, alphabet) in unusual_lines(dimacs).into_iter().enumerate() {
            v.push(Box::new(Lines {
                dimacs,
                alphabet,
                k: if deep { 6 } else { 5 },
                lenient: true,
                tag: format!("unusual {}", k),
            }));
        }
    }
    v
}

fn c13(deep: bool) -> Spaces {
    let step = if deep { 1 } else { 7 };
    let big = vec![chain(1200, |i| 1 + i * 7919 % 100_003)];
    let mut v: Spaces = vec![
        Box::new(WriteFaults::new("small", fault_graphs(), 1)),
        Box::new(ReadFaults::new("small", fault_graphs(), 1)),
        Box::new(WriteFaults::new("large", big.clone(), step)),
        Box::new(ReadFaults::new("large", big, step)),
        Box::new(Damaged {
            graphs: vec![fault_graphs(), vec![chain(if deep { 300 } else { 60 }, |i| 1 + i * 37)]].concat(),
            // these are never part of valid UTF-8 text
            bytes: vec![0xff, 0xc0, 0xfe, 0x80],
        }),
    ];
    let exact: Vec<Vec<E>> = (0..40).map(|k| chain(740 + k, |i| 1 + i * 7919 % 100_003)).collect();
    v.push(Box::new(WriteFaults::new("around the buffer size", exact.clone(), 64)));
    v.push(Box::new(ReadFaults::new("around the buffer size", exact, 64)));
    let all: Vec<Vec<E>> = (0..729).map(|i| digraphs(3, &[1, 12]).edges(i).1).collect();
    v.push(Box::new(WriteFaults::new("all 3-node graphs", all.clone(), 1)));
    v.push(Box::new(ReadFaults::new("all 3-node graphs", all, 1)));
    // files of several hundred blocks, where a single call fails
    let long = vec![chain(12_000, |i| 1 + i * 7919 % 100_003)];
    v.push(Box::new(WriteFaults::new("long", long.clone(), 10_007)));
    v.push(Box::new(ReadFaults::new("long", long, 10_007)));
    if deep {
        let longer = vec![chain(90_000, |i| 1 + i * 7919 % 100_003)];
        v.push(Box::new(WriteFaults::new("longer", longer.clone(), 100_003)));
        v.push(Box::new(ReadFaults::new("longer", longer, 100_003)));
    }
    v
}

fn c14(deep: bool, checked: bool) -> Spaces {
    let d = Oracle::Dist;
    let w = [1, 2, M / 3, M / 2, M / 2 + 1, M - 2, M - 1, M];
    let h = huge_weights();
    let mut v = vec![
        gq(digraphs(2, &w), Prep::Default, d),
        gq(digraphs(3, &h), Prep::Default, d),
        gq(chains_huge(&w), Prep::AllOrders(vec![0, M]), d),
        gq(digraphs(3, &[1, M / 2, M - 1]), Prep::AllOrders(vec![0, 1, M]), d),
        gq(undirected(4, &[1, M / 2, M - 1]), Prep::AllOrders(vec![0, M]), d),
        gq(undirected(4, &[1, M / 2 + 1, M]), Prep::Params(few_params()), d),
        gq(digraphs(3, &[M / 2, M]), Prep::Params(param_grid(false)), d),
        gq(chains_huge(&w), Prep::AllOrders(vec![2]), Oracle::Path),
        multi(digraphs(2, &[1, M / 2, M - 1, M]), &[0, 1, M / 2, M / 2 + 1, M - 1, M], 2, d, false, true),
        multi(digraphs(3, &[5, M - 2]), &[0, M / 2, M - 6, M - 1], 1, d, false, false),
        multi(undirected(3, &[2, M / 2]), &[0, M / 2, M - 3, M], 2, d, false, false),
        multi(digraphs(2, &[3, M - 3]), &[0, 2, M - 4, M - 1], 2, d, true, false),
        multi(digraphs(2, &[3, M - 3]), &[0, 2, M - 4, M - 1], 2, Oracle::Path, false, false),
    ];
    if deep || !checked {
        v.push(gq(digraphs(3, &w), Prep::Default, d));
        v.push(gq(digraphs(3, &h), Prep::AllOrders(vec![0, 1, M]), d));
        v.push(gq(digraphs(4, &[M / 2, M - 1]), Prep::Default, d));
    }
    if deep && !checked {
        v.push(gq(digraphs(4, &[1, M / 2, M - 1]), Prep::Default, d));
        v.push(gq(undirected(5, &[M / 3, M / 2, M]), Prep::Default, d));
        v.push(gq(undirected(4, &[1, M / 3, M / 2, M / 2 + 1, M - 1]), Prep::AllOrders(vec![0, M]), d));
        v.push(multi(digraphs(3, &[1, M / 2, M]), &[0, 1, M / 2, M - 2, M], 2, d, false, true));
        v.push(multi(digraphs(2, &[1, M / 2]), &[0, 1, M / 2, M - 1, M], 3, d, false, false));
    }
    if deep {
        v.push(gq(digraphs(4, &[1, M - 1]), Prep::Default, d));
    }
    let s: Vec<usize> = if deep { upto(sizes(true), 130) } else { vec![11, 12, 15, 20, 33, 64] };
    let g = large::graphs(&large::SHAPES, &s, &[Wt::Huge, Wt::Pow, Wt::Edge], 24, 33);
    v.push(large(
        "huge weights",
        g,
        vec![LPrep::Default, LPrep::Order(Lo::EvensOdds, 2), LPrep::Order(Lo::MiddleOut, M)],
        What::One(d),
    ));
    v
}

fn chains_huge(w: &[usize]) -> Fam {
    let mut l = vec![];
    for a in w {
        for b in w {
            for c in w {
                l.push(vec![(0, 1, *a), (1, 2, *b), (2, 3, *c)]);
                l.push(vec![(0, 1, *a), (1, 2, *b), (0, 3, *c), (3, 2, 5)]);
                l.push(bidir(&[(0, 1, *a), (1, 2, *b), (2, 3, *c), (3, 0, 1)]));
            }
        }
    }
    fixed(&format!("4 nodes over {} weights", w.len()), l)
}

fn c15(deep: bool) -> Spaces {
    let mut v = vec![];
    for d in 1..=if deep { 6 } else { 5 } {
        v.push(interleave::alternate(d));
    }
    v
}

fn c16(deep: bool) -> Spaces {
    let l = |fam: Fam| -> Box<dyn Space> { Box::new(Lean { fam }) };
    let mut v = vec![
        l(digraphs(2, &[1, 2])),
        l(digraphs(3, &[1, 2, 3])),
        l(digraphs(4, &[1])),
        l(undirected(4, &[1, 2, 3])),
        l(raw(&[0, 1, 2], &[1, 2], 4)),
        l(fixed("topologies 5", topologies(5))),
        l(fixed("topologies 6", topologies(6))),
        l(fixed("topologies 7", topologies(7))),
        l(undirected(5, &[1])),
        l(digraphs(4, &[1, 2])),
        l(undirected(5, &[1, 2])),
        l(undirected(4, &[1, 2, 3, 4, 5])),
        l(fixed("topologies 8", topologies(8))),
    ];
    if deep {
        v.push(l(digraphs(4, &[1, 2, 3])));
        v.push(l(undirected(5, &[1, 2, 3])));
        v.push(l(fixed("topologies 9", topologies(9))));
        v.push(l(fixed("topologies 10", topologies(10))));
    }
    // weights that fit into 32 bits: the stored edges are read through FastGraph32
    let w: &[Wt] =
        if deep { &[Wt::One, Wt::Mixed, Wt::Metric, Wt::Up, Wt::Down] } else { &[Wt::One, Wt::Mixed, Wt::Metric] };
    let s = if deep {
        upto(sizes(true), 130)
    } else {
        vec![11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 50, 64, 65, 100]
    };
    v.push(large("edge counts", large::graphs(&large::SHAPES, &s, w, 24, 33), large::orders(&[M]), What::Lean));
    v.push(large("wide searches", wide(deep), wide_preps(deep, &[M]), What::Lean));
    let g = huge(deep)
        .into_iter()
        .filter(|g| matches!(g.wt, Wt::Mixed | Wt::One) && g.n < if deep { 20_000 } else { 5100 })
        .filter(|g| matches!(g.sh, Sh::BiChain | Sh::Ring | Sh::StarOut | Sh::StarIn) || g.n <= 2050 && g.sh != Sh::Tree);
    v.push(large(
        "thousands of nodes",
        g.collect(),
        vec![LPrep::Order(Lo::BitReversed, M), LPrep::Order(Lo::Recorded, M)],
        What::Lean,
    ));
    v
}

fn c17(deep: bool) -> Spaces {
    let o = |fam: Fam, extra: &[usize]| -> Box<dyn Space> { Box::new(refuse::Orders { fam, extra: extra.to_vec() }) };
    let q = |fam: Fam| -> Box<dyn Space> { Box::new(refuse::Queries { fam }) };
    let mut v = vec![
        o(raw(&[0], &[0], 0), &[M, M - 1]),
        o(digraphs(2, &[1, 2]), &[M, 7]),
        o(digraphs(3, &[1, 2]), &[M]),
        o(fixed("topologies 4", topologies(4)), &[]),
        q(raw(&[0], &[0], 0)),
        q(digraphs(2, &[1, 2])),
        q(digraphs(3, &[1])),
        q(fixed("topologies 4..6", tops(&[4, 5, 6]))),
        o(fixed("topologies 5", topologies(5)), &[]),
        o(undirected(4, &[1]), &[usize::MAX]),
        q(digraphs(3, &[1, 2])),
        q(undirected(4, &[1])),
        Box::new(refuse::LargeRefusals {
            sizes: if deep {
                (5..140)
                    .chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2000, 65_535, 65_536, 65_537, 70_000])
                    .collect()
            } else {
                vec![
                    5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300, 600, 1025,
                ]
            },
        }),
    ];
    if deep {
        v.push(o(fixed("topologies 6", topologies(6)), &[]));
        v.push(o(undirected(4, &[1, 2]), &[usize::MAX]));
        v.push(o(digraphs(3, &[1, 2, 3]), &[usize::MAX, 5]));
        v.push(q(digraphs(3, &[1, 2, 3])));
        v.push(q(digraphs(4, &[1])));
        v.push(q(fixed("topologies 7..10", tops(&[7, 8, 9, 10]))));
    }
    v
}

fn c18(deep: bool) -> Spaces {
    let a = |fam: Fam, params: Vec<ParamSet>| -> Box<dyn Space> { Box::new(Again { fam, params }) };
    let t = |fam: Fam| -> Box<dyn Space> { Box::new(Transfer { fam }) };
    let mut v = vec![
        a(raw(&[0], &[0], 0), few_params()),
        a(digraphs(3, &[1, 2, 3]), param_grid(true)),
        a(digraphs(4, &[1, 2]), few_params()),
        a(undirected(5, &[1, 2]), few_params()),
        a(mapped(digraphs(3, &[1, 2]), &[1, 4, 5]), few_params()),
        a(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), param_grid(true)),
        a(fixed("larger", larger()), few_params()),
        t(digraphs(3, &[1, 2])),
        t(undirected(4, &[1, 2])),
        t(fixed("topologies 7", topologies(7))),
        t(fixed("topologies 10", topologies(10))),
        a(digraphs(4, &[1]), param_grid(true)),
        a(undirected(5, &[1, 2, 3]), few_params()),
        t(digraphs(3, &[1, 2, 3])),
    ];
    if deep {
        v.push(a(table(5, 0), few_params()));
        v.push(a(table(5, 1), few_params()));
        v.push(a(digraphs(4, &[1, 2]), param_grid(false)));
        v.push(a(undirected(5, &[1, 2]), param_grid(true)));
        v.push(a(digraphs(4, &[1, 2, 3]), vec![params(0.1, 500, 100, 500)]));
        v.push(t(digraphs(4, &[1])));
    }
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::One, Wt::Mixed, Wt::Metric] };
    let mut ps: Vec<LPrep> = vec![LPrep::Default];
    ps.extend(few_params().into_iter().map(LPrep::Set));
    ps.push(LPrep::Order(Lo::EvensOdds, NO_PARAMS));
    ps.push(LPrep::Order(Lo::Stride7Down, 0));
    v.push(large(
        "re-preparation",
        large::graphs(&large::SHAPES, &upto(sizes(deep), if deep { 520 } else { 130 }), w, 40, 40),
        ps,
        What::Again,
    ));
    v.extend(huge_space(deep, "re-preparation, thousands of nodes", huge_preps(), What::Again));
    v
}

fn c19(deep: bool) -> Spaces {
    if deep {
        vec![
            deep::every_size(400, true),
            deep::huge(
                &[1000, 4096, 10_000, 65_535, 65_536, 65_537, 100_000, 300_000],
                &[100, 1000, 5000],
                &[300, 1000, 2000],
            ),
        ]
    } else {
        vec![deep::every_size(180, true), deep::huge(&[1000, 10_000, 70_000, 120_000], &[100, 1000], &[300])]
    }
}

/// large graphs as a family
fn big(label: &str, shapes: &[Sh], sizes: &[usize], weights: &[Wt]) -> Fam {
    let l = large::graphs(shapes, sizes, weights, 24, 40);
    fixed(&format!("{}, {} graphs", label, l.len()), l.iter().map(|g| large::edges_of(g.sh, g.n, g.wt)).collect())
}

fn c21(deep: bool) -> Spaces {
    let s = |fam: Fam| -> Box<dyn Space> { Box::new(acts::Steady { fam }) };
    let l = |fam: Fam, rounds: u64| -> Box<dyn Space> { Box::new(acts::Leaks { fam, rounds }) };
    let one = [Wt::Mixed];
    let mut v = vec![
        s(digraphs(2, &[1, 2])),
        s(digraphs(3, &[1])),
        s(undirected(4, &[1])),
        s(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10]))),
        s(big("12, 33, 65, 129 nodes", &large::SHAPES, &[12, 33, 65, 129], &one)),
        l(digraphs(2, &[1]), 1),
        l(digraphs(3, &[5]), 1),
        l(raw(&[0, 1], &[0, 1], 2), 1),
        l(fixed("topologies 4..6", tops(&[4, 5, 6])), 1),
        l(big("12 nodes", &large::SHAPES, &[12], &one), 1),
    ];
    if deep {
        v.push(s(digraphs(3, &[1, 2])));
        v.push(s(undirected(4, &[1, 2])));
        v.push(s(big("sizes", &large::SHAPES, &[11, 16, 17, 31, 32, 40, 64, 100, 128, 257], &[Wt::Mixed, Wt::Huge])));
        v.push(l(fixed("topologies 7, 8", tops(&[7, 8])), 2));
        v.push(l(digraphs(3, &[1, 1 << 40]), 1));
        v.push(l(big("33 nodes", &large::SHAPES, &[33], &one), 1));
        v.push(l(big("70 nodes", &[Sh::BiChain, Sh::StarOut, Sh::Grid], &[70, 130], &one), 1));
    }
    v
}

/// families for the menu of acts.rs
fn menu_families(deep: bool) -> Vec<Fam> {
    let mut v = vec![
        raw(&[0, 1, 2], &[0, 1, 2], 0),
        raw(&[0, 1, 2], &[0, 1, 2], 1),
        raw(&[0, 1, 2], &[0, 1, 2], 2),
        digraphs(3, &[1, 2]),
        undirected(4, &[1, 2]),
        mapped(digraphs(3, &[1]), &[1, 4, 6]),
        digraphs(3, &[1, M / 2, M - 1]),
        fixed("topologies 5..10", tops(&[5, 6, 7, 8, 9, 10])),
        big("sizes", &large::SHAPES, &[11, 12, 17, 33, 65], &[Wt::Mixed, Wt::Huge]),
        big("large", &[Sh::BiChain, Sh::Ring, Sh::StarIn], &[257, 601], &[Wt::Mixed]),
    ];
    if deep {
        v.push(raw(&[0, 1, 2], &[0, 1, 2], 3));
        v.push(digraphs(3, &[1, 2, 3]));
        v.push(digraphs(4, &[1]));
        v.push(undirected(5, &[1, 2]));
        v.push(big("more sizes", &large::SHAPES, &upto(sizes(false), 140), &[Wt::Mixed, Wt::Pow, Wt::One]));
        v.push(big("larger", &[Sh::BiChain, Sh::Ring], &[1003, 2051], &[Wt::Mixed]));
    }
    v
}

fn c22(deep: bool) -> Spaces {
    menu_families(deep).into_iter().map(|fam| -> Box<dyn Space> { Box::new(acts::Logged { fam }) }).collect()
}

fn c23(deep: bool, checked: bool) -> Spaces {
    let mut v: Spaces =
        menu_families(deep).into_iter().map(|fam| -> Box<dyn Space> { Box::new(acts::Menu { fam }) }).collect();
    // nodes of high degree
    let crowd = [
        Sh::Complete,
        Sh::Tournament,
        Sh::Bipartite,
        Sh::BiStar,
        Sh::DoubleStar,
        Sh::Layers,
        Sh::Wheel,
        Sh::Lollipop,
        Sh::Parallel,
        Sh::Cliques,
        Sh::Dumbbell,
    ];
    let sizes: &[usize] = if deep { &[40, 66, 70, 100, 132] } else { &[66, 70] };
    for wt in [Wt::Mixed, Wt::Metric, Wt::One] {
        let l = large::graphs(&crowd, sizes, &[wt], 140, 140);
        let l = l.iter().map(|g| large::edges_of(g.sh, g.n, g.wt)).collect();
        v.push(Box::new(acts::Menu { fam: fixed(&format!("crowded {:?}", wt), l) }));
    }
    if !checked {
        return v;
    }
    // with overflow checks and debug assertions against the oracles of the other properties
    let d = Oracle::Dist;
    v.push(gq(digraphs(4, &[1, 2]), Prep::Default, Oracle::Path));
    v.push(gq(undirected(5, &[1, 2]), Prep::Default, d));
    v.push(gq(digraphs(3, &[1, 2, 3]), Prep::AllOrders(BUDGETS.to_vec()), d));
    v.push(gq(fixed("topologies 6", topologies(6)), Prep::AllOrders(vec![0, 2, M]), d));
    v.push(gq(digraphs(3, &[1, 2, 3]), Prep::Params(param_grid(true)), d));
    v.push(gq(undirected(4, &[1, 2]), Prep::Params(param_grid(false)), d));
    v.push(multi(digraphs(2, &[1, 3]), &[0, 1, M], 3, d, false, true));
    v.push(multi(digraphs(3, &[1]), &[0, 2, M], 2, d, false, true));
    v.push(multi(fixed("topologies 5", topologies(5)), &[0, 2], 2, Oracle::Path, false, true));
    v.extend(seq_spaces(if deep { 4 } else { 3 }));
    v.push(Box::new(ReusePairs { ws: vec![3], three: true }));
    v.extend(editing::all_spaces(if deep { 5 } else { 4 }, if deep { 8 } else { 6 }));
    v.push(Box::new(SerdeFast { fam: digraphs(3, &[1, 2]), configs: configs(2) }));
    v.push(Box::new(SerdeInput { fam: raw(&[0, 1, 2], &[0, 1, 2], 2) }));
    let t = fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10]));
    v.push(Box::new(ThirtyTwo { fam: t, configs: configs(4) }));
    v.push(Box::new(RoundTrip { fam: raw(&[0, 1, 9], &[0, 1, 10, M], 2), extra: vec![0, 1] }));
    for (dimacs, k) in [(false, 3), (false, 4), (true, 2), (true, 3)] {
        let alphabet = if dimacs { dimacs_lines() } else { plain_lines() };
        v.push(Box::new(Lines { dimacs, alphabet, k, lenient: false, tag: String::new() }));
    }
    v.push(Box::new(WriteFaults::new("small", fault_graphs(), 1)));
    v.push(Box::new(ReadFaults::new("small", fault_graphs(), 1)));
    v.push(Box::new(Lean { fam: undirected(4, &[1, 2, 3]) }));
    v.push(Box::new(refuse::Orders { fam: digraphs(3, &[1]), extra: vec![M] }));
    v.push(Box::new(refuse::Queries { fam: digraphs(3, &[1]) }));
    v.push(Box::new(refuse::LargeRefusals { sizes: vec![5, 16, 33, 65, 130] }));
    v.push(Box::new(Again { fam: undirected(4, &[1, 2]), params: param_grid(false) }));
    v.push(Box::new(Transfer { fam: undirected(4, &[1]) }));
    v.push(deep::every_size(if deep { 140 } else { 70 }, true));
    v.push(deep::huge(&[1000, 20_000], &[100], &[300]));
    let s: &[usize] = if deep { &[11, 16, 17, 33, 64, 65, 100, 129, 257] } else { &[12, 33, 65, 129] };
    let g = || large::graphs(&large::SHAPES, s, &[Wt::Mixed, Wt::Edge, Wt::Huge], 24, 40);
    v.push(large("distances", g(), vec![LPrep::Default, LPrep::Order(Lo::BitReversed, 3)], What::One(d)));
    v.push(large("lists", g(), vec![LPrep::Default], What::Many(d)));
    v.push(large("reuse", g(), vec![LPrep::Default], What::Reuse));
    v.push(Box::new(LongHistory::new(false)));
    v.push(Box::new(Wrap { honest_always: false }));
    v
}

fn c27(deep: bool) -> Spaces {
    let t = |fam: Fam| -> Box<dyn Space> { Box::new(says::Texts { fam }) };
    let configs = |full: bool| {
        let mut v = vec![Config::Default, Config::Order(1, 0), Config::Order(4, M), Config::Order(7, 1)];
        if full {
            v.extend((0..6).flat_map(|k| [Config::Order(5 * k + 3, 2), Config::Order(11 * k, M - 1)]));
        }
        v
    };
    let l = |fam: Fam, full: bool| -> Box<dyn Space> { Box::new(says::Layout { fam, configs: configs(full) }) };
    let mut v = vec![
        t(raw(&[0, 1, 2], &[0, 1, M], 0)),
        t(raw(&[0, 1, 2], &[0, 1, M], 1)),
        t(raw(&[0, 1, 2], &[0, 1, M], 2)),
        t(raw(&[0, 1, 2], &[0, 1, 2], 3)),
        t(raw(&[0, 3, 12345], &[1, 12], 3)),
        t(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10]))),
        t(big("texts", &large::SHAPES, &[12, 33, 130], &[Wt::Mixed, Wt::Huge])),
        l(raw(&[0, 1, 2], &[1, 2], 0), false),
        l(digraphs(2, &[1, 2, 1 << 32, M / 2, M - 1, M]), true),
        l(digraphs(3, &[1, 2, 3]), true),
        l(mapped(digraphs(3, &[1, 2]), &[1, 4, 6]), false),
        l(digraphs(4, &[1]), true),
        l(undirected(4, &[1, 2, 3]), true),
        l(undirected(5, &[1, 2]), false),
        l(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10])), true),
        l(big("layout", &large::SHAPES, &[12, 18], &[Wt::Mixed, Wt::Edge]), false),
        Box::new(says::Results { ids: vec![0, 1, 9], weights: vec![0, 1, 5, M / 2, M - 1, M] }),
        Box::new(says::Empty { max: 40 }),
    ];
    if deep {
        v.push(t(raw(&[0, 1, 2], &[0, 1, 2], 4)));
        v.push(t(big("more texts", &large::SHAPES, &upto(sizes(true), 140), &large::WEIGHTS)));
        v.push(l(digraphs(4, &[1, 2]), false));
        v.push(l(undirected(5, &[1, 2, 3]), true));
        v.push(Box::new(says::Results { ids: vec![0, 1, 2, 9, 1 << 40], weights: vec![0, 1, 2, 5, 1 << 32, M / 2, M - 2, M - 1, M] }));
        v.push(Box::new(says::Empty { max: 150 }));
    }
    v
}

fn c24(deep: bool) -> Spaces {
    let a = |fam: Fam| -> Box<dyn Space> { Box::new(agree::Agree { fam }) };
    let mut v = vec![
        a(raw(&[0, 1, 2], &[0, 1, 2], 0)),
        a(raw(&[0, 1, 2], &[0, 1, 2], 1)),
        a(raw(&[0, 1, 2], &[0, 1, 2], 2)),
        a(raw(&[0, 1, 2], &[0, 1, 2], 3)),
        a(digraphs(2, &[1, 2, 3, (1 << 32) - 1, M - 1, M])),
        a(digraphs(3, &[1, 2, 3])),
        a(digraphs(3, &[1 << 31, M / 2])),
        a(digraphs(4, &[1])),
        a(undirected(4, &[1, 2, 3])),
        a(undirected(5, &[1, 2])),
        a(mapped(digraphs(3, &[1, 2]), &[1, 4, 6])),
        a(fixed("topologies 4..10", tops(&[4, 5, 6, 7, 8, 9, 10]))),
        a(big("sizes", &large::SHAPES, &[11, 12, 17, 33, 65, 130], &[Wt::Mixed, Wt::Edge, Wt::Huge])),
        a(big("large", &[Sh::BiChain, Sh::Ring, Sh::StarOut, Sh::StarIn], &[257, 601, 1201], &[Wt::Mixed, Wt::Hub])),
    ];
    if deep {
        v.push(a(digraphs(4, &[1, 2])));
        v.push(a(undirected(5, &[1, 2, 3])));
        v.push(a(big("more sizes", &large::SHAPES, &upto(sizes(true), 140), &large::WEIGHTS)));
    }
    v
}

fn c25(deep: bool) -> Spaces {
    let p = |fam: Fam| -> Box<dyn Space> { Box::new(agree::Partial { fam }) };
    let mut v = vec![
        p(raw(&[0, 1, 2], &[0, 1, 2], 0)),
        p(raw(&[0, 1, 2], &[0, 1, 2], 1)),
        p(raw(&[0, 1, 2], &[1, 2], 2)),
        p(digraphs(3, &[300])),
        p(undirected(4, &[70_000])),
        p(mapped(digraphs(2, &[1]), &[3, 9])),
        p(fixed("topologies 4..7", tops(&[4, 5, 6, 7]))),
    ];
    if deep {
        v.push(p(digraphs(3, &[1, 300])));
        v.push(p(undirected(4, &[1, 70_000])));
        v.push(p(digraphs(4, &[1])));
        v.push(p(fixed("topologies 8..10", tops(&[8, 9, 10]))));
        v.push(p(big("sizes", &large::SHAPES, &[12, 17], &[Wt::Mixed])));
    }
    v
}

pub fn spaces(prop: &str, tier: &str, checked: bool) -> Spaces {
    let v = all_spaces(prop, tier == "thorough", checked);
    let mut names: Vec<String> = v.iter().map(|s| s.name()).collect();
    names.sort();
    for w in names.windows(2) {
        assert!(w[0] != w[1], "src/ two spaces of the name {}", w[0]);
    }
    v
}

fn all_spaces(prop: &str, deep: bool, checked: bool) -> Spaces {
    match prop {
        "C01" => c01(deep),
        "C02" => c02(deep),
        "C03" => order_spaces(deep, Oracle::Dist),
        "C04" => c04(deep),
        "C05" => c05(deep),
        "C06" => c06(deep),
        "C07" => c07(deep),
        "C08" => c08(deep),
        "C09" => {
            if deep {
                editing::all_spaces(6, 10)
            } else {
                editing::all_spaces(5, 8)
            }
        }
        "C10" => c10(deep),
        "C11" => c11(deep),
        "C12" => c12(deep),
        "C13" => c13(deep),
        "C14" => c14(deep, checked),
        "C15" => c15(deep),
        "C16" => c16(deep),
        "C17" => c17(deep),
        "C18" => c18(deep),
        "C19" => c19(deep),
        "C21" => c21(deep),
        "C22" => c22(deep),
        "C23" => c23(deep, checked),
        "C24" => c24(deep),
        "C25" => c25(deep),
        "C27" => c27(deep),
        _ => panic!("src/ unknown property {}", prop),
    }
}
