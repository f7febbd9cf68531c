//! What is explored on the 32-bit platform.

use crate::editing;
use crate::families::*;
use crate::large::{self, large, LPrep, Lo, What, Wt};
use crate::persist;
use crate::queries::*;
use crate::refuse;
use crate::reuse;
use crate::space::*;

const M: usize = usize::MAX;

fn gq(fam: Fam, prep: Prep, oracle: Oracle) -> Box<dyn Space> {
    Box::new(GraphQueries { fam, prep, oracle, standalone: false })
}

fn few_params() -> Vec<ParamSet> {
    vec![
        params(0.1, 500, 100, 500),
        params(0.0, 0, 0, 0),
        params(1e9, M, M, M),
        params(f32::MAX, 5, 1, 2),
        params(0.1, 2, M, 1),
        ParamSet { depth: 0.0, quot: f32::MAX, init: 10, neigh: 3, contr: 7 },
        ParamSet { depth: 3.0, quot: 0.0, init: 1, neigh: 1, contr: M },
    ]
}

pub fn spaces(deep: bool) -> Vec<Box<dyn Space>> {
    let tops = |l: &[usize]| fixed("topologies", l.iter().flat_map(|n| topologies(*n)).collect());
    let (d, p) = (Oracle::Dist, Oracle::Path);
    let huge = [1, 2, M / 3, M / 2, M / 2 + 1, M - 2, M - 1, M];
    let mut v = vec![
        // exactness
        gq(digraphs(3, &[1, 2, 3]), Prep::Default, d),
        gq(digraphs(4, &[1, 2]), Prep::Default, d),
        gq(digraphs(4, &[1, 2]), Prep::Default, p),
        gq(undirected(5, &[1, 2]), Prep::Default, d),
        gq(raw(&[0, 1, 2], &[0, 1, 2], 3), Prep::Default, d),
        gq(tops(&[5, 6, 7, 8, 9, 10]), Prep::Default, d),
        gq(tops(&[5, 6, 7, 8, 9, 10]), Prep::Default, p),
        gq(digraphs(3, &[1, 2]), Prep::AllOrders(vec![0, 1, M, NO_PARAMS]), d),
        gq(digraphs(3, &[1, 2, 3]), Prep::AllOrders(vec![1]), p),
        gq(digraphs(4, &[1]), Prep::AllOrders(vec![0, M]), d),
        gq(undirected(4, &[1, 2, 3]), Prep::AllOrders(vec![1]), d),
        gq(fixed("topologies 6", topologies(6)), Prep::AllOrders(vec![0, 2, M]), d),
        gq(digraphs(3, &[1, 2, 3]), Prep::Params(few_params()), d),
        gq(undirected(4, &[1, 2, 3]), Prep::Params(few_params()), d),
        multi(digraphs(2, &[1, 3]), &[0, 1, 3, M], 3, d, false, true),
        multi(digraphs(3, &[1, 2]), &[0, 1, M], 2, d, false, false),
        multi(digraphs(3, &[1]), &[0, 2], 2, p, true, true),
        // around the word size, half of it and the precision of f32
        gq(digraphs(3, &[255, 256, 257]), Prep::Default, d),
        gq(digraphs(3, &[65535, 65536, 65537]), Prep::Default, d),
        gq(digraphs(3, &[(1 << 24) - 1, 1 << 24, (1 << 24) + 1]), Prep::Default, d),
        gq(digraphs(3, &[(1 << 31) - 1, 1 << 31, (1 << 31) + 1]), Prep::Default, d),
        gq(digraphs(2, &huge), Prep::Default, d),
        gq(digraphs(3, &[2, M / 2, M / 2 + 1, M - 1]), Prep::Default, d),
        gq(digraphs(3, &[1, M / 2, M - 1]), Prep::AllOrders(vec![0, 1, M]), d),
        gq(digraphs(3, &[1, M / 2, M - 1]), Prep::AllOrders(vec![M]), p),
        gq(undirected(4, &[1, M / 2, M - 1]), Prep::AllOrders(vec![0, M]), d),
        gq(undirected(4, &[1, M / 2 + 1, M]), Prep::Params(few_params()), d),
        multi(digraphs(2, &[1, M / 2, M - 1, M]), &[0, 1, M / 2, M / 2 + 1, M - 1, M], 2, d, false, true),
        multi(digraphs(3, &[5, M - 2]), &[0, M / 2, M - 6, M - 1], 1, d, false, false),
        multi(digraphs(2, &[3, M - 3]), &[0, 2, M - 4, M - 1], 2, p, false, false),
        // the other guarantees
        Box::new(refuse::Orders { fam: digraphs(3, &[1, 2]), extra: vec![M] }),
        Box::new(refuse::Queries { fam: digraphs(3, &[1, 2]) }),
        Box::new(persist::SerdeFast {
            fam: digraphs(3, &[1, 2]),
            configs: vec![persist::Config::Default, persist::Config::Order(3, 0), persist::Config::Order(4, M)],
        }),
        Box::new(persist::SerdeInput { fam: raw(&[0, 1, 2], &[0, 1, 2], 2) }),
        Box::new(persist::Again { fam: undirected(4, &[1, 2]), params: few_params() }),
    ];
    v.extend(reuse::seq_spaces(if deep { 4 } else { 3 }));
    v.extend(editing::all_spaces(if deep { 4 } else { 3 }, if deep { 7 } else { 5 }));
    let s: Vec<usize> = if deep { (11..=40).chain([64, 65, 100, 129, 200]).collect() } else { vec![12, 17, 33, 65] };
    let w: &[Wt] = if deep { &large::WEIGHTS } else { &[Wt::One, Wt::Mixed, Wt::Wide, Wt::Huge, Wt::Pow, Wt::Edge] };
    let g = || large::graphs(&large::SHAPES, &s, w, 24, 40);
    v.push(large("distances", g(), vec![LPrep::Default, LPrep::Order(Lo::EvensOdds, 2)], What::One(d)));
    v.push(large("paths", g(), vec![LPrep::Default], What::One(p)));
    let l: Vec<usize> = if deep { s.clone() } else { vec![12, 33] };
    v.push(large("lists", large::graphs(&large::SHAPES, &l, w, 24, 40), vec![LPrep::Default], What::Many(d)));
    v.push(large("reuse", g(), vec![LPrep::Default], What::Reuse));
    v.push(large(
        "thousands of nodes",
        large::graphs(
            &[large::Sh::BiChain, large::Sh::Ring, large::Sh::StarOut, large::Sh::Caterpillar],
            if deep { &[2050, 4097, 20_011, 65_537, 70_003] } else { &[2050, 66_001] },
            &[Wt::Mixed],
            0,
            0,
        ),
        vec![LPrep::Default],
        What::One(d),
    ));
    v.push(crate::deep::every_size(if deep { 120 } else { 60 }, true));
    v.push(crate::deep::huge(if deep { &[10_000, 70_000] } else { &[10_000] }, &[100], &[300]));
    if deep {
        v.push(Box::new(reuse::ReusePairs { ws: vec![1, 2], three: false }));
        v.push(gq(undirected(5, &[1, 2, 3]), Prep::Default, d));
        v.push(gq(digraphs(4, &[1, 2]), Prep::AllOrders(vec![0, M]), d));
        v.push(gq(digraphs(3, &huge), Prep::Default, d));
        v.push(gq(digraphs(4, &[M / 2, M - 1]), Prep::Default, d));
        v.push(gq(fixed("topologies 7", topologies(7)), Prep::AllOrders(vec![0, 2, M]), d));
        v.push(multi(digraphs(3, &[1, 2]), &[0, 1, 4, M], 2, d, false, true));
        v.push(Box::new(persist::Transfer { fam: digraphs(3, &[1, 2]) }));
    }
    v
}
