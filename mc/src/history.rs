//! What a process did before has no influence: every case is a process of its own, which executes a history of
//! library calls and then observes preparations. The expected observations come from processes without a history.

use crate::engine::*;
use crate::families::*;
use crate::large::{edges_of, Sh, Wt};
use crate::persist::{bytes, observe};
use crate::queries::params;
use crate::reference::*;
use fast_paths::*;
use std::cell::RefCell;
use std::process::{Command, Stdio};

const M: usize = usize::MAX;

fn clique(n: usize, w: impl Fn(usize, usize) -> usize) -> Vec<E> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                v.push((a, b, w(a, b)));
            }
        }
    }
    v
}

pub fn graphs() -> Vec<Vec<E>> {
    vec![
        vec![(0, 1, 1)],
        chain(3, |_| 2),
        bidir(&ring(6, |i| 1 + i % 2)),
        bidir(&grid(6, 6, |_, _| 1)),
        bidir(&grid(9, 7, |a, b| 1 + (a * 5 + b * 3) % 7)),
        clique(8, |_, _| 1),
        clique(48, |a, b| 1 + (a + b) % 3),
        bidir(&star(130, |_| 1)),
        bidir(&chain(300, |i| 1 + i % 4)),
        vec![(0, 1, M - 1), (1, 2, M / 2), (2, 3, M / 2), (3, 0, 1), (0, 2, M)],
        bidir(&grid(15, 15, |a, b| 1 + (a * 7 + b * 11) % 13)),
        vec![(0, 1, 3), (1, 0, 3), (5, 6, 2), (6, 9, 1), (9, 5, 4)],
        edges_of(Sh::BiCirculant, 64, Wt::Mixed),
        edges_of(Sh::Cliques, 90, Wt::One),
        edges_of(Sh::Tree, 255, Wt::Mixed),
        edges_of(Sh::BiChain, 2500, Wt::Edge),
        edges_of(Sh::OneWayGrid, 49, Wt::Metric),
        vec![(0, 5000, 7), (5000, 2500, 1), (2500, 0, 2)],
        vec![(2, 1, 5), (2, 1, 4), (1, 1, 3), (0, 2, 0), (0, 2, 9), (2, 1, 6)],
        vec![],
    ]
}

/// kinds of calls in a history
const KINDS: usize = 10;

fn reversed(e: &[E]) -> Vec<usize> {
    (0..node_count(e)).rev().collect()
}

fn execute(op: usize, gs: &[Vec<E>]) {
    let e = &gs[op / KINDS];
    let input = build_input(e);
    let n = input.get_num_nodes();
    match op % KINDS {
        0 => {
            prepare(&input);
        }
        1 => {
            let mut p = params(0.0, 0, 0, 0);
            p.quot = 5.0;
            prepare_with_params(&input, &p.params());
        }
        2 => {
            prepare_with_params(&input, &params(7.0, M, M, M).params());
        }
        3 => {
            prepare_with_order(&input, &reversed(e)).expect("src/ order");
        }
        4 => {
            prepare_with_order_with_params(&input, &reversed(e), &ParamsWithOrder::new(0)).expect("src/ order");
        }
        5 => {
            let g = prepare(&input);
            let mut c = create_calculator(&g);
            for k in 0..n.min(20) {
                calc_path(&g, k, (k * 7 + 3) % n);
                c.calc_path(&g, k, n - 1 - k);
                calc_path_multiple_sources_and_targets(&g, vec![(k, M - 1), (0, 5)], vec![(n - 1, k), (k, M)]);
            }
        }
        6 => {
            let g = prepare(&input);
            let h: FastGraph = bincode::deserialize(&bytes(&g)).expect("src/ bytes");
            let i: InputGraph = bincode::deserialize(&bincode::serialize(&input).unwrap()).expect("src/ bytes");
            prepare(&i);
            if n > 0 {
                calc_path(&h, 0, n - 1);
            }
            // refused for large weights
            let _ = attempt(|| {
                let f = FastGraph32::new(&g);
                let f: FastGraph32 = bincode::deserialize(&bincode::serialize(&f).unwrap()).expect("src/ bytes");
                let g32 = f.convert_to_usize();
                if n > 0 {
                    calc_path(&g32, n - 1, 0);
                }
            });
        }
        7 => {
            let mut o = reversed(e);
            o.push(n + 1);
            let _ = attempt(|| prepare_with_order(&input, &o).is_ok());
            let mut o = reversed(e);
            if n > 1 {
                o[0] = o[1];
            }
            let _ = attempt(|| prepare_with_order(&input, &o).is_ok());
            let g = prepare(&input);
            let _ = attempt(|| calc_path(&g, n, 0));
            let _ = attempt(|| calc_path(&g, 0, n));
            let mut thawed = build_input(e);
            thawed.thaw();
            let _ = attempt(|| prepare(&thawed));
        }
        8 => {
            for _ in 0..if e.len() > 500 { 30 } else { 300 } {
                prepare(&input);
            }
        }
        _ => {
            // two graphs in turns, from several threads
            let other = &gs[(op / KINDS + 3) % gs.len()];
            for _ in 0..3 {
                std::thread::scope(|s| {
                    s.spawn(|| prepare(&input));
                    s.spawn(|| prepare(&build_input(other)));
                });
            }
        }
    }
}

/// many small preparations
const REPEATED: [(usize, usize); 4] = [(0, 1000), (1, 5000), (2, 20_000), (0, 70_000)];

fn num_ops(gs: usize) -> usize {
    gs * KINDS + REPEATED.len()
}

fn fnv(b: impl Iterator<Item = u64>) -> u64 {
    b.fold(0xcbf2_9ce4_8422_2325, mix)
}

/// `mc history OPS TARGETS`, both comma separated: prints what is observed of each target graph
pub fn command(ops: &str, targets: &str) {
    let numbers = |s: &str| -> Vec<usize> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("src/ number")).collect()
    };
    let (ops, targets) = (numbers(ops), numbers(targets));
    let gs = graphs();
    // as in the worker processes
    std::thread::scope(|s| {
        s.spawn(|| {
            for op in ops {
                if op < gs.len() * KINDS {
                    execute(op, &gs);
                } else {
                    let (g, times) = REPEATED[op - gs.len() * KINDS];
                    let input = build_input(&gs[g]);
                    for _ in 0..times {
                        let f = prepare(&input);
                        calc_path(&f, 0, 1);
                    }
                }
            }
            for t in targets {
                let input = build_input(&gs[t]);
                let g = prepare(&input);
                let h = prepare_with_params(&input, &params(3.0, 5, 1, 3).params());
                let o = prepare_with_order(&input, &reversed(&gs[t])).expect("src/ order");
                let b = [&g, &h, &o].map(|g| fnv(bytes(g).into_iter().map(|x| x as u64)));
                let a = [&g, &o].map(|g| fnv(observe(g, &mut Ctx::default()).into_iter().map(|x| x as u64)));
                println!("{} {} {} {} {}", b[0], b[1], b[2], a[0], a[1]);
            }
        })
        .join()
        .unwrap()
    });
}

fn ask(ops: &[usize], targets: &[usize]) -> Result<Vec<Vec<u64>>, String> {
    let join = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let o = Command::new("/proc/self/exe")
        .args(["history", &join(ops), &join(targets)])
        .stdin(Stdio::null())
        .output()
        .expect("src/ history process");
    if !o.status.success() {
        return Err(format!("the process ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(String::from_utf8_lossy(&o.stdout)
        .lines()
        .map(|l| l.split(' ').map(|x| x.parse().expect("src/ number")).collect())
        .collect())
}

thread_local! {
    static ALONE: RefCell<Vec<Vec<u64>>> = const { RefCell::new(vec![]) };
}

fn show(op: usize) -> String {
    let gs = graphs();
    if op >= gs.len() * KINDS {
        let (g, times) = REPEATED[op - gs.len() * KINDS];
        return format!("{} x (prepare graph {} and query it)", times, g);
    }
    let what = [
        "prepare",
        "prepare_with_params (all budgets 0)",
        "prepare_with_params (no limits)",
        "prepare_with_order",
        "prepare_with_order_with_params(0)",
        "prepare and query",
        "store and load in both formats",
        "refused calls",
        "prepare many times",
        "prepare in two threads",
    ];
    format!("{}: graph {}", what[op % KINDS], op / KINDS)
}

pub struct Histories {
    /// what is compared: the prepared graphs, or the answers to queries
    pub answers: bool,
    pub histories: Vec<Vec<usize>>,
    pub label: &'static str,
}

/// all histories of one call
pub fn single(answers: bool) -> Histories {
    Histories { answers, histories: (0..num_ops(graphs().len())).map(|a| vec![a]).collect(), label: "one call" }
}

/// all ordered pairs of calls with one of the graphs `gs`
pub fn pairs(answers: bool, gs: &[usize], kinds: &[usize], label: &'static str) -> Histories {
    let ops: Vec<usize> = gs.iter().flat_map(|g| kinds.iter().map(move |k| g * KINDS + k)).collect();
    let mut histories = vec![];
    for a in &ops {
        for b in &ops {
            histories.push(vec![*a, *b]);
        }
    }
    Histories { answers, histories, label }
}

impl Space for Histories {
    fn name(&self) -> String {
        format!(
            "process-histories({},{},{})",
            self.label,
            if self.answers { "answers" } else { "prepared graphs" },
            self.histories.len()
        )
    }
    fn len(&self) -> u64 {
        self.histories.len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        format!(
            "each history executed in a process of its own, then {} graphs prepared in 3 ways and compared with processes that prepared nothing else; histories of {} calls out of {} kinds x {} graphs",
            graphs().len(), self.histories[0].len(), KINDS, graphs().len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let n = graphs().len();
        let alone = ALONE.with(|a| -> Result<Vec<Vec<u64>>, String> {
            let mut a = a.borrow_mut();
            if a.is_empty() {
                for t in 0..n {
                    a.push(ask(&[], &[t]).map_err(|m| format!("graph {} alone: {}", t, m))?.swap_remove(0));
                }
            }
            Ok(a.clone())
        })?;
        let ops = &self.histories[i as usize];
        // the order of the observed graphs rotates
        let first = (i as usize * 7) % n;
        let targets: Vec<usize> = (0..n).map(|k| (first + k) % n).collect();
        let got = ask(ops, &targets)?;
        let range = if self.answers { 3..5 } else { 0..3 };
        for (k, t) in targets.iter().enumerate() {
            ctx.states += range.len() as u64;
            ctx.calls += 3;
            if got[k][range.clone()] != alone[*t][range.clone()] {
                return Err(format!(
                    "graph {}, observed after {:?} and graphs {:?}, differs from the graph prepared in a new process",
                    t,
                    ops.iter().map(|o| show(*o)).collect::<Vec<_>>(),
                    &targets[..k]
                ));
            }
        }
        ctx.calls += ops.len() as u64;
        ctx.traces += 1;
        ctx.nontrivial += 1;
        ctx.outcome(fnv(got.iter().flatten().copied()));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let ops = &self.histories[i as usize];
        format!(
            "in a new process: {}; then prepare the graphs of mc/src/history.rs and compare with new processes (mc history {} 0,1,...)",
            ops.iter().map(|o| show(*o)).collect::<Vec<_>>().join("; "),
            ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(","),
        )
    }
}
