//! A menu of everything a user can do with the library, each entry returning all it observed as one list of numbers:
//! C21 (nothing is left behind), C22 (logging has no influence), C23 (debug builds).

use crate::engine::*;
use crate::families::*;
use crate::files::scratch;
use crate::persist::{bytes, observe};
use crate::queries::{params, ParamSet};
use crate::reference::*;
use crate::seam;
use fast_paths::*;

const M: usize = usize::MAX;

/// a refusal, whatever its text
const NO: u64 = 0xdead;

pub fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |h, x| mix(h, *x as u64))
}

fn hash_obs(g: &FastGraph, ctx: &mut Ctx) -> u64 {
    observe(g, ctx).iter().fold(1, |h, x| mix(h, *x as u64))
}

fn hash_path(p: &Option<ShortestPath>) -> u64 {
    match p {
        None => 3,
        Some(p) => {
            let h = mix(mix(mix(5, p.get_source() as u64), p.get_target() as u64), p.get_weight() as u64);
            p.get_nodes().iter().fold(mix(h, p.is_found() as u64), |h, x| mix(h, *x as u64))
        }
    }
}

fn hash_input(g: &InputGraph) -> u64 {
    let h = mix(g.get_num_nodes() as u64, g.get_num_edges() as u64);
    g.get_edges().iter().fold(h, |h, e| mix(mix(mix(h, e.from as u64), e.to as u64), e.weight as u64))
}

fn sets() -> Vec<ParamSet> {
    let mut v =
        vec![params(0.0, 0, 0, 0), params(3.0, M, M, M), params(0.1, 3, 2, 1), params(1e30, 1, 100, 2), params(0.1, 500, 100, 500)];
    v[0].quot = 9.0;
    v[4].quot = 0.0;
    v
}

pub const NAMES: [&str; 24] = [
    "build and read an input graph",
    "prepare",
    "prepare_with_params",
    "prepare_with_order",
    "prepare_with_order_with_params",
    "queries with one calculator",
    "stand-alone queries",
    "queries with several sources and targets",
    "bincode",
    "JSON",
    "32-bit representation",
    "plain text file",
    "DIMACS file",
    "files that are refused",
    "orders that are refused",
    "queries that are refused",
    "preparing an input graph that is not frozen",
    "editing a frozen input graph",
    "files that cannot be opened",
    "copies",
    "text files that cannot be written completely",
    "text files that cannot be read completely",
    "storing in and loading from streams that end early",
    "nodes without edges",
];

/// Executes entry `k` of the menu for the graph.
pub fn act(k: usize, n: usize, edges: &[E], ctx: &mut Ctx) -> Vec<u64> {
    let mut v = vec![];
    let input = build_input(edges);
    let some = |n: usize| (0..n).filter(move |s| n <= 24 || s % (n / 12) == 0 || *s + 1 == n);
    ctx.calls += edges.len() as u64 + 4;
    match k {
        0 => {
            let mut g = InputGraph::new();
            for (i, e) in edges.iter().enumerate() {
                v.push(if i % 3 == 1 { g.add_edge_bidir(e.0, e.1, e.2) } else { g.add_edge(e.0, e.1, e.2) } as u64);
            }
            v.push(g.add_edge(1, 1, 4) as u64);
            v.push(g.add_edge(0, 1, 0) as u64);
            v.push(g.add_edge_bidir(2, 2, 0) as u64);
            g.freeze();
            v.push(hash_input(&g));
            g.thaw();
            if let Some(e) = edges.first() {
                v.push(g.add_edge(e.0, e.1, e.2.saturating_add(1)) as u64);
                v.push(g.add_edge(e.0, e.1, (e.2 + 1) / 2) as u64);
            }
            g.freeze();
            v.push(hash_input(&g));
        }
        1 => {
            let g = prepare(&input);
            v.push(hash_bytes(&bytes(&g)));
            v.push(hash_obs(&g, ctx));
        }
        2 => {
            // limits on the search effort, also in large graphs
            for p in sets().into_iter().filter(|p| n < 200 || p.contr < 600 && p.neigh < 600) {
                let g = prepare_with_params(&input, &p.params());
                v.push(hash_bytes(&bytes(&g)));
                v.push(hash_obs(&g, ctx));
            }
        }
        3 | 4 => {
            let down: Vec<usize> = (0..n).rev().collect();
            let split: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
            for o in [down, split] {
                let budgets: &[usize] = if k == 3 { &[7] } else if n < 200 { &[0, 2, M] } else { &[2, 20] };
                for b in budgets {
                    let r = if k == 3 {
                        prepare_with_order(&input, &o)
                    } else {
                        prepare_with_order_with_params(&input, &o, &ParamsWithOrder::new(*b))
                    };
                    match r {
                        Ok(g) => {
                            v.push(hash_bytes(&bytes(&g)));
                            v.push(hash_obs(&g, ctx));
                            v.extend(get_node_ordering(&g).iter().map(|x| *x as u64));
                        }
                        Err(_) => v.push(NO),
                    }
                }
            }
        }
        5 => {
            let g = prepare(&input);
            let mut c = create_calculator(&g);
            for s in some(n) {
                for t in some(n) {
                    v.push(hash_path(&c.calc_path(&g, s, t)));
                }
            }
        }
        6 => {
            let g = prepare(&input);
            for s in some(n) {
                for t in some(n) {
                    v.push(hash_path(&calc_path(&g, s, t)));
                }
            }
        }
        7 => {
            let g = prepare(&input);
            let mut c = create_calculator(&g);
            for s in some(n) {
                for t in some(n) {
                    let from = vec![(s, 3), (t, M), ((s + t) % n, s)];
                    let to = vec![(t, 0), (s, M - 2), ((t + 1) % n, 2), (t, 5)];
                    v.push(hash_path(&c.calc_path_multiple_sources_and_targets(&g, from.clone(), to.clone())));
                    v.push(hash_path(&calc_path_multiple_sources_and_targets(&g, to, from)));
                }
            }
        }
        8 => {
            let g = prepare(&input);
            let b = bytes(&g);
            match bincode::deserialize::<FastGraph>(&b) {
                Ok(h) => v.extend([hash_obs(&h, ctx), hash_bytes(&bytes(&h))]),
                Err(_) => v.push(NO),
            }
            let b = bincode::serialize(&input).expect("serialization failed");
            match bincode::deserialize::<InputGraph>(&b) {
                Ok(h) => v.push(hash_input(&h)),
                Err(_) => v.push(NO),
            }
            v.push(hash_bytes(&b));
            for cut in [0, b.len() / 3, b.len() - 1] {
                v.push(bincode::deserialize::<InputGraph>(&b[..cut]).is_ok() as u64);
            }
        }
        9 => {
            let g = prepare(&input);
            let b = serde_json::to_string(&g).expect("serialization failed");
            match serde_json::from_str::<FastGraph>(&b) {
                Ok(h) => v.extend([hash_obs(&h, ctx), hash_bytes(&bytes(&h))]),
                Err(_) => v.push(NO),
            }
            v.push(serde_json::from_str::<FastGraph>(&b[..b.len() / 2]).is_ok() as u64);
            let b = serde_json::to_string(&input).expect("serialization failed");
            match serde_json::from_str::<InputGraph>(&b) {
                Ok(h) => v.push(hash_input(&h)),
                Err(_) => v.push(NO),
            }
        }
        10 => {
            let g = prepare(&input);
            // refused for weights that do not fit
            match attempt(|| FastGraph32::new(&g)) {
                Ok(f) => {
                    let b = bincode::serialize(&f).expect("serialization failed");
                    v.push(hash_bytes(&b));
                    v.push(hash_obs(&f.clone().convert_to_usize(), ctx));
                    v.push(hash_bytes(&bytes(&f.convert_to_usize())));
                    match bincode::deserialize::<FastGraph32>(&b) {
                        Ok(h) => v.push(hash_obs(&h.convert_to_usize(), ctx)),
                        Err(_) => v.push(NO),
                    }
                }
                Err(_) => v.push(NO),
            }
        }
        11 | 12 => {
            let path = scratch();
            let r = if k == 11 { input.to_file(&path) } else { input.to_dimacs_file(&path) };
            v.push(r.is_ok() as u64);
            v.push(hash_bytes(&std::fs::read(&path).expect("scratch file")));
            match attempt(|| if k == 11 { InputGraph::from_file(&path) } else { InputGraph::from_dimacs_file(&path) }) {
                Ok(g) => v.push(hash_input(&g)),
                Err(_) => v.push(NO),
            }
            std::fs::remove_file(&path).expect("scratch file");
        }
        13 => {
            let path = scratch();
            let id = n + 5;
            for text in [
                format!("a {} 2 x\n", id),
                format!("c comment {}\nnonsense\na 0 1 5\n", id),
                format!("p sp {} 3\na 1 2 3\n", id),
                format!("a 1 2 3\np sp {} 1\n", id),
                format!("p sp 1 1\na 1 {} 3\n", id),
                format!("p sp {} 0\n\nc\n", id),
                String::from("a 1 1 1\na 2 2 0\nb\n\n"),
            ] {
                std::fs::write(&path, text).expect("scratch file");
                for dimacs in [false, true] {
                    let r =
                        attempt(|| if dimacs { InputGraph::from_dimacs_file(&path) } else { InputGraph::from_file(&path) });
                    match r {
                        Ok(g) => v.push(hash_input(&g)),
                        Err(_) => v.push(NO),
                    }
                }
            }
            std::fs::remove_file(&path).expect("scratch file");
        }
        14 => {
            let mut o: Vec<usize> = (0..n).collect();
            o.push(n);
            for o in [o, vec![0; n], (1..=n).collect(), (0..n).map(|x| x / 2).collect(), vec![M; n], vec![3; n + 2]] {
                for b in [None, Some(3)] {
                    let r = attempt(|| match b {
                        None => prepare_with_order(&input, &o),
                        Some(b) => prepare_with_order_with_params(&input, &o, &ParamsWithOrder::new(b)),
                    });
                    v.push(match r {
                        Ok(Ok(g)) => hash_bytes(&bytes(&g)),
                        Ok(Err(_)) => 11,
                        Err(_) => NO,
                    });
                }
            }
        }
        15 => {
            let g = prepare(&input);
            let other = prepare(&build_input(&chain(n + 2, |_| 1)));
            let mut c = create_calculator(&g);
            let bad: [(Vec<(usize, usize)>, Vec<(usize, usize)>); 6] = [
                (vec![(n, 0)], vec![(0, 0)]),
                (vec![(0, 0)], vec![(M, 0)]),
                (vec![], vec![(0, 1)]),
                (vec![(0, 1)], vec![]),
                (vec![(0, 1), (n + 7, 2)], vec![(0, 4)]),
                (vec![(0, 1)], vec![(0, 4), (n, M)]),
            ];
            for (s, t) in bad {
                let r = attempt(|| c.calc_path_multiple_sources_and_targets(&g, s.clone(), t.clone()));
                v.push(r.map_or(NO, |p| hash_path(&p)));
                let r = attempt(|| calc_path_multiple_sources_and_targets(&g, s, t));
                v.push(r.map_or(NO, |p| hash_path(&p)));
                v.push(attempt(|| c.calc_path(&g, n, 0)).map_or(NO, |p| hash_path(&p)));
                v.push(attempt(|| c.calc_path(&other, 0, n)).map_or(NO, |p| hash_path(&p)));
                if n > 0 {
                    v.push(hash_path(&c.calc_path(&g, 0, n - 1)));
                }
            }
        }
        16 => {
            let mut g = InputGraph::new();
            for e in edges {
                g.add_edge(e.0, e.1, e.2);
            }
            let o: Vec<usize> = (0..n).collect();
            v.push(attempt(|| prepare(&g)).map_or(NO, |g| hash_bytes(&bytes(&g))));
            v.push(attempt(|| prepare_with_params(&g, &Params::default())).map_or(NO, |g| hash_bytes(&bytes(&g))));
            v.push(attempt(|| prepare_with_order(&g, &o)).map_or(NO, |g| g.map_or(11, |g| hash_bytes(&bytes(&g)))));
            v.push(attempt(|| g.get_num_nodes()).map_or(NO, |x| x as u64));
            v.push(attempt(|| g.get_num_edges()).map_or(NO, |x| x as u64));
            v.push(attempt(|| g.get_edges().len()).map_or(NO, |x| x as u64));
            g.freeze();
            v.push(hash_bytes(&bytes(&prepare(&g))));
        }
        17 => {
            let mut g = input.clone();
            v.push(attempt(|| g.add_edge(0, 1, 2)).map_or(NO, |x| x as u64));
            v.push(attempt(|| g.add_edge_bidir(1, 1, 0)).map_or(NO, |x| x as u64));
            v.push(attempt(|| g.freeze()).map_or(NO, |_| 1));
            v.push(hash_input(&g));
            g.thaw();
            g.thaw();
            v.push(g.add_edge(n, n + 1, 2) as u64);
            g.freeze();
            v.push(hash_input(&g));
        }
        18 => {
            let path = scratch() + ".absent/x";
            v.push(input.to_file(&path).is_ok() as u64);
            v.push(input.to_dimacs_file(&path).is_ok() as u64);
            v.push(attempt(|| InputGraph::from_file(&path)).map_or(NO, |g| hash_input(&g)));
            v.push(attempt(|| InputGraph::from_dimacs_file(&path)).map_or(NO, |g| hash_input(&g)));
        }
        20 => {
            for plan in [
                seam::Plan { write_budget: Some((0, 28)), ..Default::default() },
                seam::Plan { write_budget: Some((9, 28)), ..Default::default() },
                seam::Plan { write_budget: Some((12, 5)), write_max: Some(5), ..Default::default() },
                seam::Plan { write_fail_at: Some((0, 28)), ..Default::default() },
                seam::Plan { open_fail: Some(24), ..Default::default() },
            ] {
                for dimacs in [false, true] {
                    let path = scratch();
                    seam::arm(plan.clone());
                    let r = attempt(|| if dimacs { input.to_dimacs_file(&path) } else { input.to_file(&path) });
                    seam::disarm();
                    v.push(r.map_or(NO, |r| r.is_ok() as u64));
                    let _ = std::fs::remove_file(&path);
                }
            }
        }
        21 => {
            let path = scratch();
            let n = edges.len();
            let arcs: String = edges.iter().map(|e| format!("a {} {} {}\n", e.0 + 1, e.1 + 1, e.2)).collect();
            std::fs::write(&path, format!("p sp {} {}\n{}", crate::reference::node_count(edges), n, arcs)).expect("scratch file");
            for plan in [
                seam::Plan { read_fail_offset: Some((0, 5)), ..Default::default() },
                seam::Plan { read_fail_offset: Some((10, 5)), ..Default::default() },
                seam::Plan { read_fail_at: Some((1, 5)), ..Default::default() },
                seam::Plan { read_max: Some(3), read_eintr: true, ..Default::default() },
                seam::Plan { open_fail: Some(13), ..Default::default() },
            ] {
                for dimacs in [false, true] {
                    seam::arm(plan.clone());
                    let r =
                        attempt(|| if dimacs { InputGraph::from_dimacs_file(&path) } else { InputGraph::from_file(&path) });
                    seam::disarm();
                    v.push(r.map_or(NO, |g| hash_input(&g)));
                }
            }
            std::fs::remove_file(&path).expect("scratch file");
        }
        22 => {
            let g = prepare(&input);
            let whole = bytes(&g);
            let text = serde_json::to_vec(&g).expect("serialization failed");
            let mut room = vec![0u8; text.len().max(whole.len())];
            for part in [0, 1, 3, 7, 9, 10] {
                let (a, b) = (whole.len() * part / 10, text.len() * part / 10);
                v.push(bincode::serialize_into(&mut room[..a], &g).is_ok() as u64);
                v.push(serde_json::to_writer(&mut room[..b], &g).is_ok() as u64);
                v.push(bincode::serialize_into(&mut room[..a], &input).is_ok() as u64);
                v.push(bincode::deserialize_from::<_, FastGraph>(&whole[..a]).map_or(NO, |g| hash_bytes(&bytes(&g))));
                v.push(serde_json::from_reader::<_, FastGraph>(&text[..b]).map_or(NO, |g| hash_bytes(&bytes(&g))));
                v.push(
                    attempt(|| bincode::deserialize_from::<_, FastGraph32>(&whole[..a / 2]).is_ok()).map_or(NO, |x| x as u64),
                );
            }
        }
        23 => {
            let path = scratch();
            let arcs: String = edges.iter().map(|e| format!("a {} {} {}\n", e.0 + 2, e.1 + 2, e.2)).collect();
            let m = 4 + edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(0);
            std::fs::write(&path, format!("p sp {} {}\n{}", m, edges.len(), arcs)).expect("scratch file");
            let mut a = InputGraph::from_dimacs_file(&path);
            std::fs::remove_file(&path).expect("scratch file");
            v.push(hash_input(&a));
            a.thaw();
            v.push(a.add_edge(0, 1, 3) as u64);
            a.freeze();
            v.push(hash_input(&a));
            let g = prepare(&a);
            v.push(hash_bytes(&bytes(&g)));
            v.extend(get_node_ordering(&g).iter().map(|x| *x as u64));
            let mut c = create_calculator(&g);
            for s in some(m).chain([m - 1]) {
                v.push(hash_path(&c.calc_path(&g, s, m - 1)));
                v.push(hash_path(&c.calc_path(&g, m - 2, s)));
                v.push(hash_path(&c.calc_path_multiple_sources_and_targets(&g, vec![(m - 1, 1), (s, 2)], vec![(0, 3), (1, 1)])));
            }
        }
        _ => {
            let g = prepare(&input);
            let (a, b) = (g.clone(), input.clone());
            v.push(hash_bytes(&bytes(&a)));
            v.push(hash_input(&b));
            v.push(hash_bytes(&bytes(&prepare(&b))));
            v.push(hash_obs(&a, ctx));
            if n > 0 {
                let p = calc_path(&a, 0, n - 1);
                v.push(hash_path(&p.clone()));
                v.push(hash_bytes(format!("{:?} {:?}", p, a).as_bytes()));
            }
        }
    }
    v
}

pub fn show_act(k: usize, edges: &[E]) -> String {
    format!("{}// {} (see act() in mc/src/acts.rs)", show_input(edges), NAMES[k])
}

/// Outcomes of the whole menu; two builds are compared by the digest of the space
pub struct Menu {
    pub fam: Fam,
}

impl Space for Menu {
    fn name(&self) -> String {
        format!("menu/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * NAMES.len() as u64
    }
    fn bounds(&self) -> String {
        format!("{} graphs x {} kinds of use; the outcomes of both builds are compared", self.fam.len(), NAMES.len())
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let k = (i % NAMES.len() as u64) as usize;
        let (n, edges) = self.fam.edges(i / NAMES.len() as u64);
        let v = act(k, n, &edges, ctx);
        let h = v.iter().fold(k as u64, |h, x| mix(h, *x));
        ctx.states += v.len() as u64;
        ctx.traces += 1;
        ctx.nontrivial += v.contains(&NO) as u64;
        ctx.outcome(h);
        ctx.digest = ctx.digest.wrapping_add(mix(mix(0x51, i), h));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i / NAMES.len() as u64);
        show_act((i % NAMES.len() as u64) as usize, &edges)
    }
}

// ---------------------------------------------------------------------------------------------

mod sink {
    use std::cell::{Cell, RefCell};
    use std::fmt::Write;

    thread_local! {
        pub static TEXT: RefCell<String> = const { RefCell::new(String::new()) };
        pub static COUNT: Cell<u64> = const { Cell::new(0) };
    }

    struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let _ = TEXT.try_with(|t| {
                let mut t = t.borrow_mut();
                t.clear();
                // formatting evaluates the arguments
                write!(t, "{} {} {}", r.level(), r.target(), r.args()).unwrap();
            });
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
        fn flush(&self) {}
    }
    static SINK: Sink = Sink;

    pub fn install() {
        // the second time it is installed already
        let _ = log::set_logger(&SINK);
    }
}

/// What arrives at the standard streams of this process while it exists; the streams are restored when it is dropped.
struct Streams {
    fd: i32,
    saved: [i32; 2],
}

impl Streams {
    fn divert() -> Streams {
        unsafe {
            let fd = libc::memfd_create(c"streams".as_ptr(), libc::MFD_CLOEXEC);
            assert!(fd >= 0);
            let saved = [libc::dup(1), libc::dup(2)];
            assert!(saved[0] >= 0 && saved[1] >= 0 && libc::dup2(fd, 1) == 1 && libc::dup2(fd, 2) == 2);
            Streams { fd, saved }
        }
    }
    fn text(&self) -> String {
        use std::io::Write;
        std::io::stdout().flush().expect("src/ stdout");
        unsafe {
            let n = libc::lseek(self.fd, 0, libc::SEEK_END);
            let mut b = vec![0u8; n.clamp(0, 500) as usize];
            let r = libc::pread(self.fd, b.as_mut_ptr() as *mut libc::c_void, b.len(), 0);
            b.truncate(r.max(0) as usize);
            String::from_utf8_lossy(&b).into_owned()
        }
    }
}

impl Drop for Streams {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.saved[0], 1);
            libc::dup2(self.saved[1], 2);
            for f in [self.saved[0], self.saved[1], self.fd] {
                libc::close(f);
            }
        }
    }
}

use log::LevelFilter as L;
const LEVELS: [L; 6] = [L::Off, L::Error, L::Warn, L::Info, L::Debug, L::Trace];

/// The menu at every log level: same outcomes, and nothing on the standard streams
pub struct Logged {
    pub fam: Fam,
}

impl Space for Logged {
    fn name(&self) -> String {
        format!("log-levels/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * NAMES.len() as u64
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x {} kinds of use x log levels off, error, warn, info, debug, trace; standard streams watched",
            self.fam.len(),
            NAMES.len()
        )
    }
    fn case_timeout(&self) -> u64 {
        240
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        sink::install();
        let k = (i % NAMES.len() as u64) as usize;
        let (n, edges) = self.fam.edges(i / NAMES.len() as u64);
        let streams = Streams::divert();
        let mut first: Option<Result<Vec<u64>, String>> = None;
        for level in LEVELS {
            log::set_max_level(level);
            let before = sink::COUNT.with(|c| c.get());
            let r = attempt(|| act(k, n, &edges, ctx));
            log::set_max_level(L::Off);
            let said = sink::COUNT.with(|c| c.get()) - before;
            if level == L::Off && said > 0 {
                return Err("src/ the log level has no effect".into());
            }
            ctx.traces += 1;
            ctx.nontrivial += (said > 0) as u64;
            ctx.outcome(mix(i % NAMES.len() as u64, said));
            let text = streams.text();
            if !text.is_empty() {
                return Err(format!("at log level {}, the library writes to the standard streams: {:?}", level, text));
            }
            match &first {
                None => {
                    ctx.states += 1;
                    first = Some(r);
                }
                // a refusal stays a refusal
                Some(Err(_)) if r.is_err() => {}
                Some(f) => {
                    if *f != r {
                        let at = match (f, &r) {
                            (Ok(a), Ok(b)) => format!(
                                "observation {} of {} differs",
                                a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())),
                                a.len()
                            ),
                            (Ok(_), Err(m)) => format!("panics: {}", m),
                            (Err(m), _) => format!("panics only with the log level off: {}", m),
                        };
                        return Err(format!("at log level {}: {}", level, at));
                    }
                }
            }
        }
        if let Some(Err(m)) = first {
            return Err(format!("unexpected panic: {}", m));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i / NAMES.len() as u64);
        show_act((i % NAMES.len() as u64) as usize, &edges)
    }
}

// ---------------------------------------------------------------------------------------------

/// Counts what is allocated in this process.
pub mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering};

    static LIVE: AtomicI64 = AtomicI64::new(0);
    pub fn live() -> i64 {
        LIVE.load(Ordering::Relaxed)
    }

    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}

fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

/// Does the amount grow in each of three intervals of repetitions, and by more than what a few more digits of a
/// number in some text take? (Buffers that reached their size and bounded caches do not.)
fn grows(at: &[(u64, i64)]) -> bool {
    at.windows(2).all(|w| {
        let more = (w[1].0 - w[0].0) as i64;
        w[1].1 - w[0].1 > (more / 8).max(64)
    })
}

/// repetitions after which the memory is measured
const ROUNDS: [u64; 4] = [12, 50, 200, 800];

/// One entry of the menu, again and again, each time with other weights: nothing may stay behind.
pub struct Leaks {
    pub fam: Fam,
    pub rounds: u64,
}

impl Space for Leaks {
    fn name(&self) -> String {
        format!("left-behind/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * NAMES.len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        240
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x {} kinds of use x {} repetitions with different weights; live heap bytes, open files, threads",
            self.fam.len(),
            NAMES.len(),
            ROUNDS[3] * self.rounds
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let k = (i % NAMES.len() as u64) as usize;
        let (n, edges) = self.fam.edges(i / NAMES.len() as u64);
        let mut seen = vec![];
        let mut own = Ctx::default();
        let mut e = edges.clone();
        let (files, tasks) = (open_files(), threads());
        for r in 1..=ROUNDS[3] * self.rounds {
            for (a, b) in e.iter_mut().zip(&edges) {
                if b.2 > 0 && b.2 < M / 4 {
                    a.2 = b.2 + (r * 7 % 4001) as usize;
                }
            }
            drop(act(k, n, &e, &mut own));
            own.outcomes.clear();
            if ROUNDS.iter().any(|x| x * self.rounds == r) {
                seen.push((r, counting::live()));
            }
        }
        let (files2, tasks2) = (open_files(), threads());
        ctx.calls += own.calls;
        ctx.states += ROUNDS[3] * self.rounds;
        ctx.traces += 1;
        ctx.nontrivial += 1;
        ctx.outcome(mix(k as u64, (seen[3].1 - seen[2].1) as u64));
        if grows(&seen) {
            return Err(format!(
                "memory is left behind although all results were dropped: live bytes after {} repetitions: {}",
                seen.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join("/"),
                seen.iter().map(|x| (x.1 - seen[0].1).to_string() + " more").collect::<Vec<_>>().join("/"),
            ));
        }
        if files2 > files + 20 {
            return Err(format!("{} files are left open by {} calls", files2 - files, ROUNDS[3] * self.rounds));
        }
        if tasks2 > tasks + 20 {
            return Err(format!("{} threads are left running by {} calls", tasks2 - tasks, ROUNDS[3] * self.rounds));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i / NAMES.len() as u64);
        show_act((i % NAMES.len() as u64) as usize, &edges) + ", again and again with other weights"
    }
}

/// The same round of queries (answered and refused ones) on one calculator, again and again
pub struct Steady {
    pub fam: Fam,
}

const MIXES: u64 = 6;

impl Space for Steady {
    fn name(&self) -> String {
        format!("calculator/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len() * MIXES
    }
    fn chunk(&self) -> u64 {
        4
    }
    fn case_timeout(&self) -> u64 {
        240
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x 6 mixes of found, absent, trivial, multi-source, ignored and refused queries x {} rounds on one calculator",
            self.fam.len(),
            ROUNDS[3]
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let mixn = i % MIXES;
        let (n, edges) = self.fam.edges(i / MIXES);
        if n == 0 {
            return Ok(());
        }
        let g = prepare(&build_input(&edges));
        let mut c = create_calculator(&g);
        let mut seen = vec![];
        let ids: Vec<usize> = (0..n).filter(|s| n <= 6 || s % (n / 5) == 0).collect();
        for r in 1..=ROUNDS[3] {
            for &s in &ids {
                for &t in &ids {
                    let x = match mixn {
                        0 => c.calc_path(&g, s, t),
                        1 => c.calc_path_multiple_sources_and_targets(
                            &g,
                            vec![(s, 1), (t, 2), (s, M)],
                            vec![(t, 0), (t, 1), (s, 9)],
                        ),
                        2 => c.calc_path_multiple_sources_and_targets(&g, vec![(s, M)], vec![(t, 0), (s, M)]),
                        3 => c.calc_path_multiple_sources_and_targets(&g, vec![(s, M - 1), (t, M - 2)], vec![(t, 3)]),
                        4 => {
                            let _ = attempt(|| c.calc_path(&g, s, n + t));
                            let _ = attempt(|| {
                                c.calc_path_multiple_sources_and_targets(&g, vec![(s, 0), (t, 1)], vec![(t, 0), (n, 1)])
                            });
                            let _ = attempt(|| c.calc_path_multiple_sources_and_targets(&g, vec![(s, 0)], vec![]));
                            None
                        }
                        _ => {
                            if (s + t) % 3 == 0 {
                                let _ = attempt(|| c.calc_path(&g, n, s));
                            }
                            c.calc_path(&g, t, s);
                            c.calc_path(&g, s, s)
                        }
                    };
                    drop(x);
                }
            }
            if ROUNDS.contains(&r) {
                seen.push((r, counting::live()));
            }
        }
        ctx.calls += ROUNDS[3] * (ids.len() * ids.len()) as u64;
        ctx.states += ROUNDS[3];
        ctx.traces += 1;
        ctx.nontrivial += 1;
        ctx.outcome(mix(mixn, (seen[3].1 - seen[0].1) as u64));
        if grows(&seen) {
            return Err(format!(
                "the calculator grows with every query: live bytes after {} rounds: {}",
                seen.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join("/"),
                seen.iter().map(|x| (x.1 - seen[0].1).to_string() + " more").collect::<Vec<_>>().join("/"),
            ));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i / MIXES);
        format!("{}// one calculator, query mix {} (see Steady in mc/src/acts.rs), {} rounds", show_input(&edges), i % MIXES, ROUNDS[3])
    }
}
