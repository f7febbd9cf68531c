//! Scenarios of C15 and the engine's self test.

use crate::dfs::{self, End, Engine, Explored};
use fast_paths::*;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

type E = (usize, usize, usize);

pub fn edges(g: usize) -> Vec<E> {
    let mut v = vec![];
    match g {
        // a ring with chords; many ties
        0 => {
            for i in 0..6 {
                v.push((i, (i + 1) % 6, 1 + i % 2));
                v.push(((i + 1) % 6, i, 1 + i % 3));
            }
            v.push((0, 3, 3));
            v.push((4, 1, 2));
        }
        // a one-way chain, as many nodes as graph 0
        1 => {
            for i in 0..5 {
                v.push((i, i + 1, 2 + i));
            }
            v.push((5, 2, 1));
        }
        // a star with more nodes
        _ => {
            for i in 1..9 {
                v.push((0, i, i));
                v.push((i, 0, 10 - i));
            }
            v.push((3, 7, 1));
        }
    }
    v
}

pub fn build(g: usize) -> InputGraph {
    let mut i = InputGraph::new();
    for e in edges(g) {
        i.add_edge(e.0, e.1, e.2);
    }
    i.freeze();
    i
}

fn orders(g: usize) -> Vec<usize> {
    match g {
        0 => vec![3, 1, 4, 0, 5, 2],
        1 => vec![1, 2, 3, 4, 5, 0],
        _ => vec![0, 8, 1, 7, 2, 6, 3, 5, 4],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// an own calculator, all pairs
    All(usize),
    /// an own calculator, three queries
    Few(usize),
    /// an own calculator with lists of sources and targets
    Multi(usize),
    /// stand-alone functions
    Alone(usize),
    AloneMulti(usize),
    /// refused queries and valid ones after them
    Refused(usize),
    Prepare(usize),
    PrepareOrder(usize),
    PrepareParams(usize),
    /// prepares an input graph that all threads share
    PrepareShared(usize),
    Serialize(usize),
    Deserialize(usize),
    Serialize32(usize),
    Ordering(usize),
}

/// Objects all threads share
pub struct Objects {
    pub graphs: Vec<FastGraph>,
    pub inputs: Vec<InputGraph>,
    pub bytes: Vec<Vec<u8>>,
}
/// Whether the types may be shared is decided at run time (`types`), so that the harness compiles anyway
pub struct Anyway<T>(pub T);
unsafe impl<T> Sync for Anyway<T> {}

fn show(p: Option<ShortestPath>) -> String {
    match p {
        None => "-".into(),
        Some(p) => format!("{}:{}>{}{:?}", p.get_weight(), p.get_source(), p.get_target(), p.get_nodes()),
    }
}

impl Op {
    pub fn run(&self, o: &Objects) -> String {
        let mut s = format!("{:?} ", self);
        match *self {
            Op::All(g) => {
                let fg = &o.graphs[g];
                let mut c = create_calculator(fg);
                for a in 0..fg.get_num_nodes() {
                    for b in 0..fg.get_num_nodes() {
                        s += &show(c.calc_path(fg, a, b));
                        s += " ";
                    }
                }
            }
            Op::Few(g) => {
                let fg = &o.graphs[g];
                let mut c = create_calculator(fg);
                for (a, b) in [(0, 4), (5, 1), (2, 2)] {
                    s += &show(c.calc_path(fg, a, b));
                    s += " ";
                }
            }
            Op::Multi(g) => {
                let fg = &o.graphs[g];
                let mut c = create_calculator(fg);
                s += &show(c.calc_path_multiple_sources_and_targets(fg, vec![(0, 1), (2, 0)], vec![(4, 1), (5, 3), (1, WEIGHT_MAX)]));
                s += &show(c.calc_path_multiple_sources_and_targets(fg, vec![(3, WEIGHT_MAX)], vec![(4, 1)]));
                s += &show(c.calc_path_multiple_sources_and_targets(fg, vec![(3, 2), (3, 1)], vec![(3, 4), (0, 0)]));
            }
            Op::Alone(g) => {
                let fg = &o.graphs[g];
                for (a, b) in [(0, 4), (5, 1), (2, 2), (1, 5)] {
                    s += &show(calc_path(fg, a, b));
                    s += " ";
                }
            }
            Op::AloneMulti(g) => {
                let fg = &o.graphs[g];
                s += &show(calc_path_multiple_sources_and_targets(fg, vec![(1, 1), (2, 0)], vec![(4, 1), (5, 3)]));
                s += &show(calc_path_multiple_sources_and_targets(fg, vec![(4, 0)], vec![(0, 1)]));
            }
            Op::Refused(g) => {
                let fg = &o.graphs[g];
                let mut c = create_calculator(fg);
                s += &show(c.calc_path(fg, 0, 3));
                let refused = catch_unwind(AssertUnwindSafe(|| {
                    c.calc_path(fg, 77, 1);
                }));
                s += if refused.is_err() { " refused " } else { " accepted " };
                let refused = catch_unwind(AssertUnwindSafe(|| {
                    calc_path(fg, 1, 99);
                }));
                s += if refused.is_err() { " refused " } else { " accepted " };
                s += &show(c.calc_path(fg, 1, 4));
                s += &show(calc_path(fg, 1, 4));
            }
            Op::Prepare(g) => {
                let fg = prepare(&build(g));
                s += &hex(&bincode::serialize(&fg).unwrap());
            }
            Op::PrepareOrder(g) => {
                let fg = prepare_with_order(&build(g), &orders(g)).unwrap();
                s += &hex(&bincode::serialize(&fg).unwrap());
                let bad = prepare_with_order(&build(g), &[0, 1]);
                s += if bad.is_err() { " refused" } else { " accepted" };
            }
            Op::PrepareParams(g) => {
                let fg = prepare_with_params(&build(g), &Params::new(0.7, 1, 0, 3));
                s += &hex(&bincode::serialize(&fg).unwrap());
            }
            Op::PrepareShared(g) => {
                let fg = prepare(&o.inputs[g]);
                s += &hex(&bincode::serialize(&fg).unwrap());
                s += &format!("{:?}", o.inputs[g].get_edges().len());
            }
            Op::Serialize(g) => s += &hex(&bincode::serialize(&o.graphs[g]).unwrap()),
            Op::Deserialize(g) => {
                let fg: FastGraph = bincode::deserialize(&o.bytes[g]).unwrap();
                s += &show(calc_path(&fg, 0, 4));
                s += &hex(&bincode::serialize(&fg).unwrap());
            }
            Op::Serialize32(g) => {
                let mut v = vec![];
                let mut ser = bincode::Serializer::new(&mut v, bincode::DefaultOptions::new());
                serialize_32(&o.graphs[g], &mut ser).unwrap();
                s += &hex(&v);
            }
            Op::Ordering(g) => s += &format!("{:?}", o.graphs[g].get_node_ordering()),
        }
        s
    }
}

fn hex(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{} bytes {:016x}", b.len(), h)
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub threads: Vec<Vec<Op>>,
    /// whether the process has used every function before
    pub warm: bool,
}
impl Scenario {
    pub fn name(&self) -> String {
        format!("{}{}", if self.warm { "warm" } else { "cold" }, format!("{:?}", self.threads).replace(' ', ""))
    }
}

const MENU: [Op; 17] = [
    Op::All(0),
    Op::Few(1),
    Op::Few(2),
    Op::Multi(0),
    Op::Alone(0),
    Op::Alone(1),
    Op::Alone(2),
    Op::AloneMulti(0),
    Op::Refused(0),
    Op::Prepare(0),
    Op::Prepare(2),
    Op::PrepareOrder(1),
    Op::PrepareParams(0),
    Op::PrepareShared(0),
    Op::Serialize(0),
    Op::Deserialize(1),
    Op::Serialize32(0),
];

pub fn scenarios(deep: bool) -> Vec<Scenario> {
    let mut scripts: Vec<Vec<Vec<Op>>> = vec![];
    for (i, a) in MENU.iter().enumerate() {
        for b in &MENU[i..] {
            scripts.push(vec![vec![*a], vec![*b]]);
        }
    }
    scripts.push(vec![vec![Op::Ordering(0)], vec![Op::Few(0)]]);
    // two calls per thread
    let small: Vec<Op> = if deep {
        vec![Op::Few(0), Op::Few(1), Op::Alone(0), Op::Alone(1), Op::Alone(2), Op::Refused(0), Op::Prepare(0), Op::Prepare(2), Op::Multi(0), Op::Serialize(0)]
    } else {
        vec![Op::Few(0), Op::Alone(1), Op::Refused(0), Op::Prepare(2)]
    };
    let two: Vec<Vec<Op>> = small.iter().flat_map(|a| small.iter().map(move |b| vec![*a, *b])).collect();
    for (i, a) in two.iter().enumerate() {
        for b in &two[i..] {
            scripts.push(vec![a.clone(), b.clone()]);
        }
    }
    // three threads
    let three: Vec<Op> = if deep {
        MENU.to_vec()
    } else {
        vec![Op::Few(0), Op::Alone(1), Op::Alone(2), Op::Prepare(0), Op::Serialize(0), Op::Refused(0)]
    };
    for (i, a) in three.iter().enumerate() {
        for (j, b) in three.iter().enumerate().skip(i) {
            for c in &three[j..] {
                scripts.push(vec![vec![*a], vec![*b], vec![*c]]);
            }
        }
    }
    let mut v = vec![];
    for s in scripts {
        for warm in [false, true] {
            v.push(Scenario { threads: s.clone(), warm });
        }
    }
    v
}

pub struct Data {
    bytes: Vec<Vec<u8>>,
    cold: Anyway<Objects>,
}

impl Data {
    /// The graphs are prepared in another process, so that this one stays as good as new
    pub fn new(e: &Engine) -> Data {
        let mut bytes = vec![];
        for g in 0..3 {
            let (end, text) = e.child(&|| {
                let b = bincode::serialize(&prepare(&build(g))).unwrap();
                b.iter().map(|x| format!("{:02x}", x)).collect()
            });
            assert!(matches!(end, End::Finished), "preparing graph {} fails", g);
            let t = text.as_bytes();
            bytes.push(
                (0..t.len() / 2)
                    .map(|k| u8::from_str_radix(std::str::from_utf8(&t[2 * k..2 * k + 2]).unwrap(), 16).unwrap())
                    .collect::<Vec<u8>>(),
            );
        }
        let graphs = bytes.iter().map(|b| bincode::deserialize(b).unwrap()).collect();
        let inputs = (0..3).map(build).collect();
        Data {
            cold: Anyway(Objects { graphs, inputs, bytes: bytes.clone() }),
            bytes,
        }
    }
}

pub fn explore(e: &Engine, d: &Data, s: &Scenario, limit: u64, grid: u64) -> Explored {
    // what each thread returns when run alone, in a process of its own
    let mut want = String::new();
    for t in &s.threads {
        let (end, text) = e.child(&|| t.iter().map(|op| op.run(&d.cold.0)).collect::<Vec<_>>().join(" | "));
        match end {
            End::Finished => want += &text,
            _ => {
                return Explored {
                    schedules: 0,
                    points: 0,
                    accesses: 0,
                    conflicts: 0,
                    complete: false,
                    max_preemptions: 0,
                    freed: false,
                    violation: Some(format!("{:?} fails even when run alone", t)),
                }
            }
        }
        want += "\u{1}";
    }
    for b in &d.bytes {
        want += &hex(b);
    }
    let shared: &Anyway<Objects> = &d.cold;
    let bodies: Vec<Box<dyn Fn() -> String + Sync>> = s
        .threads
        .iter()
        .map(|ops| -> Box<dyn Fn() -> String + Sync> {
            let ops = ops.clone();
            let shared: &'static Anyway<Objects> = unsafe { std::mem::transmute(shared) };
            Box::new(move || {
                let sh = shared;
                ops.iter().map(|op| op.run(&sh.0)).collect::<Vec<_>>().join(" | ")
            })
        })
        .collect();
    let refs: Vec<&(dyn Fn() -> String + Sync)> = bodies.iter().map(|b| &**b).collect();
    let finish = || {
        let mut s = String::new();
        for g in &shared.0.graphs {
            s += &hex(&bincode::serialize(g).unwrap());
        }
        s
    };
    let bound = if s.threads.len() == 2 { 2 } else { 1 };
    if s.warm {
        // everything has been used before in this process (in yet another process, in fact)
        let inner = |e: &Engine| -> Explored { both(e, &refs, &finish, &want, bound, limit, grid) };
        return warm(d, &|| inner(e), e);
    }
    both(e, &refs, &finish, &want, bound, limit, grid)
}

/// Explores up to equivalence; and, as a cross-check of the reduction (state in code that is not instrumented
/// would escape it), with one preemption at `grid` evenly spaced accesses.
fn both(
    e: &Engine,
    refs: &[&(dyn Fn() -> String + Sync)],
    finish: &dyn Fn() -> String,
    want: &str,
    bound: usize,
    limit: u64,
    grid: u64,
) -> Explored {
    let mut r = dfs::explore(e, refs, finish, want, bound, limit, 0);
    if r.violation.is_some() || r.freed || grid == 0 {
        return r;
    }
    let every = (r.accesses / r.schedules.max(1) / grid).max(1);
    let x = dfs::explore(e, refs, finish, want, 1, limit, every);
    r.schedules += x.schedules;
    r.points += x.points;
    r.accesses += x.accesses;
    r.violation = x.violation;
    r
}

/// Runs the exploration in a child that has used every function before
fn warm(d: &Data, f: &dyn Fn() -> Explored, _: &Engine) -> Explored {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            let r = catch_unwind(AssertUnwindSafe(|| {
                for op in MENU {
                    op.run(&d.cold.0);
                }
                f()
            }));
            let text = match r {
                Ok(r) => format!(
                    "{}\n{}\n{}\n{}\n{}\n{}\n{}\n{}",
                    r.schedules,
                    r.points,
                    r.accesses,
                    r.conflicts,
                    r.complete as u8,
                    r.max_preemptions,
                    r.freed as u8,
                    r.violation.map_or("0".into(), |m| format!("1{}", m))
                ),
                Err(_) => "0\n0\n0\n0\n0\n0\n0\n1a call panics when many calls were made before".into(),
            };
            let b = text.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let k = libc::write(fds[1], b.as_ptr().add(o) as *const _, b.len() - o);
                assert!(k > 0);
                o += k as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut text = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let k = libc::read(fds[0], buf.as_mut_ptr() as *mut _, 4096);
            if k <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..k as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        let text = String::from_utf8_lossy(&text).into_owned();
        let f: Vec<&str> = text.splitn(8, '\n').collect();
        if f.len() < 8 {
            return Explored {
                schedules: 0,
                points: 0,
                accesses: 0,
                conflicts: 0,
                complete: false,
                max_preemptions: 0,
                freed: false,
                violation: Some("the process dies when many calls were made before".into()),
            };
        }
        Explored {
            schedules: f[0].parse().unwrap(),
            points: f[1].parse().unwrap(),
            accesses: f[2].parse().unwrap(),
            conflicts: f[3].parse().unwrap(),
            complete: f[4] == "1",
            max_preemptions: f[5].parse().unwrap(),
            freed: f[6] == "1",
            violation: f[7].strip_prefix('1').map(|m| m.to_string()),
        }
    }
}

// ---- may the types be shared and sent at all?

trait No {
    fn sync(&self) -> bool {
        false
    }
    fn send(&self) -> bool {
        false
    }
}
struct IsSync<T>(PhantomData<T>);
struct IsSend<T>(PhantomData<T>);
impl<T> No for &IsSync<T> {}
impl<T> No for &IsSend<T> {}
impl<T: Sync> IsSync<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> IsSend<T> {
    fn send(&self) -> bool {
        true
    }
}

macro_rules! sync {
    ($t:ty, $n:expr, $out:expr) => {
        $out += &format!("{} Sync {}\n", $n, (&IsSync::<$t>(PhantomData)).sync());
    };
}
macro_rules! send {
    ($t:ty, $n:expr, $out:expr) => {
        $out += &format!("{} Send {}\n", $n, (&IsSend::<$t>(PhantomData)).send());
    };
}

pub fn types() -> String {
    let mut s = String::new();
    sync!(FastGraph, "FastGraph", s);
    send!(FastGraph, "FastGraph", s);
    send!(InputGraph, "InputGraph", s);
    send!(PathCalculator, "PathCalculator", s);
    // the probe itself
    sync!(std::cell::Cell<u8>, "probe-cell", s);
    send!(std::rc::Rc<u8>, "probe-rc", s);
    s
}

// ---- self test: the engine must find these

static mut COUNTER: usize = 0;
static A: Mutex<u32> = Mutex::new(0);
static B: Mutex<u32> = Mutex::new(0);

pub fn selftest(e: &Engine) -> Result<String, String> {
    let bump = || {
        for _ in 0..3 {
            unsafe {
                let p = &raw mut COUNTER;
                let x = *p;
                std::hint::black_box(&x);
                *p = x + 1;
            }
        }
        "ok".to_string()
    };
    let read = || unsafe { format!("{}", *(&raw const COUNTER)) };
    let r = dfs::explore(e, &[&bump, &bump], &read, "ok\u{1}ok\u{1}6", 2, 2000, 0);
    if r.violation.is_none() || r.conflicts == 0 {
        return Err("a lost update was not found".into());
    }
    let t1 = r.schedules;
    let ab = || {
        let a = A.lock().unwrap();
        let b = B.lock().unwrap();
        format!("{}", *a + *b)
    };
    let ba = || {
        let b = B.lock().unwrap();
        let a = A.lock().unwrap();
        format!("{}", *a + *b)
    };
    let none = || String::new();
    let r = dfs::explore(e, &[&ab, &ba], &none, "0\u{1}0\u{1}", 2, 2000, 0);
    match &r.violation {
        Some(m) if m.starts_with("deadlock") => {}
        x => return Err(format!("a deadlock was not found: {:?}", x)),
    }
    let t2 = r.schedules;
    // and it must be quiet on correctly locked code, exploring it completely
    let locked = || {
        for _ in 0..2 {
            *A.lock().unwrap() += 1;
        }
        "ok".to_string()
    };
    let sum = || format!("{}", *A.lock().unwrap());
    let r = dfs::explore(e, &[&locked, &locked], &sum, "ok\u{1}ok\u{1}4", 2, 5000, 0);
    if let Some(m) = r.violation {
        return Err(format!("alarm on correctly locked code: {}", m));
    }
    if !r.complete || r.schedules < 20 {
        return Err(format!("correctly locked code explored with {} schedules, complete={}", r.schedules, r.complete));
    }
    Ok(format!("selftest ok: lost update after {} schedules, deadlock after {}, {} schedules of locked code", t1, t2, r.schedules))
}
