//! C11 (text round trip), C12 (accepted formats), C13 (I/O faults).

use crate::engine::*;
use crate::families::*;
use crate::reference::*;
use crate::seam::{self, Plan};
use fast_paths::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub static SCRATCH: OnceLock<String> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The scratch file of this worker
pub fn scratch() -> String {
    FILE.with(|f| {
        f.borrow_mut()
            .get_or_insert_with(|| {
                format!(
                    "{}/w{}-{}.gr",
                    SCRATCH.get().expect("src/ no scratch directory"),
                    crate::engine::WORKER.load(Ordering::Relaxed),
                    NEXT.fetch_add(1, Ordering::Relaxed)
                )
            })
            .clone()
    })
}

type View = (usize, Vec<E>);

fn view(g: &InputGraph) -> View {
    (g.get_num_nodes(), g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect())
}

fn put(path: &str, text: &str) {
    std::fs::write(path, text).expect("scratch file");
}
fn get(path: &str) -> String {
    String::from_utf8_lossy(&std::fs::read(path).expect("scratch file")).into_owned()
}

/// Independent parser for written files: Err(reason) or (header, arcs)
fn parse(text: &str) -> Result<(Option<(usize, usize)>, Vec<E>), String> {
    let mut header = None;
    let mut arcs = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let num = |s: &str| s.parse::<usize>().map_err(|_| format!("not a number in line {:?}", l));
        match f[0] {
            "" | "c" => {}
            "p" if f.len() == 4 && f[1] == "sp" => {
                if header.is_some() || !arcs.is_empty() {
                    return Err(format!("misplaced problem line {:?}", l));
                }
                header = Some((num(f[2])?, num(f[3])?));
            }
            "a" if f.len() == 4 => arcs.push((num(f[1])?, num(f[2])?, num(f[3])?)),
            _ => return Err(format!("unexpected line {:?}", l)),
        }
    }
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("last line is incomplete".into());
    }
    Ok((header, arcs))
}

/// Is `text` a complete representation of the graph in the given format?
fn complete(text: &str, v: &View, dimacs: bool) -> CaseResult {
    let (header, mut arcs) = parse(text)?;
    if dimacs {
        if header != Some((v.0, v.1.len())) {
            return Err(format!("problem line states {:?}, expected {:?}", header, (v.0, v.1.len())));
        }
    }
    arcs.sort();
    let want: Vec<E> = v.1.iter().map(|e| if dimacs { (e.0 + 1, e.1 + 1, e.2) } else { *e }).collect();
    if arcs != want {
        return Err(format!("arc lines {:?}, expected {:?}", arcs, want));
    }
    Ok(())
}

fn write(g: &InputGraph, path: &str, dimacs: bool) -> Result<(), std::io::Error> {
    if dimacs {
        g.to_dimacs_file(path)
    } else {
        g.to_file(path)
    }
}
fn read(path: &str, dimacs: bool) -> InputGraph {
    if dimacs {
        InputGraph::from_dimacs_file(path)
    } else {
        InputGraph::from_file(path)
    }
}
fn fmt_name(dimacs: bool) -> &'static str {
    if dimacs {
        "DIMACS"
    } else {
        "plain"
    }
}

// ---------------------------------------------------------------------------------------------

pub struct RoundTrip {
    pub fam: Fam,
    /// number of nodes without edges at the end of the id range
    pub extra: Vec<usize>,
}

impl Space for RoundTrip {
    fn name(&self) -> String {
        format!("file-round-trip/{}/extra={:?}", self.fam.name(), self.extra)
    }
    fn len(&self) -> u64 {
        self.fam.len() * self.extra.len() as u64
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x {:?} additional nodes x both formats, over an absent and over a longer file",
            self.fam.len(),
            self.extra
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let extra = self.extra[(i % self.extra.len() as u64) as usize];
        let (n, edges) = self.fam.edges(i / self.extra.len() as u64);
        let path = scratch();
        let g = if extra == 0 {
            build_input(&edges)
        } else {
            // such nodes can only come from a DIMACS file
            let valid: Vec<_> = edges.iter().filter(|e| e.2 > 0 && e.0 != e.1).collect();
            let mut t = format!("p sp {} {}\n", n + extra, valid.len());
            for e in valid {
                t += &format!("a {} {} {}\n", e.0 + 1, e.1 + 1, e.2);
            }
            put(&path, &t);
            InputGraph::from_dimacs_file(&path)
        };
        let want: View = view(&g);
        if want.0 != n + extra {
            return Err(format!("{} nodes, expected {}", want.0, n + extra));
        }
        for dimacs in [false, true] {
            for over in [false, true] {
                if over {
                    put(&path, &"a 7 8 9\n".repeat(want.1.len() + 40));
                } else {
                    let _ = std::fs::remove_file(&path);
                }
                write(&g, &path, dimacs).map_err(|e| format!("writing {} failed: {}", fmt_name(dimacs), e))?;
                let t = get(&path);
                complete(&t, &want, dimacs).map_err(|m| format!("{} file: {}", fmt_name(dimacs), m))?;
                let back = view(&read(&path, dimacs));
                let expect = if dimacs { want.clone() } else { (node_count(&want.1), want.1.clone()) };
                if back != expect {
                    return Err(format!("{} file restores {:?}, expected {:?}", fmt_name(dimacs), back, expect));
                }
                ctx.calls += 2;
                ctx.states += 1;
            }
        }
        ctx.traces += 1;
        if view(&g) != want {
            return Err("writing changed the graph".into());
        }
        ctx.nontrivial += !want.1.is_empty() as u64;
        let mut h = want.0 as u64;
        for e in &want.1 {
            h = mix(mix(mix(h, e.0 as u64), e.1 as u64), e.2 as u64);
        }
        ctx.outcome(h);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let extra = self.extra[(i % self.extra.len() as u64) as usize];
        let (n, edges) = self.fam.edges(i / self.extra.len() as u64);
        format!(
            "{}// {} nodes in total (further ones only possible via a DIMACS file); to_file/from_file, to_dimacs_file/from_dimacs_file",
            show_input(&edges),
            n + extra
        )
    }
}

/// chains whose files end around the boundaries of the buffers
pub fn long_files(sizes: &[usize]) -> Fam {
    fixed(&format!("chains{:?}", sizes), sizes.iter().map(|n| chain(*n, |i| 1 + i * 7919 % 100_003)).collect())
}

// ---------------------------------------------------------------------------------------------

/// All files of up to k lines
pub struct Lines {
    pub dimacs: bool,
    pub alphabet: Vec<&'static str>,
    pub k: u32,
    /// the alphabet contains lines about which the documentation is silent (white space, signs): such a file may
    /// be refused, or taken literally, or leniently, but not be read as anything else
    pub lenient: bool,
    pub tag: String,
}

/// white space and plus signs normalized
fn normalized(text: &str) -> String {
    text.split('\n')
        .map(|l| {
            l.split_whitespace()
                .map(|w| match w.strip_prefix('+') {
                    Some(d) if d.bytes().all(|c| c.is_ascii_digit()) => d,
                    _ => w,
                })
                .collect::<Vec<_>>()
                .join(" ")
        })
        .collect::<Vec<_>>()
        .join("\n")
}

impl Lines {
    fn text(&self, i: u64) -> String {
        // the lowest bit decides whether the last line is terminated
        let mut x = i / 2;
        let b = self.alphabet.len() as u64;
        let mut l = vec![];
        for _ in 0..self.k {
            l.push(self.alphabet[(x % b) as usize]);
            x /= b;
        }
        let mut t = l.join("\n");
        if i % 2 == 0 && self.k > 0 {
            t.push('\n');
        }
        t
    }
}

/// What the documented format says about a file: None = to be refused
fn reference_read(text: &str, dimacs: bool) -> Option<View> {
    let mut nodes = None;
    let mut want_arcs = 0;
    let mut arcs = vec![];
    for l in text.split('\n') {
        if let Some(rest) = l.strip_prefix("a ") {
            let f: Vec<Option<usize>> = rest.split(' ').map(|x| x.parse().ok()).collect();
            if f.len() != 3 || f.iter().any(|x| x.is_none()) {
                return None;
            }
            let (mut a, mut b, w) = (f[0].unwrap(), f[1].unwrap(), f[2].unwrap());
            if dimacs {
                let n = nodes?;
                if a < 1 || b < 1 || a > n || b > n {
                    return None;
                }
                a -= 1;
                b -= 1;
            }
            arcs.push((a, b, w));
        } else if dimacs {
            if l.is_empty() || l.starts_with('c') {
                continue;
            }
            let rest = l.strip_prefix("p sp ")?;
            if nodes.is_some() {
                return None;
            }
            let f: Vec<Option<usize>> = rest.split(' ').map(|x| x.parse().ok()).collect();
            if f.len() != 2 || f.iter().any(|x| x.is_none()) {
                return None;
            }
            nodes = f[0];
            want_arcs = f[1].unwrap();
        }
    }
    if dimacs && arcs.len() != want_arcs {
        return None;
    }
    let n = node_count(&arcs).max(nodes.unwrap_or(0));
    let mut v: Vec<E> = arcs.into_iter().filter(accepted).collect();
    v.sort();
    v.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    Some((n, v))
}

impl Space for Lines {
    fn name(&self) -> String {
        format!(
            "{}-files({} lines of {}{}{})",
            fmt_name(self.dimacs),
            self.k,
            self.alphabet.len(),
            if self.tag.is_empty() { "" } else { "," },
            self.tag
        )
    }
    fn len(&self) -> u64 {
        (self.alphabet.len() as u64).pow(self.k) * 2
    }
    fn bounds(&self) -> String {
        format!("all files of {} lines out of {:?}, last line terminated or not", self.k, self.alphabet)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let text = self.text(i);
        let path = scratch();
        put(&path, &text);
        let want = reference_read(&text, self.dimacs);
        let got = attempt(|| view(&read(&path, self.dimacs)));
        // a reader step per line, a situation before, between and after the lines
        ctx.calls += self.k as u64;
        ctx.states += self.k as u64 + 1;
        ctx.traces += 1;
        if self.lenient {
            let other = reference_read(&normalized(&text), self.dimacs);
            if other != want {
                if let Ok(v) = &got {
                    if want.as_ref() != Some(v) && other.as_ref() != Some(v) {
                        return Err(format!("read as {:?}, expected {:?} or {:?}", v, want, other));
                    }
                }
                ctx.nontrivial += 1;
                ctx.outcome(got.is_ok() as u64);
                return Ok(());
            }
        }
        match (&want, &got) {
            (None, Ok(v)) => return Err(format!("a file that breaks the format is read as {:?}", v)),
            (Some(w), Err(m)) => return Err(format!("refused: {}; expected {:?}", m, w)),
            (Some(w), Ok(v)) if w != v => return Err(format!("read as {:?}, expected {:?}", v, w)),
            _ => {}
        }
        match want {
            None => ctx.outcome(1),
            Some((n, v)) => {
                ctx.nontrivial += !v.is_empty() as u64;
                let mut h = n as u64;
                for e in &v {
                    h = mix(mix(mix(h, e.0 as u64), e.1 as u64), e.2 as u64);
                }
                ctx.outcome(h);
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!(
            "// file content: {:?}\nInputGraph::{}(path)",
            self.text(i),
            if self.dimacs { "from_dimacs_file" } else { "from_file" }
        )
    }
}

pub fn plain_lines() -> Vec<&'static str> {
    vec![
        "a 0 1 5",
        "a 1 2 3",
        "a 0 1 2",
        "a 2 2 4",
        "a 5 0 0",
        "a 3 0 18446744073709551615",
        "",
        "c a 0 1 1",
        "p sp 9 1",
        "ab 1 2 3",
        "b 0 2 1",
        "a 0 1",
        "a 0 1 2 3",
        "a 0 x 2",
        "a -1 0 2",
        "a 0 1 1.5",
        "a 0 1 18446744073709551616",
        "a 0 1 5 c",
    ]
}

pub fn dimacs_lines() -> Vec<&'static str> {
    vec![
        "p sp 3 1",
        "p sp 3 2",
        "p sp 4 3",
        "p sp 2 0",
        "a 1 2 5",
        "a 2 3 3",
        "a 1 2 2",
        "a 3 1 18446744073709551615",
        "a 2 2 4",
        "a 1 3 0",
        "",
        "c p sp 7 7",
        "cx",
        "p sp 3",
        "p sp 3 1 7",
        "p sp x 1",
        "p sp 3 -1",
        "p max 3 1",
        "a 0 1 5",
        "a 1 0 5",
        "a 4 1 5",
        "a 1 5 5",
        "a 1 2",
        "a 1 2 5 6",
        "a 1 2 y",
        "e 1 2 5",
        "ab 1 2 5",
    ]
}

/// Small alphabets, each with one kind of line about which the documentation is silent
pub fn unusual_lines(dimacs: bool) -> Vec<Vec<&'static str>> {
    let plain: Vec<&'static str> = vec![
        "a 0  1 5",
        "a  0 1 5",
        "a 0 1 5 ",
        "a 0 1 5\r",
        "a\t0\t1\t5",
        " a 0 1 5",
        "a +0 1 5",
        "a 0 1 +5",
        "a 0 1 05",
        "A 0 1 5",
        "\r",
        "a 0 1 5\t# x",
        "a 0 1 5\u{a0}",
        "a 00000000000000000000001 0 3",
    ];
    let dim: Vec<&'static str> = vec![
        "a 1  2 5",
        "a  1 2 5",
        "a 1 2 5 ",
        "a 1 2 5\r",
        "a\t1\t2\t5",
        " a 1 2 5",
        "a +1 2 5",
        "a 1 2 +5",
        "a 1 2 05",
        "\r",
        " ",
        "p  sp 3 2",
        "p sp 3 2 ",
        "p sp  3 2",
        "p sp 3 2\r",
        "p sp +3 2",
        " c",
        "p sp 03 02",
        "C x",
    ];
    (if dimacs { dim } else { plain })
        .into_iter()
        .map(|l| {
            let mut v = if dimacs {
                vec!["p sp 3 2", "p sp 3 1", "a 1 2 5", "a 2 3 1", "c"]
            } else {
                vec!["a 0 1 5", "a 2 1 4", "c"]
            };
            v.push(l);
            v
        })
        .collect()
}

/// Files with one damaged byte: the edges of the other lines must not get lost silently
pub struct Damaged {
    pub graphs: Vec<Vec<E>>,
    pub bytes: Vec<u8>,
}

impl Damaged {
    fn text(&self, g: usize, dimacs: bool) -> (Vec<E>, String) {
        let edges = canon(&self.graphs[g]);
        let d = dimacs as usize;
        let mut t = String::new();
        if dimacs {
            t += &format!("p sp {} {}\n", node_count(&edges), edges.len());
        }
        for e in &edges {
            t += &format!("a {} {} {}\n", e.0 + d, e.1 + d, e.2);
        }
        (edges, t)
    }
}

impl Space for Damaged {
    fn name(&self) -> String {
        format!("damaged-files({} graphs,{} byte values)", self.graphs.len(), self.bytes.len())
    }
    fn len(&self) -> u64 {
        self.graphs.len() as u64 * 2 * self.bytes.len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn bounds(&self) -> String {
        "both formats, every byte of the file replaced by each of the bytes that are no text".into()
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let b = self.bytes.len() as u64;
        let (g, dimacs, byte) = ((i / b / 2) as usize, i / b % 2 == 1, self.bytes[(i % b) as usize]);
        let (edges, t) = self.text(g, dimacs);
        let path = scratch();
        for at in 0..t.len() {
            let mut x = t.clone().into_bytes();
            x[at] = byte;
            std::fs::write(&path, &x).expect("scratch file");
            ctx.calls += 1;
            ctx.states += 1;
            ctx.traces += 1;
            ctx.nontrivial += 1;
            // a damaged line break affects two lines
            let line = t[..at].matches('\n').count();
            let hit = if t.as_bytes()[at] == b'\n' { vec![line, line + 1] } else { vec![line] };
            if let Ok(v) = attempt(|| view(&read(&path, dimacs))) {
                let first = dimacs as usize;
                for (k, e) in edges.iter().enumerate() {
                    if !hit.contains(&(k + first)) && !v.1.contains(e) {
                        return Err(format!(
                            "byte {} replaced by {:#x}: edge {:?} of another line got lost",
                            at, byte, e
                        ));
                    }
                }
                for e in &v.1 {
                    if !edges.iter().any(|x| x.0 == e.0 && x.1 == e.1 && x.2 == e.2) {
                        return Err(format!(
                            "byte {} replaced by {:#x}: read an edge {:?} that was not there",
                            at, byte, e
                        ));
                    }
                }
                ctx.outcome(v.1.len() as u64);
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let b = self.bytes.len() as u64;
        let (g, dimacs) = ((i / b / 2) as usize, i / b % 2 == 1);
        format!(
            "// file content {:?} with one byte replaced by {:#x}",
            self.text(g, dimacs).1,
            self.bytes[(i % b) as usize]
        )
    }
}

// ---------------------------------------------------------------------------------------------
// C13

#[derive(Clone, Debug)]
pub enum Fault {
    Plan(Plan),
    NoDirectory,
    IsDirectory,
}

pub struct WriteFaults {
    pub label: String,
    pub graphs: Vec<Vec<E>>,
    cases: Vec<(usize, bool, Fault)>,
}

const ERRNOS: [i32; 6] = [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EROFS];

/// number of bytes of the written file, from the documented format (not from the code under test)
fn file_len(edges: &[E], dimacs: bool) -> u64 {
    let g = {
        let mut v: Vec<E> = edges.iter().cloned().filter(accepted).collect();
        v.sort();
        v.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
        v
    };
    let d = dimacs as usize;
    let mut n = g.iter().map(|e| format!("a {} {} {}\n", e.0 + d, e.1 + d, e.2).len()).sum::<usize>();
    if dimacs {
        n += format!("p sp {} {}\n", node_count(&g), g.len()).len();
    }
    n as u64
}

impl WriteFaults {
    pub fn new(label: &str, graphs: Vec<Vec<E>>, step: u64) -> Self {
        let mut cases = vec![];
        for (gi, g) in graphs.iter().enumerate() {
            for dimacs in [false, true] {
                let len = file_len(g, dimacs);
                let mut add = |p: Plan| cases.push((gi, dimacs, Fault::Plan(p)));
                // disk full after every number of bytes
                let mut b = 0;
                while b <= len {
                    add(Plan { write_budget: Some((b, libc::ENOSPC)), ..Plan::default() });
                    b += step;
                }
                for tail in 1..6.min(len) {
                    add(Plan { write_budget: Some((len - tail, libc::EIO)), ..Plan::default() });
                }
                let writes = len / 4096 + 3;
                for at in 0..writes {
                    for e in ERRNOS {
                        add(Plan { write_fail_at: Some((at, e)), ..Plan::default() });
                    }
                    add(Plan { write_fail_at: Some((at, libc::EINTR)), ..Plan::default() });
                    for m in [1usize, 2, 3, 7, 100, 8191] {
                        add(Plan { write_short_at: Some((at, m)), ..Plan::default() });
                        // a short write, then the next one fails
                        add(Plan {
                            write_short_at: Some((at, m)),
                            write_fail_at: Some((at + 1, libc::ENOSPC)),
                            ..Plan::default()
                        });
                    }
                }
                for m in [1usize, 2, 3, 5, 64, 1000, 4096] {
                    for eintr in [false, true] {
                        if m as u64 * 3000 < len {
                            continue;
                        }
                        add(Plan { write_max: Some(m), write_eintr: eintr, ..Plan::default() });
                        add(Plan {
                            write_max: Some(m),
                            write_budget: Some((len.saturating_sub(1), libc::ENOSPC)),
                            write_eintr: eintr,
                            ..Plan::default()
                        });
                    }
                }
                add(Plan { write_eintr: true, ..Plan::default() });
                for e in [libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS] {
                    add(Plan { open_fail: Some(e), ..Plan::default() });
                }
                for f in [Fault::NoDirectory, Fault::IsDirectory] {
                    cases.push((gi, dimacs, f));
                }
            }
        }
        WriteFaults { label: label.to_string(), graphs, cases }
    }
}

impl Space for WriteFaults {
    fn name(&self) -> String {
        format!("write-faults({},{} graphs)", self.label, self.graphs.len())
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn bounds(&self) -> String {
        "both formats x {disk full after every number of bytes, every write failing with each of 6 errors, EINTR, short writes, combinations, failing open, missing directory, a directory in the place of the file}".into()
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (gi, dimacs, fault) = &self.cases[i as usize];
        let g = build_input(&self.graphs[*gi]);
        let want = view(&g);
        ctx.calls += 1;
        ctx.states += 1;
        ctx.traces += 1;
        match fault {
            Fault::Plan(p) => {
                let path = scratch();
                put(&path, &"a 7 8 9\n".repeat(5));
                seam::arm(p.clone());
                let r = attempt(|| write(&g, &path, *dimacs));
                let log = seam::disarm();
                let r = r.map_err(|m| format!("panicked: {}", m))?;
                if r.is_ok() {
                    if log.failed > 0 {
                        return Err(format!(
                            "success was reported although {} call(s) failed ({} of {} bytes written)",
                            log.failed,
                            log.written,
                            file_len(&self.graphs[*gi], *dimacs)
                        ));
                    }
                    complete(&get(&path), &want, *dimacs)
                        .map_err(|m| format!("success was reported, but the file is not complete: {}", m))?;
                }
                if log.injected > 0 {
                    ctx.nontrivial += 1;
                }
                ctx.outcome(mix(mix(log.written, log.writes), r.is_ok() as u64));
            }
            Fault::NoDirectory | Fault::IsDirectory => {
                // whatever the library does next to this path stays inside the scratch directory
                let dir = format!("{}.d", scratch());
                std::fs::create_dir_all(&dir).expect("src/ directory");
                let path = match fault {
                    Fault::NoDirectory => format!("{}/missing/x.gr", dir),
                    _ => dir.clone(),
                };
                let r = attempt(|| write(&g, &path, *dimacs));
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                std::fs::remove_dir_all(&dir).expect("src/ directory");
                match r {
                    Ok(Ok(())) => complete(&text, &want, *dimacs).map_err(|m| {
                        format!("success was reported for {:?}, but the file is not complete: {}", fault, m)
                    })?,
                    Ok(Err(_)) => {}
                    Err(m) => return Err(format!("{:?} panics: {}", fault, m)),
                }
                ctx.nontrivial += 1;
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (gi, dimacs, fault) = &self.cases[i as usize];
        let e = &self.graphs[*gi];
        format!(
            "{}g.{}(path) with the environment answering: {:?}",
            if e.len() < 60 { show_input(e) } else { format!("// chain with {} edges\n", e.len()) },
            if *dimacs { "to_dimacs_file" } else { "to_file" },
            fault
        )
    }
}

pub struct ReadFaults {
    pub label: String,
    pub graphs: Vec<Vec<E>>,
    cases: Vec<(usize, bool, Plan)>,
}

impl ReadFaults {
    pub fn new(label: &str, graphs: Vec<Vec<E>>, step: u64) -> Self {
        let mut cases = vec![];
        for (gi, g) in graphs.iter().enumerate() {
            for dimacs in [false, true] {
                let len = file_len(g, dimacs);
                let mut add = |p: Plan| cases.push((gi, dimacs, p));
                let mut b = 0;
                while b <= len {
                    add(Plan { read_fail_offset: Some((b, libc::EIO)), ..Plan::default() });
                    add(Plan { read_cut: Some(b), ..Plan::default() });
                    b += step;
                }
                for at in 0..len / 4096 + 4 {
                    for e in [libc::EIO, libc::EISDIR, libc::ESTALE, libc::ENOMEM, libc::EAGAIN] {
                        add(Plan { read_fail_at: Some((at, e)), ..Plan::default() });
                    }
                    add(Plan { read_fail_at: Some((at, libc::EINTR)), ..Plan::default() });
                    for m in [1usize, 2, 3, 7, 100, 8191] {
                        add(Plan { read_short_at: Some((at, m)), ..Plan::default() });
                        add(Plan {
                            read_short_at: Some((at, m)),
                            read_fail_at: Some((at + 1, libc::EIO)),
                            ..Plan::default()
                        });
                    }
                }
                for m in [1usize, 2, 3, 5, 64, 1000, 4096] {
                    if m as u64 * 3000 < len {
                        continue;
                    }
                    for eintr in [false, true] {
                        add(Plan { read_max: Some(m), read_eintr: eintr, ..Plan::default() });
                    }
                }
                add(Plan { read_eintr: true, ..Plan::default() });
                add(Plan { open_fail: Some(libc::ENOENT), ..Plan::default() });
            }
        }
        ReadFaults { label: label.to_string(), graphs, cases }
    }
}

impl Space for ReadFaults {
    fn name(&self) -> String {
        format!("read-faults({},{} graphs)", self.label, self.graphs.len())
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn bounds(&self) -> String {
        "both formats x {read error at every offset, every read failing with each of 5 errors, EINTR, reads cut at every offset, short reads, failing open}".into()
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (gi, dimacs, plan) = &self.cases[i as usize];
        let edges = canon(&self.graphs[*gi]);
        let d = *dimacs as usize;
        let mut t = String::new();
        if *dimacs {
            t += &format!("p sp {} {}\n", node_count(&edges), edges.len());
        }
        for e in &edges {
            t += &format!("a {} {} {}\n", e.0 + d, e.1 + d, e.2);
        }
        let path = scratch();
        put(&path, &t);
        let want: View = (node_count(&edges), edges);
        seam::arm(plan.clone());
        let r = attempt(|| read(&path, *dimacs));
        let log = seam::disarm();
        ctx.calls += 1;
        ctx.states += 1;
        ctx.traces += 1;
        match r {
            Ok(g) => {
                let v = view(&g);
                if log.failed > 0 {
                    return Err(format!(
                        "a read error was not reported, {} edges of {} were returned",
                        v.1.len(),
                        want.1.len()
                    ));
                }
                if v != want {
                    return Err(format!("read {:?}, expected {:?}", v, want));
                }
                ctx.outcome(mix(log.reads, 1));
            }
            Err(m) => {
                if log.failed == 0 {
                    return Err(format!("refused without a read error: {}", m));
                }
                ctx.outcome(mix(log.reads, 2));
            }
        }
        if log.injected > 0 {
            ctx.nontrivial += 1;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (gi, dimacs, plan) = &self.cases[i as usize];
        let e = &self.graphs[*gi];
        format!(
            "// file holding the graph\n{}InputGraph::{}(path) with the environment answering: {:?}",
            if e.len() < 60 { show_input(e) } else { format!("// chain with {} edges\n", e.len()) },
            if *dimacs { "from_dimacs_file" } else { "from_file" },
            plan
        )
    }
}

fn canon(edges: &[E]) -> Vec<E> {
    let mut v: Vec<E> = edges.iter().cloned().filter(accepted).collect();
    v.sort();
    v.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    v
}

pub fn fault_graphs() -> Vec<Vec<E>> {
    vec![
        vec![],
        vec![(0, 1, 5)],
        vec![(0, 1, 5), (1, 2, 18446744073709551615), (12, 0, 1)],
        bidir(&ring(9, |i| 10 + i)),
    ]
}
