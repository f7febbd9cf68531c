//! The explorer on a 32-bit platform: the portable modules of mc/ compiled for WebAssembly and driven by run.js.
//!
//! The instance exports numbered spaces; `run` executes a range of cases, `export`/`import` exchange stored graphs with
//! the 64-bit process `native`.
#![allow(dead_code)]

#[path = "../../mc/src/deep.rs"]
mod deep;
#[path = "../../mc/src/editing.rs"]
mod editing;
mod engine;
mod exchange;
#[path = "../../mc/src/families.rs"]
mod families;
#[path = "../../mc/src/large.rs"]
mod large;
#[path = "../../mc/src/persist.rs"]
mod persist;
#[path = "../../mc/src/queries.rs"]
mod queries;
#[path = "../../mc/src/reference.rs"]
mod reference;
#[path = "../../mc/src/refuse.rs"]
mod refuse;
#[path = "../../mc/src/reuse.rs"]
mod reuse;
mod seam;
#[path = "../../mc/src/space.rs"]
mod space;
mod spaces;

pub fn hook() {
    install_panic_hook();
}
pub use space::Ctx;
pub use exchange::{exchanges, Exchange};

use space::*;
use std::cell::RefCell;

struct State {
    spaces: Vec<Box<dyn Space>>,
    exchanges: Vec<Exchange>,
    ctx: Ctx,
    text: Vec<u8>,
    input: Vec<u8>,
    case: u64,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State {
        spaces: vec![], exchanges: vec![], ctx: Ctx::default(), text: vec![], input: vec![], case: 0,
    });
}

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    STATE.with(|s| f(&mut s.borrow_mut()))
}

/// prepares the list of spaces; returns how many there are (the exchanges come first)
#[no_mangle]
pub extern "C" fn init(deep: u32) -> u32 {
    install_panic_hook();
    with(|s| {
        s.exchanges = exchanges(deep != 0);
        s.spaces = spaces::spaces(deep != 0);
        (s.exchanges.len() + s.spaces.len()) as u32
    })
}

#[no_mangle]
pub extern "C" fn exchange_count() -> u32 {
    with(|s| s.exchanges.len() as u32)
}

/// the text or bytes that the last call left
#[no_mangle]
pub extern "C" fn text_at() -> *const u8 {
    with(|s| s.text.as_ptr())
}
#[no_mangle]
pub extern "C" fn text_len() -> u32 {
    with(|s| s.text.len() as u32)
}
/// room for the input of the next call
#[no_mangle]
pub extern "C" fn input(len: u32) -> *mut u8 {
    with(|s| {
        s.input = vec![0; len as usize];
        s.input.as_mut_ptr()
    })
}

/// name, newline, bounds; the result is the number of cases
#[no_mangle]
pub extern "C" fn about(k: u32) -> u64 {
    with(|s| {
        let k = k as usize;
        let x = s.exchanges.len();
        let (name, bounds, len) = if k < x {
            (s.exchanges[k].name(), s.exchanges[k].bounds(), s.exchanges[k].len())
        } else {
            let p = &s.spaces[k - x];
            (p.name(), p.bounds(), p.len())
        };
        s.text = format!("{}\n{}", name, bounds).into_bytes();
        len
    })
}

#[no_mangle]
pub extern "C" fn chunk(k: u32) -> u64 {
    with(|s| {
        let x = s.exchanges.len();
        if (k as usize) < x {
            128
        } else {
            s.spaces[k as usize - x].chunk()
        }
    })
}

#[no_mangle]
pub extern "C" fn describe(k: u32, i: u64) {
    with(|s| {
        let x = s.exchanges.len();
        let k = k as usize;
        let d = if k < x { s.exchanges[k].describe(i) } else { s.spaces[k - x].describe(i) };
        s.text = d.into_bytes();
    })
}

/// the case that is or was executed last: readable also after a trap
static mut CASE: u64 = 0;

#[no_mangle]
pub extern "C" fn case_at() -> *const u64 {
    &raw const CASE
}

/// Executes the cases from..to of a space: 0 = held, 1 = violation, 2 = engine error; the text is the message.
#[no_mangle]
pub extern "C" fn run(k: u32, from: u64, to: u64) -> u32 {
    with(|s| {
        let space = &s.spaces[k as usize - s.exchanges.len()];
        for i in from..to {
            unsafe { CASE = i };
            match run_case(&**space, i, &mut s.ctx) {
                Verdict::Ok => {}
                Verdict::Violation(m) => {
                    s.text = m.into_bytes();
                    return 1;
                }
                Verdict::Engine(m) => {
                    s.text = m.into_bytes();
                    return 2;
                }
            }
        }
        0
    })
}

/// Loads what the 64-bit process stored (see `input`) and queries it.
#[no_mangle]
pub extern "C" fn import(k: u32, from: u64, to: u64) -> u32 {
    with(|s| {
        let data = std::mem::take(&mut s.input);
        match s.exchanges[k as usize].import(from, to, &data, &mut s.ctx, &mut |i| unsafe { CASE = i }) {
            Ok(()) => 0,
            Err((engine, m)) => {
                s.text = m.into_bytes();
                1 + engine as u32
            }
        }
    })
}

/// Prepares and stores graphs for the 64-bit process; the bytes are in the text.
#[no_mangle]
pub extern "C" fn export(k: u32, from: u64, to: u64) -> u32 {
    with(|s| match s.exchanges[k as usize].export(from, to, &mut s.ctx, &mut |i| unsafe { CASE = i }) {
        Ok(b) => {
            s.text = b;
            0
        }
        Err((engine, m)) => {
            s.text = m.into_bytes();
            1 + engine as u32
        }
    })
}

/// states, calls, traces, nontrivial, then the outcomes; clears the counters
#[no_mangle]
pub extern "C" fn counters() {
    with(|s| {
        let c = std::mem::take(&mut s.ctx);
        let mut v = vec![c.states, c.calls, c.traces, c.nontrivial];
        v.extend(c.outcomes);
        s.text = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    })
}
