//! C15: several threads on one shared prepared graph, under a controlled scheduler (see rt.c).

mod dfs;
mod ops;

use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    pub fn rt_alloc(size: usize, align: usize) -> *mut u8;
    pub fn rt_free(p: *mut u8);
    pub fn rt_init();
    pub fn rt_shared_size() -> usize;
    pub fn rt_setup(shared: *mut dfs::Shared, n: i32);
    pub fn rt_enter(t: i32);
    pub fn rt_exit();
    pub fn rt_run();
}

struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        rt_free(p)
    }
}
#[global_allocator]
static ALLOCATOR: Arena = Arena;

fn arg(key: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == key).and_then(|i| a.get(i + 1).cloned())
}
fn num(key: &str, default: u64) -> u64 {
    arg(key).map_or(default, |x| x.parse().expect("number"))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { rt_init() };
    assert_eq!(unsafe { rt_shared_size() }, std::mem::size_of::<dfs::Shared>());
    let tier = arg("--tier").unwrap_or("quick".into());
    let deep = tier == "thorough";
    let engine = dfs::Engine::new();
    match std::env::args().nth(1).as_deref() {
        Some("selftest") => match ops::selftest(&engine) {
            Ok(t) => println!("{}", t),
            Err(m) => {
                println!("selftest failed: {}", m);
                std::process::exit(2);
            }
        },
        Some("types") => print!("{}", ops::types()),
        // one line per finished scenario; a violation ends the run
        Some("run") => {
            let (k, of) = (num("--worker", 0), num("--of", 1));
            let t0 = std::time::Instant::now();
            let cap = num("--cap", 600);
            let limit = num("--schedules", 4000);
            let all = ops::scenarios(deep);
            println!("scenarios {}", all.len());
            let mut prepared = None;
            for (i, s) in all.iter().enumerate() {
                if i as u64 % of != k {
                    continue;
                }
                if t0.elapsed().as_secs() > cap {
                    println!("capped {}", i);
                    break;
                }
                let data = prepared.get_or_insert_with(|| ops::Data::new(&engine));
                let r = ops::explore(&engine, data, s, limit, num("--grid", 0));
                println!(
                    "done {} {} schedules={} points={} accesses={} conflicts={} complete={} preemptions={} freed={}",
                    i, s.name(), r.schedules, r.points, r.accesses, r.conflicts, r.complete, r.max_preemptions, r.freed
                );
                if let Some(m) = r.violation {
                    println!("violation {} {}\n{}", i, s.name(), m);
                    std::process::exit(1);
                }
            }
            println!("end");
        }
        _ => std::process::exit(2),
    }
}
