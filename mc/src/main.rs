mod acts;
mod agree;
mod catalog;
mod deep;
mod editing;
mod engine;
mod families;
mod files;
mod history;
mod interleave;
mod large;
mod persist;
mod queries;
mod reference;
mod refuse;
mod reuse;
mod says;
mod seam;
mod space;

use engine::*;
use std::collections::HashSet;
use std::time::Duration;

fn arg(args: &[String], key: &str) -> Option<String> {
    args.iter().position(|a| a == key).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    if let Some(d) = arg(&args, "--scratch") {
        files::SCRATCH.set(d).unwrap();
    }
    let get = |k: usize| args.get(k).cloned().unwrap_or_default();
    match get(1).as_str() {
        "explore" => explore_cmd(&get(2), &get(3), &args),
        "case" => case_cmd(
            &get(2),
            &get(3),
            &get(4),
            get(5).parse().expect("index"),
            arg(&args, "--from").map(|x| x.parse().expect("index")),
        ),
        // the sum of the outcomes of the cases from..to
        "digest" => {
            let spaces = catalog::spaces(&get(2), &get(3), checked_build());
            let s = spaces.iter().find(|s| s.name() == get(4)).expect("no such space");
            let mut ctx = Ctx::default();
            for i in get(5).parse::<u64>().expect("index")..get(6).parse().expect("index") {
                run_case(&**s, i, &mut ctx);
            }
            println!("{}", ctx.digest);
        }
        "history" => history::command(&get(2), &get(3)),
        "names" => {
            let v: Vec<_> = catalog::spaces(&get(2), &get(3), checked_build())
                .iter()
                .map(|s| serde_json::json!({"name": s.name(), "timeout": s.case_timeout()}))
                .collect();
            println!("{}", serde_json::to_string(&v).unwrap());
        }
        "list" => {
            for s in catalog::spaces(&get(2), &get(3), get(4) == "checked") {
                println!("{:>14}  {}  | {}", s.len(), s.name(), s.bounds());
            }
        }
        _ => {
            eprintln!("usage: mc explore PROP TIER ... | case PROP TIER SPACE INDEX | list PROP TIER");
            std::process::exit(2);
        }
    }
}

fn checked_build() -> bool {
    cfg!(debug_assertions)
}

fn explore_cmd(prop: &str, tier: &str, args: &[String]) {
    let workers = arg(args, "--workers").map_or(8, |w| w.parse().unwrap());
    let slots = Slots::open(&arg(args, "--slots").expect("--slots"), workers);
    let out = arg(args, "--out").expect("--out");
    let cap = arg(args, "--cap").map_or(700, |c| c.parse().unwrap());
    let known: HashSet<String> = arg(args, "--known")
        .map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect())
        .unwrap_or_default();
    let spaces = catalog::spaces(prop, tier, checked_build());
    let scratch = files::SCRATCH.get().expect("--scratch");
    let r = match explore(&spaces, workers, &slots, Duration::from_secs(cap), &known, scratch) {
        Ok(r) => r,
        // killed from outside, or it could not deliver its results
        Err(s) if s & 0x7f == 0 || s & 0x7f == libc::SIGKILL => std::process::exit(4),
        Err(_) => std::process::exit(3),
    };
    let reports: Vec<serde_json::Value> = r
        .reports
        .iter()
        .enumerate()
        .map(|(k, s)| {
            let sp = &spaces[k];
            let samples: Vec<String> = [0, s.len / 2, s.len.saturating_sub(1)]
                .iter()
                .take(if s.len == 0 { 0 } else { s.len.min(3) as usize })
                .map(|i| {
                    let mut d = sp.describe(*i);
                    d.truncate(d.char_indices().nth(900).map_or(d.len(), |x| x.0));
                    format!("#{}: {}", i, d)
                })
                .collect();
            serde_json::json!({
                "space": s.name,
                "bounds": s.bounds,
                "cases": s.len,
                "executed": s.done,
                "complete": s.complete,
                "wall_s": (s.wall_s * 100.0).round() / 100.0,
                "states": s.ctx.states,
                "calls": s.ctx.calls,
                "traces": s.ctx.traces,
                "nontrivial": s.ctx.nontrivial,
                "distinct_outcomes": s.ctx.outcomes.len(),
                "distinct_outcomes_capped": s.ctx.outcomes.len() >= OUTCOME_CAP,
                "notes": s.ctx.notes,
                "digest": s.ctx.digest.to_string(),
                "samples": samples,
            })
        })
        .collect();
    let violation = r.violation.as_ref().map(|v| {
        serde_json::json!({
            "space": spaces[v.space].name(),
            "case": v.case,
            "message": v.message,
            "describe": spaces[v.space].describe(v.case),
        })
    });
    let j = serde_json::json!({
        "spaces": reports,
        "violation": violation,
        "known": r.known,
        "engine_error": r.engine_error,
        "space_names": spaces.iter().map(|s| s.name()).collect::<Vec<_>>(),
        "case_timeouts": spaces.iter().map(|s| s.case_timeout()).collect::<Vec<_>>(),
    });
    std::fs::write(&out, serde_json::to_string_pretty(&j).unwrap()).expect("result file");
    std::process::exit(if r.engine_error.is_some() {
        2
    } else if r.violation.is_some() {
        1
    } else {
        0
    });
}

fn case_cmd(prop: &str, tier: &str, space: &str, index: u64, from: Option<u64>) {
    let spaces = catalog::spaces(prop, tier, checked_build());
    let s = match spaces.iter().find(|s| s.name() == space) {
        Some(s) => s,
        None => {
            eprintln!("no space {:?}", space);
            std::process::exit(2);
        }
    };
    println!("{}", s.describe(index));
    let from = from.unwrap_or(index);
    // in a thread of default stack size, like the workers
    let r = std::thread::scope(|sc| {
        sc.spawn(|| {
            // the results of the cases before do not matter
            for i in from..index {
                run_case(&**s, i, &mut Ctx::default());
            }
            run_case(&**s, index, &mut Ctx::default())
        })
        .join()
        .unwrap()
    });
    match r {
        Verdict::Ok => println!("RESULT ok"),
        Verdict::Violation(m) => {
            println!("RESULT violation: {}", m);
            std::process::exit(1);
        }
        Verdict::Engine(m) => {
            println!("RESULT engine error: {}", m);
            std::process::exit(2);
        }
    }
}
