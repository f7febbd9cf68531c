//! The 64-bit partner: native quick|thorough export|import SPACE FROM TO (stored graphs on stdout or stdin)

use std::io::{Read, Write};

fn main() {
    w32::hook();
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize| a[k].parse::<u64>().expect("number");
    let all = w32::exchanges(a[1] == "thorough");
    let x = &all[num(3) as usize];
    let mut ctx = w32::Ctx::default();
    let r = if a[2] == "export" {
        x.export(num(4), num(5), &mut ctx, &mut |_| ()).map(|b| std::io::stdout().write_all(&b).expect("stdout"))
    } else {
        let mut b = vec![];
        std::io::stdin().read_to_end(&mut b).expect("stdin");
        let mut at = 0;
        x.import(num(4), num(5), &b, &mut ctx, &mut |i| at = i).map_err(|(e, m)| (e, format!("case {}: {}", at, m)))
    };
    if let Err((engine, m)) = r {
        eprint!("{}", m);
        std::process::exit(1 + engine as i32);
    }
}
