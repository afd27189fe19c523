#![allow(clippy::all)]
mod alloc;
mod checks;
mod drive;
mod mk;
mod mon;
mod refm;
mod rng;
mod run;
mod shape;
mod value;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub const ASSUMPTIONS: &[&str] = &[
    "the crate is compiled from /repo's working tree with all features, debug assertions and overflow checks",
    "serde_json, bincode and the Rust standard library are trusted",
    "user-supplied closures and components honour the trait contracts unless a stage injects faults on purpose",
];

pub fn brief(b: &[u8]) -> String {
    if b.len() <= 40 {
        format!("{:02x?}", b)
    } else {
        format!("{:02x?}.. ({} bytes)", &b[..40], b.len())
    }
}
pub fn bdbg<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.chars().count() > 400 {
        let x: String = s.chars().take(400).collect();
        format!("{}.. ({} chars)", x, s.len())
    } else {
        s
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = String::new();
    let mut child = None;
    let mut one: Option<(String, u64)> = None;
    let mut dir = ".".to_string();
    let mut seed = 1u64;
    let mut thorough = false;
    let mut only = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--child" => {
                child = Some(args[i + 1].clone());
                i += 1;
            }
            "--one" => {
                one = Some((args[i + 1].clone(), args[i + 2].parse().expect("idx")));
                i += 2;
            }
            "--dir" => {
                dir = args[i + 1].clone();
                i += 1;
            }
            "--seed" => {
                seed = args[i + 1].parse().expect("seed");
                i += 1;
            }
            "--thorough" => thorough = true,
            "--stage" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            "ub" => {
                run::install_hook();
                let code = checks::ub_main(&args[i + 1..]);
                if code != 0 {
                    std::process::exit(code);
                }
                // A normal return lets the tools look for leaks.
                return;
            }
            "list" => {
                for p in checks::all() {
                    println!("{}", p.id);
                }
                return;
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let Some(mut p) = checks::all().into_iter().find(|p| p.id == id) else {
        println!("ERROR: unknown property {:?}", id);
        std::process::exit(2);
    };
    // Stages that enumerate something have fixed numbers of cases; the others take what the budget allows.
    for s in p.stages.iter_mut().filter(|s| s.thorough > s.quick) {
        s.quick = (s.quick * 10).min(s.thorough);
        s.thorough *= 6;
    }
    if let Some(s) = only {
        p.stages.retain(|x| x.name == s);
        p.must = &[];
    }
    let budget_s = if thorough { 600.0 } else { 150.0 };
    let env = run::Env { seed, thorough, dir, budget_s };
    let code = match (&child, &one) {
        (Some(sp), o) => {
            run::install_hook();
            let slots = run::Slots::open(sp);
            match o {
                Some((st, i)) => run::one(&p, &env, st, *i, slots.as_ref()),
                None => run::child(&p, &env, slots.as_ref()),
            }
        }
        (None, Some((st, i))) => {
            run::install_hook();
            run::one(&p, &env, st, *i, None)
        }
        (None, None) => run::supervise(&p, &env, &args),
    };
    std::process::exit(code);
}
