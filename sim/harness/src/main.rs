#![allow(dead_code)]
#![allow(clippy::type_complexity)]
mod attrs;
mod bitio;
mod crc;
mod faults;
mod io;
#[path = "../../mach/src/judge.rs"]
mod judge;
mod json;
mod posfmt;
mod prop;
mod props;
mod rec;
mod refbody;
mod refdec;
mod rng;
mod sched;
mod seam;
mod shrink;
mod sup;
mod tables;
mod text;
mod val;
mod world;

use std::path::PathBuf;

fn main() {
    seam::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => {
            let p = props::by_id(&a[2]).unwrap_or_else(|| usage());
            let mut o = sup::Opts {
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
                runs: None,
                secs: 0,
                workers: std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4),
                verif: std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(".")),
            };
            let mut i = 3;
            while i < a.len() {
                let n = |i: usize| a.get(i + 1).and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| usage());
                match a[i].as_str() {
                    "--runs" => o.runs = Some(n(i)),
                    "--secs" => o.secs = n(i),
                    "--workers" => o.workers = n(i),
                    "--seed" => o.seed = n(i),
                    "--thorough" => {
                        o.thorough = true;
                        i -= 1;
                    }
                    _ => usage(),
                }
                i += 2;
            }
            if o.secs == 0 {
                o.secs = if o.thorough { 660 } else { p.secs() };
            }
            sup::check(&*p, &o)
        }
        "worker" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            seam::draw(n(5) ^ n(3) << 32);
            let p = props::by_id(&a[2]).unwrap_or_else(|| usage());
            let o = sup::Opts { seed: n(5), thorough: false, runs: None, secs: n(6), workers: n(4), verif: PathBuf::new() };
            sup::worker(&*p, n(3), n(4), &o, n(7), &PathBuf::from(&a[8]))
        }
        // exec <prop> <file>: executes the case of a replay file once.
        "exec" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
            // Before anything of this process draws.
            seam::draw(v["entropy"].as_u64().unwrap_or(1));
            let p = props::by_id(&a[2]).unwrap_or_else(|| usage());
            let mut st = prop::Stats::default();
            // Earlier runs of the process, where the failure needs them.
            let seed = v["seed"].as_u64().unwrap_or(1);
            for i in v["before"].as_array().into_iter().flatten().filter_map(|i| i.as_u64()) {
                let _ = p.run(seed, i, &mut st);
            }
            match sup::exec_here(&*p, &v["case"], &mut st) {
                None => {
                    eprintln!("not a case of {}", p.id());
                    2
                }
                Some(Ok(())) => {
                    println!("HELD");
                    0
                }
                Some(Err(v)) => {
                    println!("VERDICT {}", serde_json::to_string(&v).unwrap());
                    1
                }
            }
        }
        "case" => {
            let p = props::by_id(&a[2]).unwrap_or_else(|| usage());
            let v = p.case(a[3].parse().unwrap(), a[4].parse().unwrap());
            println!("{}", serde_json::json!({"property": p.id(), "case": v}));
            0
        }
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id(), p.runs(false));
            }
            0
        }
        "selftest" => props::selftest::run(&a[2..]),
        _ => usage(),
    };
    std::process::exit(code)
}

fn usage() -> ! {
    eprintln!("boxsim check <id> [--runs N] [--secs S] [--workers W] [--seed S] [--thorough] | exec <id> <file> | case <id> <seed> <run> | list | selftest");
    std::process::exit(2)
}
