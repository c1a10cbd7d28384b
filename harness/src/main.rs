//! Worker of the checks: enumerates the cases of one check (one shard of them) in this build
//! configuration, or replays one case.
mod checks;
mod model;
mod rt;
mod track;
mod util;

use rt::{Rt, Stats, Tier};
use std::time::Duration;

fn config() -> String {
    format!(
        "{}-{}-{}",
        option_env!("XPRS_MC_TOOLCHAIN").unwrap_or("stable"),
        if model::pej() { "pejmdas" } else { "pemdas" },
        if model::opt() { "opt" } else { "noopt" }
    )
}

fn main() {
    // every case runs on a stack of 8 MiB, as in the main thread of a program
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(real_main).expect("thread").join();
    std::process::exit(r.unwrap_or(3));
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let find = |id: &str| checks::ALL.iter().find(|c| c.id == id);
    match args.first().map(String::as_str) {
        Some("run") => {
            let Some(check) = args.get(1).and_then(|id| find(id)) else { return 3 };
            let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let shard = opt("--shard").unwrap_or_else(|| "0/1".into());
            let (a, b) = shard.split_once('/').expect("--shard i/n");
            let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(3600);
            rt::install_panic_hook();
            rt::limit_memory(4 << 30);
            if let Some(p) = opt("--slot") {
                rt::open_slot(&p);
            }
            rt::start_watchdog(20.0);
            let mut rt = Rt::new(tier, a.parse().expect("shard"), b.parse().expect("shards"), check.run, Duration::from_secs(budget));
            (check.enumerate)(&mut rt);
            let out = opt("--out").expect("--out");
            rt.dump_sets(&format!("{out}.sets"));
            std::fs::write(&out, rt.report(&config())).expect("report");
            0
        }
        Some("replay") => {
            // replay <check> <sub> <file with the data>
            let Some(check) = args.get(1).and_then(|id| find(id)) else { return 3 };
            let data = std::fs::read_to_string(&args[3]).expect("data");
            rt::install_panic_hook();
            rt::limit_memory(4 << 30);
            rt::start_watchdog(20.0);
            let mut rt = Rt::new(Tier::Quick, 0, 1, check.run, Duration::from_secs(3600));
            let sub: &'static str = util::intern(&args[2]);
            rt.case(sub, &data);
            match rt.violations.first() {
                None => {
                    println!("holds");
                    0
                }
                Some((_, _, msg)) => {
                    println!("violated: {msg}");
                    1
                }
            }
        }
        Some("deep") => {
            // deep <family> <n>: the whole life of one long text
            rt::install_panic_hook();
            let text = checks::c01::family_text(&format!("{}|{}", args[1], args[2]));
            let mut st = Stats::default();
            match checks::c01::run("deep", &text, &mut st) {
                Ok(()) => 0,
                Err(e) => {
                    println!("{e}");
                    1
                }
            }
        }
        Some("first") => {
            // C19: one operation in a process of its own
            rt::install_panic_hook();
            print!("{}", checks::history::first(args[1].parse().expect("operation"), args[2] == "1"));
            0
        }
        Some("merge") => {
            println!("{}", rt::merge_sets(&args[1..]));
            0
        }
        Some("config") => {
            println!("{}", config());
            0
        }
        _ => 3,
    }
}
