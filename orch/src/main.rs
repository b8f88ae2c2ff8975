#![allow(dead_code, suspicious_runtime_symbol_definitions, unknown_lints)]
mod base;
mod clock;
mod con;
mod edit;
mod exec;
mod fsops;
mod inp;
mod model;
mod prog;
mod runner;
mod session;
mod show;
mod weird;
use base::*;
use runner::*;

const REAL_ALL: &str = "the unmodified dunesh binary built from /repo (parser, evaluator, builtins, rustyline, Rust std) with its threads, under LD_PRELOAD";
const STUB_ALL: &str = "kernel file system, pipes, terminal, clocks, random source, processes and signals (simulated); child programs (scripted)";

/// (level, rule, real components, stubbed components) of a property's check
pub fn about(id: &str) -> (&'static str, &'static str, &'static str, &'static str) {
    let level = match id {
        "C27" | "C26" => "fault_enumeration",
        _ => "exploration",
    };
    let rule = "a workload counts when it has more than one operation and differs in text from every other; every workload is run fault-free and then with seeded faults";
    (level, rule, REAL_ALL, STUB_ALL)
}
/// (workloads, fault runs per workload) of the quick and thorough tiers
fn size(id: &str) -> ((usize, usize), (usize, usize)) {
    match id {
        "C10" | "C11" | "C12" => ((170, 16), (4000, 40)),
        "C16" | "C17" | "C18" => ((220, 16), (4000, 40)),
        "C19" => ((140, 16), (3000, 40)),
        _ => ((260, 16), (4000, 40)),
    }
}
pub fn has_probe(id: &str) -> bool {
    id == "C16"
}
fn make(id: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C26" | "C27" => fsops::make(id, seed, thorough),
        "C13" | "C14" | "C15" | "C23" | "C24" | "C25" => prog::make(id, seed, thorough),
        "C10" | "C11" | "C12" => exec::make(id, seed, thorough),
        "C16" | "C17" | "C18" | "C19" | "C28" => session::make(id, seed, thorough),
        "C20" => inp::make(id, seed, thorough),
        "C29" => con::make(id, seed, thorough),
        "C30" => show::make(id, seed, thorough),
        "C31" => edit::make(id, seed, thorough),
        "C21" | "C22" => clock::make(id, seed, thorough),
        _ => panic!("no check for {}", id),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = Env {
        bin: std::env::var("ORCH_BIN").expect("ORCH_BIN"),
        shim: std::env::var("ORCH_SHIM").expect("ORCH_SHIM"),
    };
    start_watchdog();
    let num = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<f64>().ok());
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let id = &a[2];
            let thorough = std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough");
            let (q, t) = size(id);
            let (cases, budget) = if thorough { t } else { q };
            let j = Job {
                id,
                env: &env,
                seed: num("VERIF_SEED").unwrap_or(1.0) as u64,
                thorough,
                cases: num("ORCH_CASES").map_or(cases, |x| x as usize),
                budget: num("ORCH_BUDGET").map_or(budget, |x| x as usize),
                wall: num("ORCH_WALL").unwrap_or(if thorough { 700.0 } else { 150.0 }),
                make: &make,
            };
            search(&j)
        }
        Some("show") => {
            // the workload of a seed, as text
            let c = make(&a[2], a[3].parse().unwrap(), false);
            println!("{}", c.describe(&vec![true; c.nops()]));
            0
        }
        Some("replay") => replay(&env, &a[2], &make),
        _ => {
            eprintln!("usage: orch check ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
