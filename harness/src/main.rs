#![allow(non_snake_case, dead_code)]
#[macro_use]
mod util;
mod runner;
mod prog;
mod mock;
mod refp;
mod gadgets;
mod solver;
mod comp;
mod subject;
mod checks;
use std::time::Duration;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Some(i) = a.iter().position(|x| x == "--unit") {
        runner::install_hook();
        checks::c21::unit_main(&a[i + 1]);
        return;
    }
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = get("--prop").expect("--prop");
    let out = get("--out").expect("--out");
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
    let budget = get("--budget").map(|s| s.parse().unwrap()).unwrap_or(600u64);
    runner::install_hook();
    let o = runner::Opts { seed, thorough, budget: Duration::from_secs(budget), only: get("--case"), prefix: get("--match").unwrap_or_default(), shift: get("--shift").map(|s| s.parse().unwrap()).unwrap_or(0) };
    let suite = checks::suite(&prop, &o);
    let v = runner::run(&prop, suite, &o);
    std::fs::write(&out, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    std::process::exit(0);
}
