//! Seeded search over schedules and faults: `driver check C01`, `driver replay FILE`,
//! `driver one C01 INDEX`, `driver selftest`.
mod exec;
mod gen;
mod model;
mod oracle;
mod scenario;
mod search;
mod shm;
mod shrink;
mod symbols;

use search::*;
use std::collections::HashMap;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut pos = vec![];
    let mut it = a.into_iter();
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            opt.insert(k.into(), it.next().unwrap_or_default());
        } else {
            pos.push(x);
        }
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.into());
    let cfg = Config {
        bin_dir: get("bin", "/verif/progs/target/x86_64-unknown-linux-gnu/release"),
        verif: get("verif", "/verif"),
        seed: get("seed", "1").parse().expect("seed"),
        tier: get("tier", "quick"),
        runs: get("runs", "0").parse().unwrap(),
        secs: get("secs", "0").parse().unwrap(),
        jobs: get("jobs", "8").parse().unwrap(),
        build_s: get("build-s", "0").parse().unwrap(),
    };
    let code = match pos.first().map(|s| &s[..]) {
        Some("check") => check(&cfg, &pos[1]),
        Some("replay") => replay(&cfg, &pos[1]),
        Some("one") => one(&cfg, &pos[1], pos[2].parse().unwrap()),
        Some("try") => try_scenario(&cfg, &pos[1], pos[2].parse().unwrap()),
        Some("large") => large(&cfg, &pos[1..]),
        Some("cost") => cost(&cfg, &pos[1..]),
        Some("compare") => compare(&cfg, &pos[1..]),
        Some("selftest") => selftest(&cfg, &pos[1..]),
        _ => {
            eprintln!("usage: driver check|replay|one|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
