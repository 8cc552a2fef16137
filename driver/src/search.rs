//! The search loop, evidence, replay.
use crate::exec::*;
use crate::gen::*;
use crate::model::mix;
use crate::oracle::*;
use crate::scenario::*;
use crate::shm::*;
use crate::shrink;
use crate::symbols::Symbols;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Config {
    pub bin_dir: String,
    pub verif: String,
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub secs: u64,
    pub jobs: usize,
    pub build_s: u64,
}
#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub verif_seed: u64,
    pub index: u64,
    pub summary: String,
    pub scenario: Scenario,
    /// stream, index, value
    pub decisions: Vec<(u32, u64, u32)>,
    pub hash: String,
    pub outputs: Vec<String>,
    pub trace: Vec<String>,
}

const NET_POLICIES: [&str; 8] = ["random", "fifo", "lifo", "starve-one", "priorities", "mixed", "slow-network", "slow-processes"];

/// a runner together with the judge
pub struct Lab {
    pub runner: Runner,
    pub sym: Symbols,
    bin_dir: String,
}
impl Lab {
    pub fn new(cfg: &Config, cpu: usize) -> Lab {
        Lab { runner: Runner::new(&cfg.bin_dir, cpu), sym: Symbols::default(), bin_dir: cfg.bin_dir.clone() }
    }
    /// Runs and judges; a run that does not end is given a second, longer chance.
    pub fn run(&mut self, sc: &Scenario, decs: Option<&[Dec]>) -> Result<(Outcome, Verdict), String> {
        let mut o = self.runner.run(sc, decs)?;
        if o.timeout && !o.large {
            let t = self.runner.timeout_ms;
            self.runner.timeout_ms = t * 2;
            let r = self.runner.run(sc, decs);
            self.runner.timeout_ms = t;
            o = r?;
        }
        let mut v = judge(sc, &o);
        if sc.prop == "C12" && matches!(v, Verdict::Ok) && !o.not_judged() {
            let all: Vec<Race> = o.ranks.iter().flat_map(|r| r.races.clone()).collect();
            if !all.is_empty() {
                if let Some(x) = self.sym.judge(&format!("{}/{}", self.bin_dir, sc.prog), &all) {
                    v = Verdict::Bad(x);
                }
            }
        }
        Ok((o, v))
    }
}

pub fn seed_of(cfg: &Config, prop: &str, i: u64) -> u64 {
    let p: u64 = prop.bytes().fold(7, |a, b| mix(a, b as u64));
    mix(mix(cfg.seed, p), i)
}

#[derive(Default)]
struct Stats {
    runs: u64,
    events: u64,
    switches: u64,
    clock_ns: u64,
    net_actions: u64,
    net_msgs: u64,
    net_colls: u64,
    crashes: u64,
    failed_exits: u64,
    fired: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    ranks: BTreeMap<String, u64>,
    threads: BTreeMap<String, u64>,
    sizes: BTreeMap<String, u64>,
    scheds: HashSet<u64>,
    distinct: HashSet<u64>,
    repeats: u64,
    unjudged: u64,
    replays: u64,
    races_benign: u64,
    samples: Vec<Value>,
    max_events: u64,
}
fn bump(m: &mut BTreeMap<String, u64>, k: impl Into<String>, n: u64) {
    *m.entry(k.into()).or_insert(0) += n;
}
fn h64(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}
impl Stats {
    fn add(&mut self, i: u64, sc: &Scenario, o: &Outcome) {
        self.runs += 1;
        self.unjudged += o.not_judged() as u64;
        self.events += o.events();
        self.max_events = self.max_events.max(o.events());
        self.switches += o.switches();
        self.clock_ns += o.ranks.iter().map(|r| r.clock_ns).max().unwrap_or(0) + o.net_clock_ns;
        self.net_actions += o.net_actions;
        self.net_msgs += o.net_msgs;
        self.net_colls += o.net_colls;
        self.crashes += o.ncrashed as u64;
        self.failed_exits += o.ranks.iter().any(|r| r.status != 0) as u64;
        self.races_benign += o.ranks.iter().map(|r| r.races.len() as u64).sum::<u64>();
        let mut nf = 0;
        for s in 0..NSTREAMS {
            for v in 1..16 {
                if o.fired[s][v] > 0 {
                    bump(&mut self.fired, format!("{}:{}", STREAM_NAMES[s], value_name(s, v)), o.fired[s][v]);
                    nf += o.fired[s][v];
                }
            }
        }
        match (&sc.cli, sc.gen_n) {
            (Some(c), _) => bump(
                &mut self.ops,
                format!("{} {} {}{}", c.cmd, c.algo, c.par, c.lb.as_ref().map(|l| format!(" + {l}")).unwrap_or_default()),
                1,
            ),
            (_, Some(_)) => bump(&mut self.ops, "gen_matrix_fast", 1),
            _ => {
                for x in sc.threads.iter().flatten() {
                    bump(&mut self.ops, x.name.clone(), 1)
                }
            }
        }
        if sc.is_mpi() {
            bump(&mut self.policies, format!("network-{}", NET_POLICIES[sc.sim.mpi_policy as usize % 8]), 1);
            bump(&mut self.ranks, sc.sim.nranks.to_string(), 1);
        } else {
            bump(&mut self.policies, format!("threads-{}", ["none", "random", "pct", "starve", "round-robin", "stall"][sc.sim.policy as usize % 6]), 1);
            bump(&mut self.threads, o.ranks[0].nthreads.to_string(), 1);
        }
        if let Some(g) = sc.insts.first() {
            let n = g.n();
            bump(&mut self.sizes, if n > 100 { "large".into() } else { n.to_string() }, 1);
        }
        let sh = h64(&(o.ranks.iter().map(|r| r.sched_hash).collect::<Vec<_>>(), o.net_hash, o.fired));
        self.scheds.insert(sh);
        if o.switches() > 0 || o.net_actions > 0 || nf > 0 {
            let mut key = sc.clone();
            key.sim.seed = 0;
            key.sim.rng_seed = 0;
            self.distinct.insert(h64(&(serde_json::to_string(&key.insts).unwrap(), format!("{:?}{:?}", key.threads, key.cli), o.hash())));
        }
        if i % 400 < 2 && self.samples.len() < 4 {
            self.samples.push(json!({
                "index": i,
                "what": describe(sc),
                "events": o.events(), "thread_switches": o.switches(), "network_actions": o.net_actions,
                "decisions": o.decs.len(),
                "first_decisions": o.decs.iter().take(6).map(show_dec).collect::<Vec<_>>(),
                "output_of_process_0": o.ranks[0].out.chars().take(200).collect::<String>(),
            }));
        }
    }
    fn merge(&mut self, b: Stats) {
        self.runs += b.runs;
        self.events += b.events;
        self.max_events = self.max_events.max(b.max_events);
        self.switches += b.switches;
        self.clock_ns += b.clock_ns;
        self.net_actions += b.net_actions;
        self.net_msgs += b.net_msgs;
        self.net_colls += b.net_colls;
        self.crashes += b.crashes;
        self.failed_exits += b.failed_exits;
        self.repeats += b.repeats;
        self.unjudged += b.unjudged;
        self.replays += b.replays;
        self.races_benign += b.races_benign;
        for (x, y) in [
            (&mut self.fired, b.fired),
            (&mut self.ops, b.ops),
            (&mut self.policies, b.policies),
            (&mut self.ranks, b.ranks),
            (&mut self.threads, b.threads),
            (&mut self.sizes, b.sizes),
        ] {
            for (k, v) in y {
                bump(x, k, v);
            }
        }
        self.scheds.extend(b.scheds);
        self.distinct.extend(b.distinct);
        for s in b.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}
pub fn show_dec(d: &Dec) -> String {
    match d.stream as usize {
        S_SCHED => {
            let r = d.index >> 56;
            let e = d.index & 0xff_ffff_ffff_ffff;
            if r > 0 {
                format!("process {r} event {e}: run thread {}", d.value)
            } else {
                format!("event {e}: run thread {}", d.value)
            }
        }
        S_NET => format!("network action {}: choice {}", d.index, d.value),
        s => format!("{} #{}: {}", STREAM_NAMES[s], d.index, value_name(s, d.value as usize)),
    }
}

struct Found {
    index: u64,
    sc: Scenario,
    v: Violation,
    decs: Vec<Dec>,
}

pub fn plan(prop: &str, tier: &str) -> (u64, u64) {
    /* runs, seconds: the first to be reached ends the search */
    if tier == "thorough" {
        return (u64::MAX, 600);
    }
    let _ = prop;
    (400_000, 34)
}

pub fn check(cfg: &Config, prop: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let start = Instant::now();
    let known = Known::load(&cfg.verif);
    let (mut max_runs, mut max_secs) = plan(prop, &cfg.tier);
    if cfg.runs > 0 {
        max_runs = cfg.runs;
    }
    if cfg.secs > 0 {
        max_secs = cfg.secs;
    }
    let deadline = start + Duration::from_secs(max_secs);
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hits: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let trouble: Mutex<Vec<String>> = Mutex::new(vec![]);
    let beyond: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..cfg.jobs {
            let (next, stop_at, total, found, trouble, beyond, known, known_hits) = (&next, &stop_at, &total, &found, &trouble, &beyond, &known, &known_hits);
            s.spawn(move || {
                let mut lab = Lab::new(cfg, w);
                let mut st = Stats::default();
                let mut errs = 0;
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= max_runs || i >= stop_at.load(Ordering::SeqCst) || Instant::now() >= deadline {
                        break;
                    }
                    let sc = generate(prop, seed_of(cfg, prop, i));
                    let (o, v) = match lab.run(&sc, None) {
                        Ok(x) => x,
                        Err(e) => {
                            errs += 1;
                            trouble.lock().unwrap().push(format!("run {i}: {e}"));
                            lab = Lab::new(cfg, w);
                            if errs > 5 {
                                break;
                            }
                            continue;
                        }
                    };
                    st.add(i, &sc, &o);
                    /* one in fifty is run again: by its seed, and from its decisions */
                    if i % 50 == 7 && !o.timeout && !o.dec_overflow {
                        for decs in [None, Some(&o.decs[..])] {
                            match lab.run(&sc, decs) {
                                Ok((p, _)) => {
                                    if p.hash() != o.hash() {
                                        trouble.lock().unwrap().push(format!(
                                            "run {i} is not repeatable ({}): {}",
                                            if decs.is_some() { "replay" } else { "seed" },
                                            difference(&o, &p)
                                        ));
                                    }
                                }
                                Err(e) => trouble.lock().unwrap().push(format!("run {i} again: {e}")),
                            }
                            if decs.is_some() {
                                st.replays += 1;
                            } else {
                                st.repeats += 1;
                            }
                        }
                    }
                    match v {
                        Verdict::Ok => {}
                        Verdict::Harness(m) => beyond.lock().unwrap().push(format!("run {i}: {m} [{}]", describe(&sc))),
                        Verdict::Bad(v) => {
                            if let Some(k) = known.matches(prop, &sc, &v) {
                                known_hits.lock().unwrap().push(k);
                                continue;
                            }
                            stop_at.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { index: i, sc, v, decs: o.decs });
                            break;
                        }
                    }
                }
                total.lock().unwrap().merge(st);
            });
        }
    });
    let searched = start.elapsed().as_secs_f64();
    let total = total.into_inner().unwrap();
    let mut trouble = trouble.into_inner().unwrap();
    /* what the simulation cannot represent is no verdict; a few such runs among thousands are
       counted, more mean that the check has no answer */
    let beyond = beyond.into_inner().unwrap();
    let few = beyond.len() as u64 <= total.runs / 200;
    if few {
        for t in beyond.iter().take(5) {
            eprintln!("not judged: {t}");
        }
    } else {
        trouble.extend(beyond.iter().cloned());
    }
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.index);
    let mut code = 0;
    let nfound = found.len();
    let mut report: Option<(Replay, String)> = None;
    for f in found {
        let mut lab = Lab::new(cfg, 0);
        let budget = Duration::from_secs(if cfg.tier == "thorough" { 240 } else { 60 });
        let (sc, decs, v, steps) = match shrink::minimise(&mut lab, cfg, &f.sc, &f.decs, &f.v, budget) {
            Some(x) => x,
            None => {
                eprintln!("run {} does not fail again: {} ({})", f.index, f.v.msg, describe(&f.sc));
                continue;
            }
        };
        eprintln!("minimised with {steps} runs");
        /* in a fresh process, twice */
        let mut lab = Lab::new(cfg, 1);
        let (o, v2) = match lab.run(&sc, Some(&decs)) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("{e}");
                continue;
            }
        };
        let v = match v2 {
            Verdict::Bad(x) if x.kind == v.kind => x,
            _ => {
                eprintln!("the minimised run does not fail in a fresh process");
                continue;
            }
        };
        let rep = Replay {
            property: prop.into(),
            kind: v.kind.clone(),
            message: v.msg.clone(),
            verif_seed: cfg.seed,
            index: f.index,
            summary: describe(&sc),
            trace: o.decs.iter().map(show_dec).chain(o.trace.lines().map(|l| l.to_string())).take(4000).collect(),
            scenario: sc,
            decisions: decs.iter().map(|d| (d.stream, d.index, d.value)).collect(),
            hash: format!("{:016x}", o.hash()),
            outputs: o.ranks.iter().map(|r| format!("status {}: {}{}", r.status, r.out, r.err)).collect(),
        };
        std::fs::create_dir_all(format!("{}/replay", cfg.verif)).ok();
        let path = format!("{}/replay/{}-{}-{}.json", cfg.verif, prop, cfg.seed, f.index);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        report = Some((rep, path));
        break;
    }
    {
        let mut hits = known_hits.into_inner().unwrap();
        hits.sort();
        hits.dedup();
        for k in hits {
            println!("KNOWN-FINDING: property={prop} {}", known.list[k].2);
        }
    }
    if let Some((rep, path)) = &report {
        println!("{}", rep.summary);
        println!("{}: {}", rep.kind, rep.message);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    } else if nfound > 0 {
        eprintln!("violations were seen, but none could be repeated");
        code = 2;
    } else if !trouble.is_empty() {
        code = 2;
    }
    for t in trouble.iter().take(5) {
        eprintln!("harness: {t}");
    }
    let wall = start.elapsed().as_secs_f64() + cfg.build_s as f64;
    evidence(cfg, prop, &total, searched, wall, report.is_some() as u64, &trouble, &beyond);
    println!(
        "{prop}: {} runs in {:.1} s, {} distinct, {} interleavings, {} decisions of faults{}",
        total.runs,
        searched,
        total.distinct.len(),
        total.scheds.len(),
        total.fired.values().sum::<u64>(),
        if code == 0 { ", no violation" } else { "" }
    );
    code
}
fn difference(a: &Outcome, b: &Outcome) -> String {
    let mut s = String::new();
    for (i, (x, y)) in a.ranks.iter().zip(&b.ranks).enumerate() {
        if (x.status, x.events, x.switches, x.sched_hash, x.verdict) != (y.status, y.events, y.switches, y.sched_hash, y.verdict) || x.out != y.out {
            s += &format!(
                "process {i}: status {}/{} events {}/{} switches {}/{} hash {:x}/{:x} out equal {} {} {}; ",
                x.status, y.status, x.events, y.events, x.switches, y.switches, x.sched_hash, y.sched_hash, x.out == y.out, x.msg, y.msg
            );
        }
    }
    let k = a.decs.iter().zip(&b.decs).position(|(p, q)| p != q);
    s += &format!("net {}/{} fired equal {} first different decision {:?}", a.net_actions, b.net_actions, a.fired == b.fired, k.map(|k| (a.decs[k], b.decs[k])));
    s
}

pub fn real_components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mpi = matches!(prop, "C02" | "C03" | "C06" | "C08" | "C11" | "C16" | "C17");
    let both = matches!(prop, "C14" | "C15" | "C18" | "C21");
    let mut real = vec!["walky (library and, in part of the runs, the command line program), compiled from /repo's working tree", "Rust std"];
    let mut stub = vec![
        "thread scheduler, futexes and thread creation (one thread at a time, chosen by the seeded scheduler)",
        "clock, random numbers, number of CPUs, memory allocator",
        "standard output and files (in memory)",
    ];
    if !mpi {
        real.push("rayon, rayon-core, crossbeam");
    }
    if mpi || both {
        real.push("rsmpi (mpi crate) and its C glue");
        stub.push("libmpi and the network (replaced by rt/simmpi.c: one process at a time, messages and collectives delivered by the seeded scheduler)");
    }
    if matches!(prop, "C14" | "C15" | "C18" | "C16" | "C17" | "C21" | "C01" | "C02" | "C03") {
        real.push("clap, quick-xml, serde");
    }
    if prop == "C19" {
        real = vec!["gen_matrix_fast, compiled from /repo's working tree", "rand", "Rust std"];
    }
    (real, stub)
}

fn evidence(cfg: &Config, prop: &str, t: &Stats, searched: f64, wall: f64, violations: u64, trouble: &[String], beyond: &[String]) {
    let (real, stub) = real_components(prop);
    let v = json!({
        "property": prop,
        "tier": if cfg.tier == "thorough" { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.distinct.len(),
            "rule": "a run is one simulated execution of the program under test, its scenario, schedule and faults derived from one seed; \
                     it is non-trivial if a thread was switched, a network action was decided or a fault was injected, and distinct if instance, \
                     operation or execution (statuses, outputs, schedule, network history, faults) differ",
            "samples": t.samples,
            "runs_per_hour": (t.runs as f64 / searched.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / searched.max(0.001) * 3600.0) as u64,
            "simulated_seconds": t.clock_ns as f64 / 1e9,
            "events": t.events,
            "longest_run_events": t.max_events,
            "thread_switches": t.switches,
            "network_actions": t.net_actions,
            "messages": t.net_msgs,
            "collectives": t.net_colls,
            "faults_injected": t.fired,
            "process_crashes": t.crashes,
            "runs_that_ended_in_a_reported_failure": t.failed_exits,
            "distinct_interleavings": t.scheds.len(),
            "interleaving_measure": "hash of every (event number, thread) at which a thread was switched, of the network's sequence of actions, and of the faults",
            "operations": t.ops,
            "scheduling_policies": t.policies,
            "processes_per_run": t.ranks,
            "threads_per_run": t.threads,
            "vertices": t.sizes,
            "races_reported_inside_lock_free_dependencies": t.races_benign,
            "repeated_by_seed": t.repeats,
            "not_judged_because_too_long_or_too_many_threads": t.unjudged,
            "not_judged_because_beyond_the_simulation": beyond.len(),
            "repeated_from_recorded_decisions": t.replays,
            "not_repeatable": trouble.iter().filter(|x| x.contains("not repeatable")).count(),
            "harness_problems": trouble.iter().take(5).collect::<Vec<_>>(),
            "real_components": real,
            "simulated_components": stub,
        },
        "assumptions": [
            "executions are sequentially consistent: weak memory effects are not simulated",
            "the simulated MPI follows the MPI standard where Open MPI's behaviour is a choice among those the standard allows",
            "a clean batch of runs is evidence, not proof"
        ],
    });
    std::fs::create_dir_all(format!("{}/evidence", cfg.verif)).ok();
    std::fs::write(format!("{}/evidence/{}.json", cfg.verif, prop), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// Defects recorded and not repaired: "known: property=<id> kind=<class> match=<text in summary or message>; description"
pub struct Known {
    pub list: Vec<(String, String, String, String)>,
}
impl Known {
    fn load(verif: &str) -> Known {
        let t = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
        let mut list = vec![];
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let (p, r) = r.split_once(" kind=").unwrap_or((r, ""));
                let (k, r) = r.split_once(" match=").unwrap_or((r, ""));
                let (m, d) = r.split_once("; ").unwrap_or((r, ""));
                list.push((p.to_string(), k.to_string(), d.to_string(), m.to_string()));
            }
        }
        Known { list }
    }
    fn matches(&self, prop: &str, sc: &Scenario, v: &Violation) -> Option<usize> {
        let d = describe(sc);
        self.list.iter().position(|(p, k, _, m)| p == prop && *k == v.kind && !m.is_empty() && (d.contains(m) || v.msg.contains(m)))
    }
}

/// the scenario of a replay file with other seeds of the schedule
pub fn try_scenario(cfg: &Config, path: &str, count: u64) -> i32 {
    let text = std::fs::read_to_string(path).expect("scenario");
    let mut rep: Replay = serde_json::from_str(&text).expect("scenario");
    let mut lab = Lab::new(cfg, 0);
    let mut found = 0;
    for i in 0..count {
        rep.scenario.sim.seed = cfg.seed.wrapping_add(i).wrapping_mul(0x9e3779b97f4a7c15);
        match lab.run(&rep.scenario, None) {
            Ok((o, Verdict::Bad(v))) => {
                found += 1;
                if found < 4 {
                    println!("{}: {} ({} events)", v.kind, v.msg, o.events());
                }
            }
            Ok((_, Verdict::Harness(e))) | Err(e) => println!("harness: {e}"),
            Ok(_) => (),
        }
    }
    println!("{found} of {count}");
    0
}

pub fn replay(cfg: &Config, path: &str) -> i32 {
    let rep: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let mut lab = Lab::new(cfg, 0);
    let decs: Vec<Dec> = rep.decisions.iter().map(|d| Dec { stream: d.0, index: d.1, value: d.2 }).collect();
    println!("{}", describe(&rep.scenario));
    for d in decs.iter().take(60) {
        println!("  {}", show_dec(d));
    }
    match lab.run(&rep.scenario, Some(&decs)) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok((o, v)) => {
            for l in o.trace.lines().take(300) {
                println!("  {l}");
            }
            for (i, r) in o.ranks.iter().enumerate() {
                println!("process {i}: status {} out {:?} err {:?} {}", r.status, r.out.chars().take(800).collect::<String>(), r.err, r.msg);
            }
            let same = format!("{:016x}", o.hash()) == rep.hash;
            println!("execution {:016x}, recorded {}: {}", o.hash(), rep.hash, if same { "identical" } else { "DIFFERENT" });
            match v {
                Verdict::Bad(v) => {
                    println!("{}: {}", v.kind, v.msg);
                    println!("VIOLATION property={} replay={path}", rep.property);
                    1
                }
                Verdict::Ok => {
                    println!("no violation");
                    0
                }
                Verdict::Harness(m) => {
                    println!("harness: {m}");
                    2
                }
            }
        }
    }
}

pub fn one(cfg: &Config, prop: &str, i: u64) -> i32 {
    let sc = generate(prop, seed_of(cfg, prop, i));
    println!("{}", describe(&sc));
    println!("{}", serde_json::to_string(&sc).unwrap());
    let mut lab = Lab::new(cfg, 0);
    let t = Instant::now();
    match lab.run(&sc, None) {
        Err(e) => println!("{e}"),
        Ok((o, v)) => {
            println!("{:?}", t.elapsed());
            for l in o.trace.lines() {
                println!("  {l}");
            }
            for (i, r) in o.ranks.iter().enumerate() {
                println!(
                    "process {i}: status {} events {} switches {} threads {} allocs {} races {} clock {} verdict {} {} out {:?} err {:?}",
                    r.status, r.events, r.switches, r.nthreads, r.nallocs, r.races.len(), r.clock_ns, r.verdict, r.msg,
                    r.out.chars().take(600).collect::<String>(), r.err
                );
            }
            println!("verdict {} {} net {} msgs {} colls {} decisions {} hash {:016x} timeout {}", o.verdict, o.msg, o.net_actions, o.net_msgs, o.net_colls, o.decs.len(), o.hash(), o.timeout);
            let all: Vec<Race> = o.ranks.iter().flat_map(|r| r.races.clone()).collect();
            for r in &all {
                let f = lab.sym.frames(&format!("{}/{}", cfg.bin_dir, sc.prog), &r.pc);
                println!("race {:x} wr {:?} at {:?} tid {:?}", r.addr, r.wr, r.at, r.tid);
                for x in f {
                    println!("   {:?}", x.iter().map(|y| format!("{} {}", y.func, y.file)).collect::<Vec<_>>());
                }
            }
            match v {
                Verdict::Ok => println!("ok"),
                Verdict::Bad(v) => println!("BAD {}: {}", v.kind, v.msg),
                Verdict::Harness(m) => println!("HARNESS {m}"),
            }
        }
    }
    0
}

/// Every run of a sample twice by seed and once from decisions, in different servers.
pub fn selftest(cfg: &Config, props: &[String]) -> i32 {
    let n = if cfg.runs > 0 { cfg.runs } else { 40 };
    let props: Vec<&str> = if props.is_empty() { PROPS.to_vec() } else { props.iter().map(|s| &s[..]).collect() };
    let bad = AtomicU64::new(0);
    for p in props {
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..cfg.jobs {
                let (next, bad) = (&next, &bad);
                s.spawn(move || {
                    let mut a = Lab::new(cfg, w);
                    let mut b = Lab::new(cfg, (w + 3) % cfg.jobs);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        let sc = generate(p, seed_of(cfg, p, i));
                        let x = a.run(&sc, None);
                        let y = b.run(&sc, None);
                        let (Ok((x, _)), Ok((y, _))) = (x, y) else {
                            println!("{p} {i}: cannot run");
                            bad.fetch_add(1, Ordering::SeqCst);
                            continue;
                        };
                        let z = a.run(&sc, Some(&y.decs)).unwrap().0;
                        if x.hash() != y.hash() {
                            println!("{p} {i} seed: {} [{}]", difference(&x, &y), describe(&sc));
                            bad.fetch_add(1, Ordering::SeqCst);
                        }
                        if y.hash() != z.hash() {
                            println!("{p} {i} replay: {} [{}]", difference(&y, &z), describe(&sc));
                            bad.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                });
            }
        });
        println!("{p}: {n} runs, 3 executions each");
    }
    (bad.load(Ordering::SeqCst) > 0) as i32
}

/// `driver cost CMD ALGO PAR N STYLE`: how expensive a simulated run is
/// what the first runs with instances of at least so many vertices cost
pub fn large(cfg: &Config, a: &[String]) -> i32 {
    let (min, count): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut lab = Lab::new(cfg, 0);
    let mut done = 0;
    for i in 0.. {
        let s = generate(&a[0], seed_of(cfg, &a[0], i));
        if s.insts.iter().map(|g| g.n()).chain(s.gen_n).all(|n| n < min) {
            continue;
        }
        let t = Instant::now();
        match lab.run(&s, None) {
            Ok((o, v)) => {
                let v = match v {
                    Verdict::Ok => String::new(),
                    Verdict::Harness(v) => format!("HARNESS {v}"),
                    Verdict::Bad(v) => format!("BAD {}: {}", v.kind, v.msg.chars().take(200).collect::<String>()),
                };
                println!("run {i} {} events {} judged {} in {:?} {v}", describe(&s), o.events(), !o.not_judged(), t.elapsed());
            }
            Err(e) => println!("run {i}: {e}"),
        }
        done += 1;
        if done == count {
            break;
        }
    }
    0
}
pub fn cost(cfg: &Config, a: &[String]) -> i32 {
    let n: usize = a[3].parse().unwrap();
    let mut r = crate::model::Rng::new(cfg.seed, 77);
    let g = match &a[4][..] {
        "planted" => crate::model::planted(&mut r, n),
        "graded" => crate::model::graded(&mut r, n),
        "any" => crate::model::instance(&mut r, n, crate::model::Kind::Any),
        _ => crate::model::instance(&mut r, n, crate::model::Kind::Metric),
    };
    let mut s = Scenario::cli("C18", g, &a[0], &a[1], &a[2], None);
    s.sim.step_limit = 20_000_000_000;
    s.sim.fair_after = 20_000_000_000;
    s.sim.ncpu = 4;
    s.sim.policy = P_RANDOM;
    s.sim.p_sync = 8;
    s.sim.p_acc = 3000;
    if a[2] == "mpi" {
        s.sim.nranks = 4;
        s.prog = "walky_cli_mpi".into();
    }
    let mut lab = Lab::new(cfg, 0);
    lab.runner.timeout_ms = 300_000;
    let t = Instant::now();
    match lab.run(&s, None) {
        Ok((o, _)) => println!("{a:?}: events {} switches {} document {} in {:?}", o.events(), o.switches(), s.document().len(), t.elapsed()),
        Err(e) => println!("{e}"),
    }
    0
}

/// `driver compare WALKY N`: every MPI command simulated and really executed (mpirun), both judged by the same oracle
pub fn compare(cfg: &Config, a: &[String]) -> i32 {
    let n: u64 = a[1].parse().unwrap();
    let mut lab = Lab::new(cfg, 0);
    let dir = std::env::temp_dir().join(format!("walky-compare-{}", std::process::id()));
    let (mut bad, mut done) = (0, 0);
    for i in 0..n {
        let prop = ["C16", "C02", "C03", "C06", "C08", "C11", "C18"][(i % 7) as usize];
        let mut s = generate(prop, seed_of(cfg, prop, 1_000_000 + i));
        if s.cli.as_ref().map(|c| c.par != "mpi").unwrap_or(true) {
            continue;
        }
        s.sim.nranks = s.sim.nranks.min(8);
        let (o, v) = match lab.run(&s, None) {
            Ok(x) => x,
            Err(e) => {
                println!("{e}");
                continue;
            }
        };
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("in.xml"), s.document()).unwrap();
        let args: Vec<String> = s.args().iter().map(|x| if x == "/sim/in.xml" { dir.join("in.xml").display().to_string() } else { x.clone() }).collect();
        let st = std::process::Command::new("timeout")
            .args(["60", "mpirun", "--oversubscribe", "-n", &s.sim.nranks.to_string(), "--output-filename"])
            .arg(dir.join("out"))
            .arg(&a[0])
            .args(&args)
            .env("OMPI_ALLOW_RUN_AS_ROOT", "1")
            .env("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .unwrap();
        let mut p = o;
        let mut same = true;
        for (k, r) in p.ranks.iter_mut().enumerate() {
            let out = std::fs::read_to_string(dir.join(format!("out/1/rank.{k}/stdout"))).unwrap_or_default();
            same &= out.lines().count() == r.out.lines().count();
            r.out = out;
            r.status = if st.success() { 0 } else { 256 };
        }
        let w = judge(&s, &p);
        let ok = matches!(v, Verdict::Ok) && matches!(w, Verdict::Ok) && same;
        done += 1;
        if !ok {
            bad += 1;
            println!("{} {i}: {:?} ranks {} simulated ok {} real ok {} same shape {same}", prop, args, s.sim.nranks, matches!(v, Verdict::Ok), matches!(w, Verdict::Ok));
            for r in &p.ranks {
                println!("{}", r.out);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{done} commands compared, {bad} different");
    (bad > 0) as i32
}
