//! One seed -> one scenario, per property.
use crate::model::*;
use crate::scenario::*;
use crate::shm::*;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21",
];

fn op(name: &str, inst: usize, args: &[usize]) -> Op {
    Op { name: name.into(), inst, args: args.to_vec() }
}
/// how many events a run of this property has, roughly: where switches should fall
fn schedule(r: &mut Rng, s: &mut Scenario, len: f64) {
    let m = &mut s.sim;
    m.seed = r.next();
    m.rng_seed = r.next();
    m.ncpu = match r.below(10) {
        0 => 1,
        1..=5 => r.range(2, 4),
        6..=8 => r.range(3, 8),
        _ => match r.below(6) {
            0 => r.pick(&[17, 24, 32]),
            _ => r.range(9, 16),
        },
    } as u32;
    m.policy = r.pick(&[
        P_RANDOM, P_RANDOM, P_RANDOM, P_RANDOM, P_PCT, P_PCT, P_PCT, P_STARVE, P_STARVE, P_STALL, P_STALL, P_STALL, P_RR, P_NONE,
    ]);
    m.p_sync = r.pick(&[1, 2, 3, 8, 40]);
    m.p_acc = r.pick(&[0, 20, 100, 500, 3000, 20000]);
    m.pct_depth = r.range(1, 10) as u32;
    m.pct_len = r.log_uniform(len / 30.0, len * 3.0) as u64;
    if r.chance(8) {
        m.rayon_threads = r.pick(&[1, 1, 2, 2, 3, 5, 12]);
    }
    m.step_limit = 60_000_000;
    m.fair_after = 20_000_000;
    if r.chance(35) {
        s.fault(S_FUTEX, r.pick(&[500, 3000, 15000, 40000]), r.range(1, 60) as u32, 0b110);
    }
    if r.chance(10) {
        s.fault(S_CLOCK, 2000, 5, 0b1110);
    }
}
/// mostly one of the common sizes, now and then a larger one
fn size(r: &mut Rng, common: &[usize], rare: &[usize]) -> usize {
    sizes(r, common, rare, rare)
}
/// an instance too large to be written down
fn big(r: &mut Rng, lo: f64, hi: f64) -> Inst {
    Inst::Hashed { n: r.log_uniform(lo, hi) as usize, seed: r.next() & 0xffffff }
}
/// a large instance that an exact solver finishes all the same
fn hard(r: &mut Rng, n: usize) -> Inst {
    if n > 14 || r.chance(50) {
        planted(r, n)
    } else {
        graded(r, n)
    }
}
/// the larger, the rarer
fn sizes(r: &mut Rng, common: &[usize], rare: &[usize], huge: &[usize]) -> usize {
    match r.below(1000) {
        0 => r.pick(huge),
        1..=14 => r.pick(rare),
        _ => r.pick(common),
    }
}
fn network(r: &mut Rng, s: &mut Scenario, max_ranks: usize) {
    let m = &mut s.sim;
    m.seed = r.next();
    m.rng_seed = r.next();
    m.ncpu = r.range(1, 4) as u32;
    m.policy = P_NONE;
    m.cpu_vary = r.chance(25) as u32;
    m.nranks = match r.below(20) {
        0 => 1,
        1..=6 => r.range(2, 3),
        7..=14 => r.range(3, 5),
        _ if max_ranks == 12 && r.chance(10) => r.range(13, 16),
        _ => r.range(4, max_ranks),
    } as u32;
    m.mpi_policy = r.below(8) as u32;
    m.mpi_flags = r.next() as u32;
    m.step_limit = 60_000_000;
    m.fair_after = 20_000_000;
    let eager = r.pick(&[0, 0, 2000, 20000, 65536, 65536]);
    if eager > 0 {
        s.fault(S_EAGER, eager, u32::MAX, 0b10);
    }
    let late = r.pick(&[0, 20000, 40000, 65536]);
    if late > 0 {
        s.fault(S_COLL, late, u32::MAX, 0b10);
    }
    let red = r.pick(&[0, 30000, 65536]);
    if red > 0 {
        s.fault(S_REDUCE, red, u32::MAX, 0b1110);
    }
    if r.chance(15) {
        s.fault(S_CLOCK, r.pick(&[300, 2000, 20000]), 5, 0b1110);
    }
    let suffix = "_mpi";
    s.prog = if s.cli.is_some() { format!("walky_cli{suffix}") } else { format!("apiprog{suffix}") };
}
fn subset(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v.truncate(k);
    v
}
fn even_subset(r: &mut Rng, n: usize) -> Vec<usize> {
    let k = 2 * r.range(0, n / 2);
    subset(r, n, k)
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed, 0xabcdef);
    let r = &mut r;
    let any = Kind::Any;
    let metric = Kind::Metric;
    let mut s = match prop {
        "C01" => {
            let n = size(r, &[2, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5, 5, 5, 6], &[6, 6, 6, 7, 7, 8]);
            let lean = r.below(1000) < 90;
            let n = match r.below(120_000) {
                0 => 11,
                1..=15 => 10,
                16..=75 => 9,
                76..=125 => r.range(9, 14),
                _ => n,
            };
            let n = if lean { r.pick(&[6, 6, 6, 6, 6, 6, 6, 7]) } else { n };
            let g = if n > 8 { hard(r, n) } else if lean || r.chance(20) { planted(r, n) } else { instance(r, n, any) };
            let mut s = if r.chance(25) {
                Scenario::cli(prop, g, "exact", ["v0", "v1", "v4", "v6"][r.below(4)], "multi-threaded", None)
            } else {
                Scenario::api(prop, vec![g], vec![vec![op("exact_par", 0, &[])]])
            };
            schedule(r, &mut s, 60000.0);
            /* the interesting case: fewer threads than vertices */
            if r.chance(80) && n > 2 {
                s.sim.ncpu = r.range(1, n - 1) as u32;
            }
            if n > 7 {
                s.sim.step_limit = 3_000_000_000;
                s.sim.p_sync = s.sim.p_sync.max(8);
                s.sim.p_acc = if s.sim.p_acc == 0 { 0 } else { s.sim.p_acc.max(3000) };
            }
            if n > 11 {
                /* as many threads as vertices: with fewer, this takes too long */
                s.sim.ncpu = r.range(n, 2 * n) as u32;
            }
            if lean {
                s.sim.ncpu = (n - 1 - r.below(8) / 7) as u32;
                if r.chance(70) {
                    s.sim.policy = P_STALL;
                    s.sim.p_sync = r.pick(&[3, 40, 400]);
                    s.sim.p_acc = r.pick(&[0, 0, 3000]);
                    s.sim.pct_depth = 16;
                }
            }
            s
        }
        "C04" if r.below(1000) == 0 => {
            let g = big(r, 130.0, 1100.0);
            let n = g.n();
            let k = if r.chance(50) { 0 } else { r.range(0, n) };
            let ex = subset(r, n, k);
            let mut s = Scenario::api(prop, vec![g], vec![vec![op("mst_par", 0, &ex)]]);
            if k == 0 && r.chance(50) {
                s.threads[0][0].name = "mst_par0".into();
            }
            schedule(r, &mut s, 1e7);
            s.sim.p_acc = if s.sim.p_acc == 0 { 0 } else { s.sim.p_acc.max(500) };
            s
        }
        "C04" => {
            let n = sizes(r, &[1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 24], &[33, 40, 65, 80], &[130, 130, 260, 300]);
            let g = instance(r, n, any);
            let k = if r.chance(40) { 0 } else { r.range(0, n) };
            let ex = subset(r, n, k);
            let mut s = if r.chance(20) && n > 1 && n < 150 {
                Scenario::cli(prop, g, "lower-bound", "mst", "multi-threaded", None)
            } else if r.chance(30) {
                Scenario::api(prop, vec![g], vec![vec![op("mst_par0", 0, &[])]])
            } else {
                Scenario::api(prop, vec![g], vec![vec![op("mst_par", 0, &ex)]])
            };
            schedule(r, &mut s, 30000.0);
            s
        }
        "C05" => {
            let n = sizes(r, &[3, 3, 4, 5, 6, 7, 8, 9, 12, 16], &[24, 33, 40, 66], &[100, 100, 100, 130, 130, 130, 200, 260]);
            let g = instance(r, n, any);
            let mut s = if r.chance(20) {
                Scenario::cli(prop, g, "lower-bound", "one-tree", "multi-threaded", None)
            } else {
                Scenario::api(prop, vec![g], vec![vec![op("ot_par", 0, &[])]])
            };
            schedule(r, &mut s, 20000.0);
            s
        }
        "C07" if r.below(1000) == 0 => {
            let g = big(r, 130.0, 1100.0);
            let k = r.range(1, 4);
            let mut s = Scenario::api(prop, vec![g], vec![vec![op(["nnk_par", "nnk_par", "nnk_seq"][r.below(3)], 0, &[k])]]);
            schedule(r, &mut s, 1e7);
            s.sim.p_acc = if s.sim.p_acc == 0 { 0 } else { s.sim.p_acc.max(500) };
            s
        }
        "C07" => {
            let n = sizes(r, &[1, 2, 3, 4, 5, 6, 7, 9, 12, 20], &[33, 50, 70, 130], &[140, 140, 200, 260]);
            let g = instance(r, n, any);
            let k = r.range(1, n);
            let mut s = match r.below(8) {
                0 if n > 1 => Scenario::cli(prop, g, "approx", "nearest-neighbour", ["single-threaded", "multi-threaded"][r.below(2)], None),
                0 | 1 => Scenario::api(prop, vec![g], vec![vec![op("nn_seq", 0, &[])]]),
                2 => Scenario::api(prop, vec![g], vec![vec![op("nnk_seq", 0, &[k])]]),
                3..=5 => Scenario::api(prop, vec![g], vec![vec![op("nn_par", 0, &[])]]),
                _ => Scenario::api(prop, vec![g], vec![vec![op("nnk_par", 0, &[k])]]),
            };
            schedule(r, &mut s, 15000.0);
            s
        }
        "C09" if r.below(2000) == 0 => {
            let g = big(r, 90.0, 600.0);
            let mut s = Scenario::api(prop, vec![g], vec![vec![op(["chr_par", "chr2_par", "chr_par", "chr_seq"][r.below(4)], 0, &[])]]);
            schedule(r, &mut s, 1e7);
            s.sim.p_acc = if s.sim.p_acc == 0 { 0 } else { s.sim.p_acc.max(500) };
            s
        }
        "C09" => {
            let n = sizes(r, &[2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11], &[12, 13, 16, 20, 33, 60], &[90]);
            let g = instance(r, n, metric);
            let mut s = match r.below(9) {
                0 => Scenario::cli(prop, g, "approx", "christofides", ["single-threaded", "multi-threaded"][r.below(2)], None),
                k => Scenario::api(
                    prop,
                    vec![g],
                    vec![vec![op(
                        if n > 13 {
                            ["chr_par", "chr2_par", "chr_seq", "chr2_seq"][r.below(4)]
                        } else {
                            ["chr_par", "chrx_par", "chr_par", "chrx_par", "chr2_par", "chr_seq", "chrx_seq", "chr2_seq"][k - 1]
                        },
                        0,
                        &[],
                    )]],
                ),
            };
            schedule(r, &mut s, 40000.0);
            s
        }
        "C10" => {
            if r.below(400) == 0 {
                /* enough pairs for the parallel code to split them */
                let n = match r.below(3) {
                    0 => 2 * r.log_uniform(130.0, 4100.0) as usize,
                    _ => r.range(4100, 4400) * 2,
                };
                let g = Inst::Hashed { n, seed: r.next() & 0xffffff };
                let mut s = Scenario::api(prop, vec![g], vec![vec![op("matchr_par", 0, &[r.range(1, 3), 0, n, n])]]);
                schedule(r, &mut s, 300000.0);
                s.sim.p_acc = s.sim.p_acc.max(500);
                return finish(prop, s);
            }
            let n = sizes(r, &[4, 4, 4, 5, 6, 8, 10, 14, 30], &[48, 70, 130, 150], &[200, 260]);
            let g = instance(r, n, any);
            let v = if r.chance(40) { subset(r, n, n.min(4)) } else { even_subset(r, n) };
            let tries = match r.below(4) {
                0 => 0,
                1 => 1,
                2 => r.range(1, 12),
                _ => 40 * v.len().max(4) * if v.len() <= 10 { 2 } else { 1 },
            };
            let mut a = vec![tries];
            a.extend(&v);
            /* two improving rounds may follow each other only if the first one left a matching */
            let mut s = Scenario::api(prop, vec![g], vec![vec![op(["match_seq", "match_par"][r.below(2)], 0, &a)]]);
            schedule(r, &mut s, 60000.0);
            s
        }
        "C12" | "C20" => {
            let ninst = r.range(1, 2);
            let insts: Vec<Inst> = (0..ninst)
                .map(|_| {
                    let n = match r.below(1000) {
                        0..=3 => r.pick(&[64, 65, 70, 90, 130, 130, 260]),
                        4..=20 => r.pick(&[16, 20, 33]),
                        _ => r.range(3, if prop == "C12" { 12 } else { 8 }),
                    };
                    let k = if r.chance(60) { metric } else { any };
                    instance(r, n, k)
                })
                .collect();
            let np = if r.chance(1) { r.pick(&[40, 70, 130, 260]) } else { r.range(1, 9) };
            let mut insts = insts;
            insts.push(Inst::Points(points(r, np)));
            let nthreads = if prop == "C12" { if r.chance(70) { 1 } else { 2 } } else { r.range(2, 4) };
            let mut threads = vec![];
            /* clients of one and the same function meet in whatever it keeps between calls */
            let only = if nthreads > 1 && r.chance(40) { Some(r.below(12)) } else { None };
            for _ in 0..nthreads {
                let nops = if nthreads == 1 { 1 } else { r.range(1, 2) };
                let mut t = vec![];
                for _ in 0..nops {
                    let i = r.below(ninst);
                    let n = insts[i].n();
                    let m = is_metric(&insts[i]);
                    let mut left = 20;
                    let o = loop {
                        left -= 1;
                        break match only.filter(|_| left > 0).unwrap_or_else(|| r.below(13)) {
                            0 | 1 if n <= 7 => op("exact_par", i, &[]),
                            2 => op("mst_par", i, &subset(r, n, 1)),
                            3 => op("mst_par0", i, &[]),
                            4 if n <= 70 => op("ot_par", i, &[]),
                            5 if n <= 130 => op("nn_par", i, &[]),
                            6 => op("nnk_par", i, &[r.range(1, n.min(40))]),
                            7 | 8 if m && n <= 130 => op("chr_par", i, &[]),
                            9 if m && n <= 12 => op("chrx_par", i, &[]),
                            10 => {
                                let mut a = vec![r.range(0, 6)];
                                a.extend(even_subset(r, n));
                                op("match_par", i, &a)
                            }
                            /* the whole matrix would be too much output */
                            11 if np > 60 => op("ptsr_par", ninst, &[0, 1, np / 2, r.below(np), np - 1]),
                            11 => op("pts_par", ninst, &[]),
                            12 if prop == "C20" => {
                                if n > 7 {
                                    continue;
                                }
                                op("v", i, &[r.range(3, 6)])
                            }
                            12 if r.chance(5) => op("matchr_par", i, &[1, 0, r.range(4100, 5000) * 2, n]),
                            _ => continue,
                        };
                    };
                    t.push(o);
                }
                threads.push(t);
            }
            let mut s = Scenario::api(prop, insts, threads);
            schedule(r, &mut s, 50000.0);
            if s.threads.len() > 1 && r.chance(35) {
                s.pool = r.pick(&[1, 1, 2, 3, 3, 4, 5, 101, 102, 102, 103]);
            }
            if prop == "C12" {
                s.sim.race = 1;
                s.sim.ncpu = s.sim.ncpu.max(2);
                /* the threaded solver falls back to one thread if there are too many of them */
                if s.threads.iter().flatten().any(|o| o.name == "exact_par") {
                    s.sim.ncpu = r.range(2, 3) as u32;
                }
            }
            s
        }
        "C13" => {
            let n = size(r, &[0, 1, 2, 3, 4, 5, 8, 13, 20], &[33, 65, 130, 200]);
            let p = points(r, n);
            if r.below(1000) == 0 {
                let n = r.pick(&[257, 512, 600, 1025, 1100]);
                let mut rows = vec![0, 1, n / 2, n - 2, n - 1, r.below(n), r.below(n)];
                rows.extend([63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024].iter().filter(|x| **x < n));
                let p = points(r, n);
                let mut s = Scenario::api(prop, vec![Inst::Points(p)], vec![vec![op("ptsr_par", 0, &rows)]]);
                schedule(r, &mut s, 300000.0);
                s.sim.p_acc = s.sim.p_acc.max(500);
                return finish(prop, s);
            }
            let mut s = Scenario::api(prop, vec![Inst::Points(p)], vec![vec![op(if r.chance(85) { "pts_par" } else { "pts_seq" }, 0, &[])]]);
            schedule(r, &mut s, 15000.0);
            s
        }
        "C14" => damaged(r),
        "C15" => {
            let mut s = command(r, "C15", 7);
            let kinds = match r.below(3) {
                0 => 0b1110,              /* only interruptions and short writes */
                1 => 0b1_1111_0000,       /* errors */
                _ => 0b1_1111_1110,
            };
            let rate = r.pick(&[6000, 20000, 65536]);
            s.fault(S_WRITE, rate, r.range(1, 12) as u32, kinds);
            s
        }
        "C19" => {
            let n = sizes(r, &[2, 2, 3, 4, 5, 6, 8, 11, 15], &[30, 45, 60, 60, 80], &[130, 180, 260]);
            let mut s = Scenario::api(prop, vec![], vec![]);
            s.prog = "gen_cli".into();
            s.gen_n = Some(n);
            schedule(r, &mut s, 10000.0);
            s.sim.faults.clear();
            if r.chance(60) {
                let kinds = if r.chance(50) { 0b1110 } else { 0b1_1111_1110 };
                s.fault(S_WRITE, r.pick(&[800, 6000, 30000]), r.range(1, 30) as u32, kinds);
            }
            s
        }
        "C21" => {
            let mut s = command(r, "C21", 7);
            if s.cli.as_ref().unwrap().par != "mpi" {
                s.sim.faults.clear();
            }
            match r.below(4) {
                0 => s.fault(S_TCREATE, r.pick(&[10000, 30000, 65536]), r.range(1, 16) as u32, 0b10),
                1 => s.fault(S_CPU, 65536, r.range(1, 3) as u32, 0b10),
                2 if s.cli.as_ref().unwrap().par != "single-threaded" && r.chance(65) => {
                    s.sim.late = 1;
                    s.fault(S_MALLOC, r.pick(&[150, 400, 1000, 2500, 6000]), r.range(1, 2) as u32, 0b10)
                }
                2 => s.fault(S_MALLOC, r.pick(&[30, 200, 1000, 5000]), r.range(1, 3) as u32, 0b10),
                _ => {
                    s.fault(S_TCREATE, 20000, 4, 0b10);
                    s.fault(S_CPU, 30000, 2, 0b10);
                    s.fault(S_MALLOC, 100, 1, 0b10);
                }
            }
            s
        }
        // ------------------------------------------------------------ MPI
        "C02" | "C03" => {
            let n = sizes(r, &[2, 3, 4, 4, 4, 5, 5, 5, 6], &[6, 7, 7, 8, 9, 10], &[11, 11, 12, 12, 13, 14, 16]);
            let g = if n > 8 { hard(r, n) } else if r.chance(15) { planted(r, n) } else { instance(r, n, any) };
            let (o, algo) = if prop == "C02" { ("static", "v0") } else { ("dynamic", "v1") };
            let mut s = if r.chance(30) {
                Scenario::cli(prop, g, "exact", algo, "mpi", None)
            } else if prop == "C02" && r.chance(25) {
                let p = r.range(1, n.min(4));
                Scenario::api(prop, vec![g], vec![vec![op("staticp", 0, &[p])]])
            } else {
                Scenario::api(prop, vec![g], vec![vec![op(o, 0, &[])]])
            };
            network(r, &mut s, 12);
            if n > 7 {
                s.sim.step_limit = 3_000_000_000;
            }
            s
        }
        "C06" => {
            let n = sizes(r, &[3, 3, 4, 5, 6, 7, 8, 9], &[14, 20, 33], &[66, 130, 200]);
            let g = instance(r, n, any);
            let mut s = if r.chance(35) {
                Scenario::cli(prop, g, "lower-bound", "one-tree", "mpi", None)
            } else {
                let mut s = Scenario::api(prop, vec![g], vec![vec![op("ot_mpi", 0, &[])]]);
                s.hold = r.chance(30);
                s
            };
            network(r, &mut s, 12);
            s
        }
        "C08" => {
            let n = sizes(r, &[1, 2, 3, 4, 5, 6, 7, 9, 13], &[20, 33, 65], &[130, 260, 300]);
            let g = instance(r, n, any);
            let mut s = if r.chance(35) && n > 1 {
                Scenario::cli(prop, g, "approx", "nearest-neighbour", "mpi", None)
            } else {
                let mut s = Scenario::api(prop, vec![g], vec![vec![op("nn_mpi", 0, &[])]]);
                s.hold = r.chance(30);
                s
            };
            network(r, &mut s, 12);
            s
        }
        "C11" if r.below(700) == 0 => {
            let g = big(r, 80.0, 600.0);
            let n = g.n();
            let mut s = match r.below(2) {
                0 => Scenario::api(prop, vec![g], vec![vec![op(["chr_mpi", "chr2_mpi"][r.below(2)], 0, &[])]]),
                _ => {
                    let mut a = vec![r.pick(&[0, 1, 2, 5])];
                    a.extend(even_subset(r, n));
                    Scenario::api(prop, vec![g], vec![vec![op("match_mpi", 0, &a)]])
                }
            };
            network(r, &mut s, 12);
            s
        }
        "C11" => {
            let n = sizes(r, &[2, 3, 4, 5, 6, 7, 8, 10], &[11, 12, 20, 40], &[80]);
            let g = instance(r, n, metric);
            let mut s = match r.below(4) {
                0 => Scenario::cli(prop, g, "approx", "christofides", "mpi", None),
                1 => Scenario::api(prop, vec![g], vec![vec![op(["chr_mpi", "chr2_mpi"][r.below(2)], 0, &[])]]),
                _ => {
                    let v = even_subset(r, n);
                    let mut a = vec![r.pick(&[0, 0, 1, 1, 2, 5, 400])];
                    a.extend(v);
                    Scenario::api(prop, vec![g], vec![vec![op("match_mpi", 0, &a)]])
                }
            };
            network(r, &mut s, 12);
            s
        }
        "C16" | "C17" => {
            let mut s = command(r, prop, 6);
            let c = s.cli.as_mut().unwrap();
            c.par = "mpi".into();
            if c.cmd == "exact" {
                c.algo = ["v0", "v1"][r.below(2)].into();
            }
            s.sim = Sim::default();
            network(r, &mut s, 12);
            if prop == "C17" {
                if s.sim.nranks < 2 {
                    s.sim.nranks = 2;
                }
                s.fault(S_CRASH, r.pick(&[500, 3000, 8000, 20000]), 1, 0b10);
                if r.chance(50) {
                    s.fault(S_DROP, r.pick(&[20000, 65536]), 20, 0b10);
                }
            }
            s
        }
        "C18" => {
            let n = sizes(r, &[3, 4, 5, 6, 7, 8], &[12, 20, 40], &[80]);
            let g = instance(r, n, metric);
            let a = ["nearest-neighbour", "christofides"][r.below(2)];
            let l = ["one-tree", "mst", "mst-queue"][r.below(3)];
            match r.below(5) {
                0 => {
                    let mut s = Scenario::cli(prop, g, "approx", a, "single-threaded", Some(l));
                    schedule(r, &mut s, 50000.0);
                    s
                }
                1 | 2 => {
                    let mut s = Scenario::cli(prop, g, "approx", a, "multi-threaded", Some(l));
                    schedule(r, &mut s, 50000.0);
                    s
                }
                _ => {
                    let mut s = Scenario::cli(prop, g, "approx", a, "mpi", Some(l));
                    network(r, &mut s, 12);
                    s
                }
            }
        }
        x => panic!("no such property: {x}"),
    };
    s.xml_seed = r.next();
    finish(prop, s)
}
fn finish(_prop: &str, mut s: Scenario) -> Scenario {
    if s.insts.iter().map(|g| g.n()).chain(s.gen_n).any(|n| n > 50) {
        s.sim.step_limit = s.sim.step_limit.max(2_000_000_000);
    }
    s
}
/// any command of walky on a metric instance of at most max vertices
fn command(r: &mut Rng, prop: &str, max: usize) -> Scenario {
    let kind = r.below(4);
    /* now and then a document that does not fit into anybody's buffer; not for the exact solvers */
    let n = match r.below(1000) {
        0 if kind > 1 => r.pick(&[130, 200]),
        1..=40 if kind > 1 => r.pick(&[9, 12, 16, 20, 33, 60]),
        _ => r.range(3, max),
    };
    let g = instance(r, n, Kind::Metric);
    let par = match r.below(8) {
        0..=2 => "single-threaded",
        3..=5 => "multi-threaded",
        _ => "mpi",
    };
    let mut s = match kind {
        0 | 1 => {
            let v = if par == "mpi" { r.below(2) } else { r.below(7) };
            Scenario::cli(prop, g, "exact", &format!("v{v}"), par, None)
        }
        2 => {
            let a = ["nearest-neighbour", "christofides"][r.below(2)];
            let l = [None, None, Some("one-tree"), Some("mst"), Some("mst-queue")][r.below(5)];
            Scenario::cli(prop, g, "approx", a, par, l)
        }
        _ => Scenario::cli(prop, g, "lower-bound", ["one-tree", "mst", "mst-queue"][r.below(3)], par, None),
    };
    if par == "mpi" {
        network(r, &mut s, 6);
    } else {
        schedule(r, &mut s, 60000.0);
    }
    s
}
fn damaged(r: &mut Rng) -> Scenario {
    let mut s = command(r, "C14", 6);
    s.xml_seed = r.next();
    let mut b = s.document();
    let mode = r.below(12);
    match mode {
        0..=2 => {} /* the file is fine, reading is not */
        3 => s.missing = true,
        4 => {
            let k = r.below(b.len());
            b.truncate(k);
        }
        5 => {
            for _ in 0..r.range(1, 3) {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
            }
        }
        6 => {
            /* lost block: zeros */
            let k = r.below(b.len());
            let e = (k + r.range(1, 64)).min(b.len());
            b[k..e].fill(0);
        }
        7 => {
            /* lost or repeated block */
            let k = r.below(b.len());
            let e = (k + r.range(1, 120)).min(b.len());
            if r.chance(50) {
                b.drain(k..e);
            } else {
                let c = b[k..e].to_vec();
                b.splice(k..k, c);
            }
        }
        8 | 9 => {
            /* structural damage that leaves well-formed XML */
            let t = String::from_utf8(b.clone()).unwrap();
            let starts: Vec<usize> = t.match_indices("<edge").map(|x| x.0).collect();
            let seg = |i: usize| {
                let e = t[starts[i]..].find("</edge>").unwrap() + 7;
                (starts[i], starts[i] + e)
            };
            let i = r.below(starts.len());
            let (a, e) = seg(i);
            let one = t[a..e].to_string();
            let n = s.insts[0].n();
            let new = match r.below(7) {
                0 => String::new(),
                1 => format!("{one}{one}"),
                2 => {
                    let (p, q) = one.rsplit_once('>').map(|_| (one.find('>').unwrap() + 1, one.rfind("</").unwrap())).unwrap();
                    format!("{}{}{}", &one[..p], r.below(n + 2), &one[q..])
                }
                3 => {
                    let quote = |c: char| c == '"' || c == '\'';
                    let q = one.find(quote).unwrap();
                    let p = one.rfind(quote).unwrap();
                    let c = ["NaN", "inf", "-1", "1e999", "0", "7.25", "", "1,5", " 3"][r.below(9)];
                    format!("{}{}{}", &one[..=q], c, &one[p..])
                }
                4 => {
                    let j = r.below(starts.len());
                    let (x, y) = seg(j);
                    t[x..y].to_string()
                }
                5 => one.replace("cost", "coast"),
                _ => one.replace("</edge>", "0</edge>"),
            };
            b = format!("{}{}{}", &t[..a], new, &t[e..]).into_bytes();
        }
        10 => {
            /* a whole vertex is lost or repeated */
            let t = String::from_utf8(b.clone()).unwrap();
            let starts: Vec<usize> = t.match_indices("<vertex>").map(|x| x.0).collect();
            let i = r.below(starts.len());
            let e = starts[i] + t[starts[i]..].find("</vertex>").unwrap() + 9;
            let one = &t[starts[i]..e];
            b = if r.chance(50) {
                format!("{}{}", &t[..starts[i]], &t[e..])
            } else {
                format!("{}{}{}", &t[..e], one, &t[e..])
            }
            .into_bytes();
        }
        _ => {
            /* asymmetric cost */
            let t = String::from_utf8(b.clone()).unwrap();
            let v: Vec<usize> = t.match_indices("cost=").map(|x| x.0 + 6).collect();
            let k = v[r.below(v.len())];
            b = format!("{}1{}", &t[..k], &t[k..]).into_bytes();
        }
    }
    if mode >= 4 {
        s.raw = Some(hex(&b));
    }
    if s.sim.nranks == 0 && r.chance(8) {
        s.sim.pipe = 1;
        if r.chance(50) {
            return s;
        }
    }
    if mode <= 2 || r.chance(20) {
        let kinds = r.pick(&[0b1110, 0b1110, 0b10010, 0b111110, 0b100110]);
        s.fault(S_READ, r.pick(&[5000, 20000, 60000]), r.range(1, 40) as u32, kinds);
        if r.chance(25) {
            s.fault(S_OPEN, 40000, 3, r.pick(&[0b100000, 0b111110]));
        }
    }
    s
}

#[cfg(test)]
#[test]
fn every_seed_gives_a_scenario() {
    let n: u64 = std::env::var("SEEDS").ok().and_then(|x| x.parse().ok()).unwrap_or(20000);
    std::thread::scope(|s| {
        for p in PROPS {
            s.spawn(move || {
                for i in 0..n {
                    let sc = generate(p, crate::model::mix(i, 99));
                    assert!(sc.files().iter().map(|f| f.1.len()).sum::<usize>() <= crate::shm::FILECAP, "{p} {i}");
                }
            });
        }
    });
}
