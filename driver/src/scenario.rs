//! What one simulated run does; written to the replay file as it is.
use crate::model::*;
use crate::shm::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub name: String,
    pub inst: usize,
    #[serde(default)]
    pub args: Vec<usize>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cli {
    pub cmd: String,
    pub algo: String,
    pub par: String,
    pub lb: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Sim {
    pub seed: u64,
    pub rng_seed: u64,
    pub ncpu: u32,
    /// 0: an ordinary program; else an MPI job of that many processes
    pub nranks: u32,
    pub policy: u32,
    pub p_sync: u32,
    pub p_acc: u32,
    pub pct_depth: u32,
    pub pct_len: u64,
    pub step_limit: u64,
    pub fair_after: u64,
    pub race: u32,
    pub mpi_policy: u32,
    pub mpi_flags: u32,
    /// the user's RAYON_NUM_THREADS; 0: not set
    #[serde(default)]
    pub rayon_threads: u32,
    /// MPI: machines with different numbers of CPUs
    #[serde(default)]
    pub cpu_vary: u32,
    /// the input comes through a pipe
    #[serde(default)]
    pub pipe: u32,
    /// memory runs out only once threads or MPI are in use
    #[serde(default)]
    pub late: u32,
    /// (stream, rate of 65536, budget, mask of allowed values)
    pub faults: Vec<(usize, u32, u32, u32)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub prog: String,
    pub insts: Vec<Inst>,
    #[serde(default)]
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub hold: bool,
    /// clients are threads (0), jobs of the global pool (1), or of a pool with that many threads less one,
    /// or each client has a pool of its own with that many threads less 100
    #[serde(default)]
    pub pool: u32,
    #[serde(default)]
    pub cli: Option<Cli>,
    /// size given to the instance generator
    #[serde(default)]
    pub gen_n: Option<usize>,
    /// the input file if it is not simply the instance, in hexadecimal
    #[serde(default)]
    pub raw: Option<String>,
    #[serde(default)]
    pub missing: bool,
    #[serde(default)]
    pub xml_seed: u64,
    pub sim: Sim,
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
impl Scenario {
    pub fn api(prop: &str, insts: Vec<Inst>, threads: Vec<Vec<Op>>) -> Scenario {
        Scenario {
            prop: prop.into(),
            prog: "apiprog".into(),
            insts,
            threads,
            hold: false,
            pool: 0,
            cli: None,
            gen_n: None,
            raw: None,
            missing: false,
            xml_seed: 0,
            sim: Sim::default(),
        }
    }
    pub fn cli(prop: &str, inst: Inst, cmd: &str, algo: &str, par: &str, lb: Option<&str>) -> Scenario {
        let mut s = Scenario::api(prop, vec![inst], vec![]);
        s.prog = "walky_cli".into();
        s.cli = Some(Cli { cmd: cmd.into(), algo: algo.into(), par: par.into(), lb: lb.map(|x| x.into()) });
        s
    }
    /// the content of the input file
    pub fn document(&self) -> Vec<u8> {
        match &self.raw {
            Some(h) => unhex(h),
            None => xml(&self.insts[0], &mut Rng::new(self.xml_seed, 5)).into_bytes(),
        }
    }
    pub fn files(&self) -> Vec<(String, Vec<u8>)> {
        if self.cli.is_some() {
            return if self.missing { vec![] } else { vec![("/sim/in.xml".into(), self.document())] };
        }
        if self.gen_n.is_some() {
            return vec![];
        }
        let mut s = String::new();
        for g in &self.insts {
            match g {
                Inst::Matrix { n, c } => {
                    s += &format!("I {n}");
                    for x in c {
                        s += &format!(" {:x}", x.to_bits());
                    }
                    s += "\n";
                }
                Inst::Points(p) => {
                    s += &format!("P {}", p.len());
                    for q in p {
                        s += &format!(" {:x} {:x}", q[0].to_bits(), q[1].to_bits());
                    }
                    s += "\n";
                }
                Inst::Hashed { n, seed } => s += &format!("H {n} {seed}\n"),
            }
        }
        if self.hold {
            s += "U\n";
        }
        if self.pool > 0 {
            s += &format!("R {}\n", self.pool);
        }
        for t in &self.threads {
            s += "T\n";
            for o in t {
                s += &format!("{} {}", o.name, o.inst);
                for a in &o.args {
                    s += &format!(" {a}");
                }
                s += "\n";
            }
        }
        vec![("/sim/scenario".into(), s.into_bytes())]
    }
    pub fn args(&self) -> Vec<String> {
        if let Some(c) = &self.cli {
            let mut a = vec![c.cmd.clone(), c.algo.clone(), "/sim/in.xml".into(), "--parallelism".into(), c.par.clone()];
            if let Some(l) = &c.lb {
                a.push("--lower-bound".into());
                a.push(l.clone());
            }
            return a;
        }
        if let Some(n) = self.gen_n {
            return vec![n.to_string()];
        }
        vec![]
    }
    pub fn is_mpi(&self) -> bool {
        self.sim.nranks > 0
    }
    pub fn fault(&mut self, stream: usize, rate: u32, budget: u32, kinds: u32) {
        self.sim.faults.push((stream, rate, budget, kinds));
    }
}

/// one line for people
pub fn describe(s: &Scenario) -> String {
    let what = if let Some(c) = &s.cli {
        format!("{} {} -p {}{}", c.cmd, c.algo, c.par, c.lb.as_ref().map(|l| format!(" -l {l}")).unwrap_or_default())
    } else if let Some(n) = s.gen_n {
        format!("gen_matrix_fast {n}")
    } else {
        s.threads
            .iter()
            .map(|t| t.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join("; "))
            .collect::<Vec<_>>()
            .join(" || ")
    };
    let pol = ["none", "random", "pct", "starve", "round-robin", "stall"][s.sim.policy as usize % 6];
    let mut d = format!(
        "{}: {} on {} vertices, {} CPUs, scheduling {} (seed {:#x})",
        s.prog,
        what,
        s.insts.iter().map(|g| g.n().to_string()).collect::<Vec<_>>().join("/"),
        s.sim.ncpu,
        pol,
        s.sim.seed
    );
    if s.sim.nranks > 0 {
        d += &format!(", {} processes, network policy {}", s.sim.nranks, s.sim.mpi_policy);
    }
    if s.sim.rayon_threads > 0 {
        d += &format!(", RAYON_NUM_THREADS={}", s.sim.rayon_threads);
    }
    if s.sim.pipe > 0 {
        d += ", input from a pipe";
    }
    if s.sim.cpu_vary > 0 {
        d += ", machines that differ";
    }
    for f in &s.sim.faults {
        d += &format!(", {} faults", STREAM_NAMES[f.0]);
    }
    d
}
