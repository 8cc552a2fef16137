//! Minimising a failing run: first the scenario, then the decisions.
use crate::model::*;
use crate::oracle::*;
use crate::scenario::*;
use crate::search::*;
use crate::shm::*;
use std::time::{Duration, Instant};

struct Ctx<'a> {
    lab: &'a mut Lab,
    kind: String,
    end: Instant,
    steps: u64,
}
impl Ctx<'_> {
    fn fails(&mut self, sc: &Scenario, decs: Option<&[Dec]>) -> Option<(Vec<Dec>, Violation)> {
        self.steps += 1;
        match self.lab.run(sc, decs) {
            Ok((o, Verdict::Bad(v))) if v.kind == self.kind => Some((o.decs, v)),
            _ => None,
        }
    }
    fn late(&self) -> bool {
        Instant::now() >= self.end
    }
    /// does some execution of this smaller scenario fail?
    fn search(&mut self, sc: &Scenario, decs: &[Dec], tries: u64) -> Option<(Scenario, Vec<Dec>, Violation)> {
        if let Some((d, v)) = self.fails(sc, Some(&[])) {
            return Some((sc.clone(), d, v));
        }
        if let Some((d, v)) = self.fails(sc, Some(decs)) {
            return Some((sc.clone(), d, v));
        }
        for k in 0..tries {
            if self.late() {
                return None;
            }
            let mut s = sc.clone();
            if k > 0 {
                s.sim.seed = mix(sc.sim.seed, k);
                s.sim.rng_seed = mix(sc.sim.rng_seed, k);
            }
            if let Some((d, v)) = self.fails(&s, None) {
                return Some((s, d, v));
            }
        }
        None
    }
}

fn smaller(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    /* fewer processes, CPUs, kinds of faults */
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut s = sc.clone();
        f(&mut s);
        if s != *sc {
            v.push(s);
        }
    };
    if sc.sim.nranks > 2 {
        push(&|s| s.sim.nranks = 2);
        push(&|s| s.sim.nranks -= 1);
    }
    if sc.sim.ncpu > 2 {
        push(&|s| s.sim.ncpu = 2);
        push(&|s| s.sim.ncpu -= 1);
    }
    if sc.sim.rayon_threads > 0 {
        push(&|s| s.sim.rayon_threads = 0);
    }
    if sc.sim.pipe > 0 {
        push(&|s| s.sim.pipe = 0);
    }
    if sc.sim.cpu_vary > 0 {
        push(&|s| s.sim.cpu_vary = 0);
    }
    for k in 0..sc.sim.faults.len() {
        push(&|s| {
            s.sim.faults.remove(k);
        });
    }
    push(&|s| s.hold = false);
    push(&|s| s.pool = 0);
    push(&|s| {
        if let Some(c) = &mut s.cli {
            c.lb = None
        }
    });
    if sc.threads.len() > 1 {
        for k in 0..sc.threads.len() {
            push(&|s| {
                s.threads.remove(k);
            });
        }
    }
    for k in 0..sc.threads.len() {
        if sc.threads[k].len() > 1 {
            for j in 0..sc.threads[k].len() {
                push(&|s| {
                    s.threads[k].remove(j);
                });
            }
        }
    }
    if let Some(n) = sc.gen_n {
        if n > 2 {
            push(&|s| s.gen_n = Some(n - 1));
        }
    }
    /* fewer vertices */
    for (i, g) in sc.insts.iter().enumerate() {
        let used: Vec<&Op> = sc.threads.iter().flatten().filter(|o| o.inst == i).collect();
        if g.n() <= 3 || g.n() > 60 || sc.raw.is_some() {
            continue;
        }
        for x in (0..g.n()).rev() {
            /* operations that name vertices: only unnamed ones can go */
            let named = used.iter().any(|o| {
                let from = if o.name.starts_with("mst") { 0 } else { 1 };
                (o.name.starts_with("mst") || o.name.starts_with("match")) && o.args[from.min(o.args.len())..].contains(&x)
            });
            if named {
                continue;
            }
            push(&|s| {
                s.insts[i] = s.insts[i].without(x);
                for o in s.threads.iter_mut().flatten().filter(|o| o.inst == i) {
                    let from = match &o.name[..] {
                        n if n.starts_with("mst") => 0,
                        n if n.starts_with("match_") => 1,
                        n if n.starts_with("nnk") => {
                            o.args[0] = o.args[0].min(s.insts[i].n());
                            continue;
                        }
                        _ => continue,
                    };
                    for a in o.args[from..].iter_mut() {
                        if *a > x {
                            *a -= 1;
                        }
                    }
                }
            });
        }
        /* rounder costs */
        if let Inst::Matrix { c, .. } = g {
            if c.iter().any(|x| x.fract() != 0.0) {
                push(&|s| {
                    if let Inst::Matrix { c, .. } = &mut s.insts[i] {
                        for x in c.iter_mut() {
                            *x = x.round();
                        }
                    }
                });
            }
        }
    }
    /* fewer arguments */
    for k in 0..sc.threads.len() {
        for j in 0..sc.threads[k].len() {
            let o = &sc.threads[k][j];
            if o.name.starts_with("match_") && o.args.len() > 3 {
                push(&|s| {
                    let l = s.threads[k][j].args.len();
                    s.threads[k][j].args.truncate(l - 2);
                });
            }
            if o.name.starts_with("mst") && !o.args.is_empty() {
                push(&|s| {
                    s.threads[k][j].args.pop();
                });
            }
            if o.name.starts_with("match_") && o.args[0] > 1 {
                push(&|s| s.threads[k][j].args[0] /= 2);
            }
        }
    }
    v
}

pub fn minimise(
    lab: &mut Lab,
    _cfg: &Config,
    sc: &Scenario,
    decs: &[Dec],
    v: &Violation,
    budget: Duration,
) -> Option<(Scenario, Vec<Dec>, Violation, u64)> {
    let mut c = Ctx { lab, kind: v.kind.clone(), end: Instant::now() + budget, steps: 0 };
    let mut sc = sc.clone();
    let (mut decs, mut v) = match c.fails(&sc, Some(decs)) {
        Some(x) => x,
        None => c.fails(&sc, None)?,
    };
    let half = Instant::now() + budget / 2;
    'outer: loop {
        for s in smaller(&sc) {
            if c.late() || Instant::now() > half {
                break 'outer;
            }
            if let Some((s2, d2, v2)) = c.search(&s, &decs, 12) {
                sc = s2;
                decs = d2;
                v = v2;
                continue 'outer;
            }
        }
        break;
    }
    /* without any decision; then whole streams; then pieces */
    if let Some((_, v2)) = c.fails(&sc, Some(&[])) {
        return Some((sc, vec![], v2, c.steps));
    }
    for s in 0..NSTREAMS as u32 {
        let d: Vec<Dec> = decs.iter().copied().filter(|x| x.stream != s).collect();
        if d.len() < decs.len() && !c.late() {
            if let Some((_, v2)) = c.fails(&sc, Some(&d)) {
                decs = d;
                v = v2;
            }
        }
    }
    /* everything after some point */
    let mut parts = 2usize;
    while decs.len() >= 2 && !c.late() {
        let size = decs.len().div_ceil(parts);
        let mut cut = false;
        let mut k = decs.len();
        while k > 0 && !c.late() {
            let lo = k.saturating_sub(size);
            let mut d = decs.clone();
            d.drain(lo..k);
            if let Some((_, v2)) = c.fails(&sc, Some(&d)) {
                decs = d;
                v = v2;
                cut = true;
            }
            k = lo;
        }
        if cut {
            parts = 2.max(parts - 1);
        } else if size == 1 {
            break;
        } else {
            parts = (parts * 2).min(decs.len());
        }
    }
    if decs.len() == 1 && !c.late() {
        if let Some((_, v2)) = c.fails(&sc, Some(&[])) {
            decs.clear();
            v = v2;
        }
    }
    /* what the violation is in the end */
    if let Some((_, v2)) = c.fails(&sc, Some(&decs)) {
        v = v2;
    }
    Some((sc, decs, v, c.steps))
}
