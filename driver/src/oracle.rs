//! Judging one execution.
use crate::exec::*;
use crate::model::*;
use crate::scenario::*;
use crate::shm::*;

#[derive(Clone, Debug)]
pub struct Violation {
    /// class of the violation: minimisation keeps it
    pub kind: String,
    pub msg: String,
}
pub enum Verdict {
    Ok,
    Bad(Violation),
    /// the harness, not the code, is at fault
    Harness(String),
}
type R = Result<(), (String, String)>;

fn bad<T>(kind: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((kind.into(), msg.into()))
}


fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || a == b
}
/// accumulated rounding of the sums involved
fn tol(g: &Inst) -> f64 {
    1e-12 * (1.0 + g.n() as f64) * if g.n() > 400 { 1e6 } else { g.scale().max(1e-300) }
}
fn parse_list(s: &str) -> Option<Vec<usize>> {
    if s.is_empty() {
        return Some(vec![]);
    }
    s.split(',').map(|x| x.trim().parse().ok()).collect()
}
fn parse_bits(s: &str) -> Option<f64> {
    u64::from_str_radix(s, 16).ok().map(f64::from_bits)
}

// ---------------------------------------------------------------- single results
pub fn check_exact(g: &Inst, cost: f64, path: &[usize]) -> R {
    let t = tol(g);
    if !is_perm(path, g.n()) {
        return bad("tour-invalid", format!("{path:?} is not a permutation of the {} vertices", g.n()));
    }
    let len = tour_len(g, path);
    if !near(cost, len, t) {
        return bad("cost-wrong", format!("reported cost {cost} but the tour {path:?} has length {len}"));
    }
    let o = optimum(g);
    if cost > o + t {
        return bad("not-optimal", format!("reported cost {cost} with {path:?}, but the optimum is {o}"));
    }
    Ok(())
}
pub fn check_exact_cost(g: &Inst, cost: f64) -> R {
    let o = optimum(g);
    if !near(cost, o, tol(g)) {
        return bad("not-optimal", format!("reported cost {cost}, but the optimum is {o}"));
    }
    Ok(())
}
/// k: number of start vertices tried; all of them for the full search
pub fn check_nn(g: &Inst, cost: f64, path: &[usize], k: usize) -> R {
    let t = tol(g);
    if !is_perm(path, g.n()) {
        return bad("tour-invalid", format!("{path:?} is not a permutation of the {} vertices", g.n()));
    }
    let len = tour_len(g, path);
    if !near(cost, len, t) {
        return bad("cost-wrong", format!("reported cost {cost} but the tour {path:?} has length {len}"));
    }
    if !is_greedy(g, path) {
        return bad("not-greedy", format!("the tour {path:?} does not always go to a closest unvisited vertex"));
    }
    let mut enough = 0;
    for s in 0..g.n() {
        match greedy_range(g, s) {
            /* too many ties to say */
            None => return Ok(()),
            Some(x) => enough += (x.1 >= cost - t) as usize,
        }
        if enough >= k {
            return Ok(());
        }
    }
    bad(
        "not-minimum",
        format!("cost {cost} with {k} starts, but only {enough} of the {} starts have tours that long", g.n()),
    )
}
pub fn check_one_tree(g: &Inst, b: f64) -> R {
    let want = one_tree_bound(g);
    if !near(b, want, tol(g)) {
        return bad("one-tree-wrong", format!("1-tree bound {b}, should be {want}"));
    }
    if g.n() <= 10 && b > optimum(g) + tol(g) {
        return bad("bound-too-big", format!("1-tree bound {b} exceeds the optimum {}", optimum(g)));
    }
    Ok(())
}
pub fn check_mst_weight(g: &Inst, w: f64) -> R {
    let want = mst_weight(g, &[]);
    if !near(w, want, tol(g)) {
        return bad("mst-wrong", format!("spanning tree weight {w}, should be {want}"));
    }
    Ok(())
}
pub fn check_mst(g: &Inst, excluded: &[usize], n: usize, edges: &[(usize, usize, f64)]) -> R {
    let inc: Vec<usize> = (0..g.n()).filter(|v| !excluded.contains(v)).collect();
    if inc.is_empty() {
        return if edges.is_empty() { Ok(()) } else { bad("mst-invalid", "edges although every vertex is excluded") };
    }
    if n != g.n() {
        return bad("mst-invalid", format!("the tree has {n} vertices instead of {}", g.n()));
    }
    let mut fwd: Vec<(usize, usize, u64)> = edges.iter().map(|e| (e.0, e.1, e.2.to_bits())).collect();
    let mut bwd: Vec<(usize, usize, u64)> = edges.iter().map(|e| (e.1, e.0, e.2.to_bits())).collect();
    fwd.sort();
    bwd.sort();
    if fwd != bwd {
        return bad("mst-invalid", format!("the result is not undirected: {edges:?}"));
    }
    let und: Vec<_> = edges.iter().filter(|e| e.0 < e.1).collect();
    if und.len() * 2 != edges.len() || und.len() + 1 != inc.len() {
        return bad("mst-invalid", format!("{} directed edges for {} vertices: {edges:?}", edges.len(), inc.len()));
    }
    let mut comp: Vec<usize> = (0..g.n()).collect();
    let mut w = 0.0;
    for &&(a, b, c) in &und {
        if a >= g.n() || b >= g.n() || excluded.contains(&a) || excluded.contains(&b) {
            return bad("mst-invalid", format!("edge {a}-{b} touches a vertex that is excluded"));
        }
        if c != g.cost(a, b) {
            return bad("mst-invalid", format!("edge {a}-{b} has cost {c}, in the instance {}", g.cost(a, b)));
        }
        let (x, y) = (comp[a], comp[b]);
        if x == y {
            return bad("mst-invalid", format!("the result contains a cycle: {und:?}"));
        }
        for k in comp.iter_mut() {
            if *k == x {
                *k = y;
            }
        }
        w += c;
    }
    let want = mst_weight(g, excluded);
    if w > want + tol(g) {
        return bad("mst-not-minimal", format!("tree of weight {w}, but {want} is possible"));
    }
    Ok(())
}
pub fn check_matching(g: &Inst, set: &[usize], m: &[usize]) -> R {
    let mut a = set.to_vec();
    let mut b = m.to_vec();
    a.sort();
    b.sort();
    if a != b {
        let show = if m.len() > 40 { &m[..40] } else { m };
        return bad("matching-invalid", format!("{show:?} does not match every one of the {} vertices exactly once", set.len()));
    }
    let _ = g;
    Ok(())
}
fn matching_cost(g: &Inst, m: &[usize]) -> f64 {
    m.chunks(2).map(|e| g.cost(e[0], e[1])).sum()
}
fn check_two_opt(g: &Inst, m: &[usize]) -> R {
    let t = tol(g);
    for i in (0..m.len()).step_by(2) {
        for j in (i + 2..m.len()).step_by(2) {
            let now = g.cost(m[i], m[i + 1]) + g.cost(m[j], m[j + 1]);
            let alt = (g.cost(m[i], m[j]) + g.cost(m[i + 1], m[j + 1])).min(g.cost(m[i], m[j + 1]) + g.cost(m[i + 1], m[j]));
            if alt < now - t {
                return bad(
                    "matching-improvable",
                    format!("pairs {:?} and {:?} cost {now} together, {alt} is possible", &m[i..i + 2], &m[j..j + 2]),
                );
            }
        }
    }
    Ok(())
}
/// path closed: first vertex repeated at the end; used: the matching, if known
pub fn check_christofides(g: &Inst, cost: f64, path: &[usize], used: Option<&[usize]>) -> R {
    let t = tol(g);
    let n = g.n();
    if path.len() != n + 1 || path[0] != path[n] || !is_perm(&path[..n], n) {
        return bad("tour-invalid", format!("{path:?} is not a closed walk that visits every one of {n} vertices once"));
    }
    let len = tour_len(g, &path[..n]);
    if !near(cost, len, t) {
        return bad("cost-wrong", format!("reported weight {cost} but the tour {path:?} has length {len}"));
    }
    check_christofides_cost(g, cost, used)
}
pub fn check_christofides_cost(g: &Inst, cost: f64, used: Option<&[usize]>) -> R {
    let t = tol(g);
    let n = g.n();
    if !is_metric(g) {
        return Ok(());
    }
    let mst = mst_weight(g, &[]);
    if cost < mst - t {
        return bad("weight-too-small", format!("weight {cost} is below the spanning tree weight {mst}"));
    }
    let opt = if n <= 11 { Some(optimum(g)) } else { None };
    if let Some(o) = opt {
        if cost < o - t {
            return bad("weight-too-small", format!("weight {cost} is below the optimum {o}"));
        }
        /* up to five vertices at most four have odd degree, and their matching is a minimum one */
        if n <= 5 && n >= 3 && cost > 1.5 * o + t {
            return bad("guarantee-broken", format!("weight {cost} is more than 1.5 times the optimum {o}"));
        }
    }
    if let Some(m) = used {
        let mc = matching_cost(g, m);
        if cost > mst + mc + t {
            return bad("guarantee-broken", format!("weight {cost} exceeds spanning tree {mst} + matching {mc}"));
        }
        if let Some(o) = opt {
            if m.len() <= 14 && near(mc, min_matching(g, m), t) && cost > 1.5 * o + t {
                return bad("guarantee-broken", format!("weight {cost} is more than 1.5 times the optimum {o}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- output of apiprog
pub struct OpResult<'a> {
    pub op: &'a Op,
    pub tok: Vec<&'a str>,
}
/// the results that were printed completely, in the order of the operations
pub fn api_results<'a>(sc: &'a Scenario, out: &'a str, all: bool) -> Result<Vec<OpResult<'a>>, (String, String)> {
    let mut want = vec![];
    for (k, t) in sc.threads.iter().enumerate() {
        for (i, o) in t.iter().enumerate() {
            want.push((format!("{k}.{i}"), o));
        }
    }
    let mut res = vec![];
    let mut lines: Vec<&str> = out.split_inclusive('\n').collect();
    if let Some(l) = lines.last() {
        if !l.ends_with(" .\n") {
            lines.pop();
        }
    }
    for (i, l) in lines.iter().enumerate() {
        let tok: Vec<&str> = l.trim_end().split(' ').collect();
        if i >= want.len() || tok.len() < 4 || tok[0] != want[i].0 || tok[1] != want[i].1.name {
            return bad("output", format!("unexpected output line {l:?}"));
        }
        res.push(OpResult { op: want[i].1, tok: tok[2..tok.len() - 1].to_vec() });
    }
    if all && res.len() != want.len() {
        return bad("output-incomplete", format!("{} of {} results", res.len(), want.len()));
    }
    Ok(res)
}
pub fn check_op(sc: &Scenario, r: &OpResult, rank: usize) -> R {
    let g = &sc.insts[r.op.inst];
    let a = &r.op.args;
    let name = &r.op.name[..];
    let t = &r.tok;
    let garbled = || (String::from("output"), format!("{name}: {t:?}"));
    let num = |i: usize| t.get(i).and_then(|s| parse_bits(s)).ok_or_else(garbled);
    let lst = |i: usize| t.get(i).and_then(|s| parse_list(s)).ok_or_else(garbled);
    match name {
        "v" | "exact_par" | "static" | "staticp" | "dynamic" => check_exact(g, num(0)?, &lst(1)?),
        "nn_par" | "nn_seq" | "nn_mpi" => check_nn(g, num(0)?, &lst(1)?, g.n()),
        "nnk_par" | "nnk_seq" => check_nn(g, num(0)?, &lst(1)?, a[0]),
        "ot_par" | "ot_seq" => check_one_tree(g, num(0)?),
        "ot_mpi" => {
            if rank == 0 {
                check_one_tree(g, num(0)?)
            } else {
                Ok(())
            }
        }
        "mst_par" | "mst_seq" | "mst_pq" | "mst_par0" | "mst_mpi" => {
            let n: usize = t[0].parse().map_err(|_| garbled())?;
            let mut e = vec![];
            for s in &t[1..] {
                if s.is_empty() {
                    continue;
                }
                let p = |x: Option<&str>| x.and_then(|v| v.parse::<usize>().ok());
                let (ab, c) = s.split_once(':').ok_or_else(garbled)?;
                let (x, y) = ab.split_once('-').ok_or_else(garbled)?;
                e.push((
                    p(Some(x)).ok_or_else(garbled)?,
                    p(Some(y)).ok_or_else(garbled)?,
                    parse_bits(c).ok_or_else(garbled)?,
                ));
            }
            check_mst(g, a, n, &e)
        }
        "match_par" | "match_seq" | "match_mpi" => {
            let m = lst(0)?;
            let set = &a[1..];
            check_matching(g, set, &m)?;
            if a[0] >= 1 && set.len() == 4 {
                let (c, want) = (matching_cost(g, &m), min_matching(g, set));
                if c > want + tol(g) {
                    return bad("matching-not-minimal", format!("four vertices: cost {c}, minimum {want}"));
                }
            }
            if a[0] >= 40 * set.len().max(4) {
                check_two_opt(g, &m)?;
            }
            Ok(())
        }
        "matchr_par" | "matchr_seq" => {
            let set: Vec<usize> = (a[1]..a[1] + a[2]).map(|i| i % a[3]).collect();
            check_matching(g, &set, &lst(0)?)
        }
        "chr_par" | "chr_seq" | "chrx_par" | "chrx_seq" | "chr_mpi" => {
            if name == "chr_mpi" && rank != 0 {
                return Ok(());
            }
            let c = num(0)?;
            if t.get(2) == Some(&"-") {
                return check_christofides(g, c, &lst(1)?, None);
            }
            let used = lst(2)?;
            check_christofides(g, c, &lst(1)?, Some(&used))?;
            let mut seen = used.clone();
            seen.sort();
            seen.dedup();
            if seen.len() != used.len() {
                return bad("matching-invalid", format!("{used:?} matches a vertex twice"));
            }
            Ok(())
        }
        "chr2_par" | "chr2_seq" => check_christofides(g, num(0)?, &lst(1)?, None),
        "chr2_mpi" => {
            if rank == 0 {
                check_christofides(g, num(0)?, &lst(1)?, None)
            } else {
                Ok(())
            }
        }
        "ptsr_par" => {
            let n = g.n();
            if t[0].parse() != Ok(n) || t.len() != 1 + 2 * n * a.len() {
                return bad("matrix-wrong", format!("{} rows for {n} points", t[0]));
            }
            for (k, &i) in a.iter().enumerate() {
                for j in 0..n {
                    let (x, y) = (num(1 + 2 * (k * n + j))?, num(2 + 2 * (k * n + j))?);
                    let want = g.cost(i, j);
                    if (i == j && x != 0.0) || x != y || !((x - want).abs() <= 1e-12 * want.max(1e-300)) {
                        return bad("matrix-wrong", format!("entry ({i},{j}) is {x}, ({j},{i}) is {y}, distance {want}"));
                    }
                }
            }
            Ok(())
        }
        "pts_par" | "pts_seq" => {
            let n: usize = t[0].parse().map_err(|_| garbled())?;
            if n != g.n() || t.len() != 1 + n * n {
                return bad("matrix-wrong", format!("{n} rows for {} points", g.n()));
            }
            for i in 0..n {
                for j in 0..n {
                    let x = num(1 + i * n + j)?;
                    let y = num(1 + j * n + i)?;
                    let want = g.cost(i, j);
                    if (i == j && x != 0.0) || x != y || !((x - want).abs() <= 1e-12 * want.max(1e-300)) {
                        return bad("matrix-wrong", format!("entry ({i},{j}) is {x}, ({j},{i}) is {y}, distance {want}"));
                    }
                }
            }
            Ok(())
        }
        x => bad("output", format!("unknown operation {x}")),
    }
}

// ---------------------------------------------------------------- output of the commands
const EXACT: &[&str] = &["Best Cost: ", "Best Permutation: "];
const NN: &[&str] = &["Nearest Neighbour solution weight: ", "Nearest Neighbour solution: "];
const CHR: &[&str] = &["Christofides solution weight: "];
const OT: &[&str] = &["1-tree lower bound: "];
const MST: &[&str] = &["MST lower bound: "];

fn lb_lines(l: &str) -> &'static [&'static str] {
    if l == "one-tree" {
        OT
    } else {
        MST
    }
}
/// what this process prints if all goes well; the second part only if it wants to
fn expected_lines(c: &Cli, rank: usize) -> (Vec<&'static str>, Vec<&'static str>) {
    let mpi = c.par == "mpi";
    let mut must: Vec<&str> = vec![];
    let mut may: Vec<&str> = vec![];
    match &c.cmd[..] {
        "exact" => must.extend(EXACT),
        "approx" => {
            if c.algo == "nearest-neighbour" {
                must.extend(NN)
            } else if !mpi || rank == 0 {
                must.extend(CHR)
            }
            if let Some(l) = &c.lb {
                if !mpi || rank == 0 {
                    must.extend(lb_lines(l))
                } else {
                    may.extend(lb_lines(l))
                }
            }
        }
        _ => {
            if !mpi || rank == 0 {
                must.extend(lb_lines(&c.algo))
            } else {
                may.extend(lb_lines(&c.algo))
            }
        }
    }
    (must, may)
}
/// Are all the complete lines of this output correct, and (if `all`) is it the whole answer?
pub fn check_cli(c: &Cli, g: &Inst, out: &str, rank: usize, all: bool) -> R {
    let (must, may) = expected_lines(c, rank);
    let mut lines: Vec<&str> = out.split_inclusive('\n').collect();
    let mut partial = "";
    if let Some(l) = lines.last() {
        if !l.ends_with('\n') {
            partial = l;
            lines.pop();
        }
    }
    if all && !partial.is_empty() {
        return bad("output-incomplete", format!("the output ends within a line: {partial:?}"));
    }
    let want: Vec<&str> = must.iter().chain(may.iter()).copied().collect();
    if lines.len() > want.len() {
        return bad("output", format!("more lines than expected: {out:?}"));
    }
    if all && lines.len() != must.len() && lines.len() != want.len() {
        return bad("output-incomplete", format!("{} lines instead of {}: {out:?}", lines.len(), must.len()));
    }
    let mut val = vec![];
    for (l, w) in lines.iter().zip(&want) {
        match l.trim_end_matches('\n').strip_prefix(w) {
            Some(v) => val.push(v),
            None => return bad("output", format!("expected a line {w:?}, got {l:?}")),
        }
    }
    if g.n() < 2 {
        return Ok(());
    }
    let num = |s: &str| s.parse::<f64>().map_err(|_| (String::from("output"), format!("not a number: {s:?}")));
    let lst = |s: &str| {
        s.strip_prefix('[')
            .and_then(|s| s.strip_suffix(']'))
            .and_then(parse_list)
            .ok_or_else(|| (String::from("output"), format!("not a list: {s:?}")))
    };
    let mut bound = None;
    let mut weight = None;
    for (i, v) in val.iter().enumerate() {
        match want[i] {
            "Best Cost: " => check_exact_cost(g, num(v)?)?,
            "Best Permutation: " => check_exact(g, num(val[i - 1])?, &lst(v)?)?,
            "Nearest Neighbour solution weight: " => {
                let w = num(v)?;
                weight = Some(w);
                let r: Option<Vec<(f64, f64)>> = (0..g.n()).map(|s| greedy_range(g, s)).collect();
                if let Some(r) = r {
                    let lo = r.iter().map(|x| x.0).fold(f64::INFINITY, f64::min);
                    let hi = r.iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
                    if w < lo - tol(g) || w > hi + tol(g) {
                        return bad("not-minimum", format!("weight {w}, the best greedy tour has length {lo}..{hi}"));
                    }
                }
            }
            "Nearest Neighbour solution: " => check_nn(g, num(val[i - 1])?, &lst(v)?, g.n())?,
            "Christofides solution weight: " => {
                let w = num(v)?;
                weight = Some(w);
                check_christofides_cost(g, w, None)?;
                if g.n() > 1 && !(w.is_finite()) {
                    return bad("weight-wrong", format!("weight {w}"));
                }
            }
            "1-tree lower bound: " => {
                bound = Some(num(v)?);
                if g.n() >= 3 {
                    check_one_tree(g, num(v)?)?
                }
            }
            "MST lower bound: " => {
                bound = Some(num(v)?);
                check_mst_weight(g, num(v)?)?
            }
            _ => {}
        }
    }
    if let (Some(b), Some(w)) = (bound, weight) {
        if g.n() >= 3 && b > w + tol(g) {
            return bad("bound-too-big", format!("lower bound {b} exceeds the weight {w} of a tour"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the instance generator
fn check_generated(n: usize, out: &str) -> R {
    let g = match parse(out.as_bytes()) {
        Some(g) => g,
        None => return bad("instance-invalid", format!("what the generator printed is not a complete undirected instance: {:.200?}", out)),
    };
    if g.n() != n {
        return bad("instance-invalid", format!("{} vertices instead of {n}", g.n()));
    }
    if !sane(&g) {
        return bad("instance-invalid", "negative or infinite costs");
    }
    if !is_metric(&g) {
        return bad("instance-not-metric", "the triangle inequality does not hold");
    }
    Ok(())
}

// ---------------------------------------------------------------- whole executions
pub fn exited_ok(st: i32) -> bool {
    st == 0
}
fn how(st: i32) -> String {
    if st & 0x7f != 0 {
        format!("killed by signal {}", st & 0x7f)
    } else {
        format!("exit status {}", st >> 8 & 0xff)
    }
}
/// faults after which a program may fail
fn hard_faults(o: &Outcome) -> u64 {
    o.fired_total(S_TCREATE)
        + o.fired_total(S_MALLOC)
        + o.fired_total(S_CPU)
        + o.fired[S_OPEN][1..5].iter().sum::<u64>()
        + o.fired[S_READ][4..6].iter().sum::<u64>()
        + o.fired[S_WRITE][4..9].iter().sum::<u64>()
        + o.fired_total(S_CRASH)
}
/// point-to-point payloads: (source, destination, tag, bytes)
pub fn payloads(o: &Outcome) -> Vec<(usize, usize, i32, Vec<u8>)> {
    let mut v = vec![];
    let mut p = 0;
    let u = |p: usize| u32::from_le_bytes(o.log[p..p + 4].try_into().unwrap());
    while p + 16 <= o.log.len() {
        let len = u(p + 12) as usize;
        if p + 16 + len > o.log.len() {
            break;
        }
        v.push((u(p) as usize, u(p + 4) as usize, u(p + 8) as i32, o.log[p + 16..p + 16 + len].to_vec()));
        p += 16 + len;
    }
    v
}

pub fn judge(sc: &Scenario, o: &Outcome) -> Verdict {
    match judge_(sc, o) {
        Ok(()) => Verdict::Ok,
        Err((k, m)) if k == "harness" => Verdict::Harness(m),
        Err((kind, msg)) => Verdict::Bad(Violation { kind, msg }),
    }
}
fn judge_(sc: &Scenario, o: &Outcome) -> R {
    let p = &sc.prop[..];
    if o.not_judged() {
        return Ok(());
    }
    for v in o.ranks.iter().map(|r| (r.verdict, &r.msg)).chain([(o.verdict, &o.msg)]) {
        if matches!(v.0, V_UNSUPPORTED | V_INTERNAL) {
            return bad("harness", v.1.clone());
        }
    }
    if p == "C12" {
        /* races are looked at by the caller, which can name the places */
        return Ok(());
    }
    if o.timeout {
        return bad("hang", "no end, and no memory access at which to stop");
    }
    for (i, r) in o.ranks.iter().enumerate() {
        match r.verdict {
            V_DEADLOCK => return bad("deadlock", format!("process {i}: {}", r.msg)),
            V_STEPLIMIT => return bad("no-end", format!("process {i}: {}", r.msg)),
            V_MPI => return bad(&format!("mpi-{}", r.msg.split(':').next().unwrap_or("")), format!("process {i}: {}", r.msg)),
            _ => {}
        }
    }
    match o.verdict {
        V_DEADLOCK => return bad("deadlock", o.msg.clone()),
        V_STEPLIMIT => return bad("no-end", o.msg.clone()),
        V_MPI => return bad(&format!("mpi-{}", o.msg.split(':').next().unwrap_or("")), o.msg.clone()),
        _ => {}
    }
    if p == "C14" {
        return judge_damaged(sc, o);
    }
    let hard = hard_faults(o);
    for (i, r) in o.ranks.iter().enumerate() {
        let ok = exited_ok(r.status);
        if !ok && hard == 0 {
            return bad("failed", format!("process {i}: {} without a fault that explains it: {}", how(r.status), r.err.trim()));
        }
        /* after a write fault the lines on the output need not be whole; otherwise every line counts */
        let torn = o.fired_total(S_WRITE) > 0 && !ok;
        if torn && p != "C17" {
            continue;
        }
        if sc.cli.is_some() {
            check_cli(sc.cli.as_ref().unwrap(), &sc.insts[0], &r.out, i, ok).map_err(|e| (e.0, format!("process {i}: {}", e.1)))?;
        } else if let Some(n) = sc.gen_n {
            if ok {
                check_generated(n, &r.out)?;
            }
        } else {
            for x in api_results(sc, &r.out, ok)? {
                check_op(sc, &x, i).map_err(|e| (e.0, format!("process {i}, {}: {}", x.op.name, e.1)))?;
            }
        }
    }
    if sc.is_mpi() && hard == 0 {
        agree(sc, o)?;
    }
    Ok(())
}
/// MPI: every process has the same answer where it should
fn agree(sc: &Scenario, o: &Outcome) -> R {
    if let Some(c) = &sc.cli {
        if c.cmd == "exact" || c.algo == "nearest-neighbour" {
            for (i, r) in o.ranks.iter().enumerate() {
                let f = |s: &str| s.lines().take(2).map(|l| l.to_string()).collect::<Vec<_>>();
                if f(&r.out) != f(&o.ranks[0].out) {
                    return bad("disagree", format!("process 0 printed {:?}, process {i} {:?}", o.ranks[0].out, r.out));
                }
            }
        }
        return Ok(());
    }
    let all: Vec<Vec<OpResult>> =
        o.ranks.iter().map(|r| api_results(sc, &r.out, true)).collect::<Result<_, _>>()?;
    for k in 0..all[0].len() {
        let op = all[0][k].op;
        match &op.name[..] {
            "static" | "staticp" | "dynamic" | "nn_mpi" => {
                for (i, r) in all.iter().enumerate() {
                    if r[k].tok != all[0][k].tok {
                        return bad("disagree", format!("process 0 returned {:?}, process {i} {:?}", all[0][k].tok, r[k].tok));
                    }
                }
            }
            "match_mpi" => {
                let norm = |t: &str| {
                    let l = parse_list(t).unwrap_or_default();
                    let mut v: Vec<(usize, usize)> =
                        l.chunks(2).filter(|e| e.len() == 2).map(|e| (e[0].min(e[1]), e[0].max(e[1]))).collect();
                    v.sort();
                    v
                };
                for (i, r) in all.iter().enumerate() {
                    if norm(r[k].tok[0]) != norm(all[0][k].tok[0]) {
                        return bad("disagree", format!("process 0 has {:?}, process {i} {:?}", all[0][k].tok, r[k].tok));
                    }
                }
                let g = &sc.insts[op.inst];
                let got = matching_cost(g, &parse_list(all[0][k].tok[0]).unwrap_or_default());
                let mut set = op.args[1..].to_vec();
                set.sort();
                for (src, _, _, b) in payloads(o) {
                    let m: Vec<usize> =
                        b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize).collect();
                    let mut s = m.clone();
                    s.sort();
                    if s == set && b.len() == set.len() * 8 && !set.is_empty() {
                        let c = matching_cost(g, &m);
                        if c < got - tol(g) {
                            return bad(
                                "better-matching-lost",
                                format!("process {src} sent a matching of cost {c}, the result costs {got}"),
                            );
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn judge_damaged(sc: &Scenario, o: &Outcome) -> R {
    let c = sc.cli.as_ref().unwrap();
    let doc = sc.document();
    let eof = o.fired[S_READ][5] > 0;
    let inst = if sc.missing { None } else { parse(&doc) };
    let hard = hard_faults(o);
    for (i, r) in o.ranks.iter().enumerate() {
        let ok = exited_ok(r.status);
        if let Some(g) = &inst {
            if !sane(g) || g.n() < 3 || (g.n() > 10 && c.cmd == "exact") {
                continue;
            }
            if !ok && hard == 0 {
                return bad("failed", format!("process {i}: {} without a fault that explains it: {}", how(r.status), r.err.trim()));
            }
            if !eof {
                check_cli(c, g, &r.out, i, ok).map_err(|e| (e.0, format!("process {i}: {}", e.1)))?;
                continue;
            }
        }
        if inst.is_none() || eof {
            /* a prefix of a document is never a document: the answer would be an invention */
            if eof && inst.is_some() && ok {
                /* unless nothing was missing */
                if let Some(g) = &inst {
                    check_cli(c, g, &r.out, i, true).map_err(|e| ("success-on-truncated".to_string(), format!("process {i}: {}", e.1)))?;
                }
                continue;
            }
            if ok {
                return bad("success-on-damaged", format!("process {i}: success and {:?} although the input is not an instance", r.out));
            }
            if !r.out.is_empty() && inst.is_none() {
                return bad("answer-on-damaged", format!("process {i}: printed {:?} although the input is not an instance", r.out));
            }
        }
    }
    Ok(())
}
