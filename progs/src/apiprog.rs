//! Calls the library as described by the scenario in /sim/scenario and prints what it returns.
//! Nothing is judged here: the driver does that.
use std::cell::RefCell;
use std::fmt::Write as _;
use rayon::prelude::*;
use walky::computation_mode::*;
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix, Solution};
use walky::mst::*;
use walky::one_tree::one_tree_lower_bound;
use walky::solvers::approximate::christofides::{christofides, christofides_generic};
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::{n_nearest_neighbour, nearest_neighbour};
use walky::solvers::exact;

extern "C" {
    /// fills an n*n matrix with pseudo random costs (runtime, not instrumented)
    fn sim_fill_matrix(p: *mut f64, n: u64, seed: u64);
}

enum Inst {
    Matrix(NAMatrix),
    Points(Vec<[f64; 2]>),
}
struct Op {
    name: String,
    inst: usize,
    args: Vec<usize>,
}

fn f(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn list(p: &[usize]) -> String {
    p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn sol(s: Solution) -> String {
    format!("{} {}", f(s.0), list(&s.1))
}
fn pairs(m: &[[usize; 2]]) -> String {
    list(&m.iter().flat_map(|e| [e[0], e[1]]).collect::<Vec<_>>())
}
fn graph(g: &Graph) -> String {
    let mut s = String::new();
    for (i, v) in g.iter().enumerate() {
        for e in v.iter() {
            write!(s, "{}-{}:{} ", i, e.to, f(e.cost)).unwrap();
        }
    }
    format!("{} {}", g.num_vertices(), s)
}
fn matrix(m: &NAMatrix) -> String {
    let n = m.dim();
    let mut s = format!("{}", n);
    for i in 0..n {
        for j in 0..n {
            write!(s, " {}", f(m.get(i, j))).unwrap();
        }
    }
    s
}

thread_local! {
    static USED: RefCell<String> = const { RefCell::new(String::new()) };
}
fn odd(mst: &Graph) -> Vec<usize> {
    mst.iter().enumerate().filter(|(_, v)| v.degree() % 2 == 1).map(|(i, _)| i).collect()
}
/// a minimum perfect matching of the odd vertices, by dynamic programming
fn exact_matching(mst: &Graph, g: &NAMatrix) -> Vec<[usize; 2]> {
    let v = odd(mst);
    let k = v.len();
    let mut best = vec![(f64::INFINITY, 0usize); 1 << k];
    best[0] = (0.0, 0);
    for s in 1usize..1 << k {
        if s.count_ones() % 2 == 1 {
            continue;
        }
        let i = s.trailing_zeros() as usize;
        for j in i + 1..k {
            if s >> j & 1 == 1 {
                let r = s & !(1 << i) & !(1 << j);
                let c = best[r].0 + g.get(v[i], v[j]);
                if c < best[s].0 {
                    best[s] = (c, j);
                }
            }
        }
    }
    let mut m = vec![];
    let mut s = (1usize << k) - 1;
    while s != 0 {
        let i = s.trailing_zeros() as usize;
        let j = best[s].1;
        m.push([v[i], v[j]]);
        s &= !(1 << i) & !(1 << j);
    }
    USED.with(|u| *u.borrow_mut() = pairs(&m));
    m
}
fn recorded<const MODE: usize>(mst: &Graph, g: &NAMatrix) -> Vec<[usize; 2]> {
    let v = odd(mst);
    let tries = v.len() * v.len();
    let m = approx_min_cost_matching::<MODE>(g, v, tries);
    USED.with(|u| *u.borrow_mut() = pairs(&m));
    m
}
fn chr<const MODE: usize>(g: &NAMatrix, m: fn(&Graph, &NAMatrix) -> Vec<[usize; 2]>) -> String {
    // a job of a pool may run inside another one's wait
    let outer = USED.take();
    let s = christofides_generic::<MODE>(g, m);
    let used = USED.replace(outer);
    format!("{} {}", sol(s), if used.is_empty() { "-".into() } else { used })
}

#[cfg(feature = "mpi")]
fn mpi_op(name: &str, g: &NAMatrix, a: &[usize]) -> Option<String> {
    use mpi::topology::*;
    use walky::solvers::approximate::matching::{bootstrap_mpi_matching_calc, mpi_improve_matching};
    let worker = || {
        let world = SystemCommunicator::world();
        let root = world.process_at_rank(0);
        let mut tries = 0;
        let none = NAMatrix::from_dim(1);
        let (mut m, g) = bootstrap_mpi_matching_calc(&root, &mut [], world.rank(), &mut tries, &none);
        mpi_improve_matching(&g, m.as_mut_slice(), tries, world);
        pairs(&m)
    };
    Some(match name {
        "static" => sol(exact::static_mpi_solver(g)),
        "staticp" => sol(exact::static_mpi_solver_generic(g, a[0])),
        "dynamic" => sol(exact::dynamic_mpi_solver(g)),
        "ot_mpi" => f(one_tree_lower_bound::<MPI_COMPUTATION>(g)),
        "nn_mpi" => sol(nearest_neighbour::<MPI_COMPUTATION>(g)),
        "mst_mpi" => graph(&prim::<MPI_COMPUTATION>(g)),
        "match_mpi" => {
            let _u = mpi::initialize();
            if SystemCommunicator::world().rank() == 0 {
                pairs(&approx_min_cost_matching::<MPI_COMPUTATION>(g, a[1..].to_vec(), a[0]))
            } else {
                worker()
            }
        }
        "chr_mpi" => {
            let _u = mpi::initialize();
            if SystemCommunicator::world().rank() == 0 {
                chr::<MPI_COMPUTATION>(g, recorded::<MPI_COMPUTATION>)
            } else {
                worker()
            }
        }
        "chr2_mpi" => {
            let _u = mpi::initialize();
            if SystemCommunicator::world().rank() == 0 {
                sol(christofides::<MPI_COMPUTATION>(g))
            } else {
                worker()
            }
        }
        _ => return None,
    })
}
#[cfg(not(feature = "mpi"))]
fn mpi_op(_: &str, _: &NAMatrix, _: &[usize]) -> Option<String> {
    None
}

fn run(op: &Op, insts: &[Inst]) -> String {
    let a = &op.args;
    let g = match &insts[op.inst] {
        Inst::Points(p) => {
            return match &op.name[..] {
                // too big to print: some rows and columns
                "ptsr_par" => {
                    let m = NAMatrix::par_from_points(p);
                    let mut s = format!("{}", m.dim());
                    for &i in &op.args {
                        for j in 0..m.dim() {
                            write!(s, " {} {}", f(m.get(i, j)), f(m.get(j, i))).unwrap();
                        }
                    }
                    s
                }
                "pts_par" => matrix(&NAMatrix::par_from_points(p)),
                "pts_seq" => matrix(&NAMatrix::from_points(p)),
                x => panic!("unknown operation {x}"),
            }
        }
        Inst::Matrix(m) => m,
    };
    match &op.name[..] {
        "v" => sol(match a[0] {
            0 => exact::naive_solver(g),
            1 => exact::first_improved_solver(g),
            2 => exact::second_improved_solver(g),
            3 => exact::third_improved_solver(g),
            4 => exact::fourth_improved_solver(g),
            5 => exact::fifth_improved_solver(g),
            _ => exact::sixth_improved_solver(g),
        }),
        "exact_par" => sol(exact::threaded_solver(g)),
        "mst_par" => graph(&prim_with_excluded_node_multi_threaded(g, a)),
        "mst_seq" => graph(&prim_with_excluded_node_single_threaded(g, a)),
        "mst_pq" => graph(&prim_with_excluded_node_priority_queue(g, a)),
        "mst_par0" => graph(&prim::<PAR_COMPUTATION>(g)),
        "ot_par" => f(one_tree_lower_bound::<PAR_COMPUTATION>(g)),
        "ot_seq" => f(one_tree_lower_bound::<SEQ_COMPUTATION>(g)),
        "nn_par" => sol(nearest_neighbour::<PAR_COMPUTATION>(g)),
        "nn_seq" => sol(nearest_neighbour::<SEQ_COMPUTATION>(g)),
        "nnk_par" => sol(n_nearest_neighbour::<PAR_COMPUTATION>(g, a[0])),
        "nnk_seq" => sol(n_nearest_neighbour::<SEQ_COMPUTATION>(g, a[0])),
        "chr_par" => chr::<PAR_COMPUTATION>(g, recorded::<PAR_COMPUTATION>),
        "chr_seq" => chr::<SEQ_COMPUTATION>(g, recorded::<SEQ_COMPUTATION>),
        "chrx_par" => chr::<PAR_COMPUTATION>(g, exact_matching),
        "chrx_seq" => chr::<SEQ_COMPUTATION>(g, exact_matching),
        "chr2_par" => sol(christofides::<PAR_COMPUTATION>(g)),
        "chr2_seq" => sol(christofides::<SEQ_COMPUTATION>(g)),
        "match_par" => pairs(&approx_min_cost_matching::<PAR_COMPUTATION>(g, a[1..].to_vec(), a[0])),
        "match_seq" => pairs(&approx_min_cost_matching::<SEQ_COMPUTATION>(g, a[1..].to_vec(), a[0])),
        // many vertices without writing them all down: first, count, modulus
        "matchr_par" => pairs(&approx_min_cost_matching::<PAR_COMPUTATION>(g, range(a), a[0])),
        "matchr_seq" => pairs(&approx_min_cost_matching::<SEQ_COMPUTATION>(g, range(a), a[0])),
        x => mpi_op(x, g, a).unwrap_or_else(|| panic!("unknown operation {x}")),
    }
}
fn range(a: &[usize]) -> Vec<usize> {
    (a[1]..a[1] + a[2]).map(|i| i % a[3]).collect()
}

fn main() {
    let text = std::fs::read_to_string("/sim/scenario").expect("scenario");
    let mut insts = vec![];
    let mut threads: Vec<Vec<Op>> = vec![];
    let mut hold = false;
    let mut pool = 0;
    for line in text.lines() {
        let mut t = line.split_ascii_whitespace();
        let Some(head) = t.next() else { continue };
        let num = |s: Option<&str>| s.unwrap().parse::<usize>().unwrap();
        let bits = |s: Option<&str>| f64::from_bits(u64::from_str_radix(s.unwrap(), 16).unwrap());
        match head {
            "I" => {
                let n = num(t.next());
                let mut m = NAMatrix::from_dim(n);
                for i in 0..n {
                    for j in 0..n {
                        m.set(i, j, bits(t.next()));
                    }
                }
                insts.push(Inst::Matrix(m));
            }
            "H" => {
                let n = num(t.next());
                let mut v: Vec<f64> = Vec::with_capacity(n * n);
                // safety: every element is written
                unsafe {
                    sim_fill_matrix(v.as_mut_ptr(), n as u64, num(t.next()) as u64);
                    v.set_len(n * n);
                }
                insts.push(Inst::Matrix(NAMatrix(walky_matrix(n, v))));
            }
            "P" => {
                let n = num(t.next());
                insts.push(Inst::Points((0..n).map(|_| [bits(t.next()), bits(t.next())]).collect()));
            }
            "U" => hold = true,
            "R" => pool = num(t.next()),
            "T" => threads.push(vec![]),
            name => {
                let inst = num(t.next());
                let args = t.map(|x| x.parse().unwrap()).collect();
                threads.last_mut().unwrap().push(Op { name: name.into(), inst, args });
            }
        }
    }
    #[cfg(feature = "mpi")]
    let _universe = if hold { mpi::initialize() } else { None };
    let _ = hold;
    if threads.len() == 1 {
        for (i, op) in threads[0].iter().enumerate() {
            let r = run(op, &insts);
            println!("0.{} {} {} .", i, op.name, r);
        }
        return;
    }
    let insts = &insts;
    let client = |k: usize, ops: &[Op]| {
        let mut o = String::new();
        for (i, op) in ops.iter().enumerate() {
            let r = run(op, insts);
            writeln!(o, "{}.{} {} {} .", k, i, op.name, r).unwrap();
        }
        o
    };
    let client = &client;
    let out: Vec<String> = match pool {
        // the clients are threads
        0 => std::thread::scope(|s| {
            let hs: Vec<_> = threads.iter().enumerate().map(|(k, ops)| s.spawn(move || client(k, ops))).collect();
            hs.into_iter().map(|h| h.join().expect("thread panicked")).collect()
        }),
        // the clients are jobs of the global pool
        1 => threads.par_iter().enumerate().map(|(k, ops)| client(k, ops)).collect(),
        // every client has a pool of its own, with pool-100 threads, the last one excepted
        p if p > 100 => std::thread::scope(|s| {
            let last = threads.len() - 1;
            let hs: Vec<_> = threads
                .iter()
                .enumerate()
                .map(|(k, ops)| {
                    s.spawn(move || {
                        if k == last && last % 2 == 1 {
                            return client(k, ops);
                        }
                        let own = rayon::ThreadPoolBuilder::new().num_threads(p - 100).build().expect("pool");
                        own.install(|| client(k, ops))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread panicked")).collect()
        }),
        // the clients are jobs of a pool of their own, with pool-1 threads
        p => {
            let own = rayon::ThreadPoolBuilder::new().num_threads(p - 1).build().expect("pool");
            own.install(|| threads.par_iter().enumerate().map(|(k, ops)| client(k, ops)).collect())
        }
    };
    print!("{}", out.concat());
}

fn walky_matrix(n: usize, v: Vec<f64>) -> nalgebra::DMatrix<f64> {
    nalgebra::DMatrix::from_vec(n, n, v)
}
