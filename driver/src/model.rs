//! Instances and small reference computations; independent of the code under test.
use serde::{Deserialize, Serialize};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        Rng(mix(a, b))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn log_uniform(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + self.unit() * (hi.ln() - lo.ln())).exp()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).next()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Inst {
    Matrix { n: usize, c: Vec<f64> },
    Points(Vec<[f64; 2]>),
    /// too big to write down: costs computed from a seed, see sim_fill_matrix
    Hashed { n: usize, seed: u64 },
}
impl Inst {
    pub fn n(&self) -> usize {
        match self {
            Inst::Matrix { n, .. } | Inst::Hashed { n, .. } => *n,
            Inst::Points(p) => p.len(),
        }
    }
    pub fn cost(&self, i: usize, j: usize) -> f64 {
        match self {
            Inst::Matrix { n, c } => c[i * n + j],
            Inst::Points(p) => dist(p[i], p[j]),
            Inst::Hashed { n, seed } => {
                if i == j {
                    0.0
                } else {
                    let (a, b) = (i.min(j), i.max(j));
                    let base = if seed % 2 == 1 { 1000 } else { 1_000_000 };
                    (base + mix(*seed, (a * n + b) as u64) % (base + 1)) as f64
                }
            }
        }
    }
    pub fn scale(&self) -> f64 {
        let mut s: f64 = 0.0;
        for i in 0..self.n() {
            for j in 0..self.n() {
                s = s.max(self.cost(i, j));
            }
        }
        s
    }
    pub fn without(&self, v: usize) -> Inst {
        match self {
            Inst::Matrix { n, c } => {
                let mut d = vec![];
                for i in 0..*n {
                    for j in 0..*n {
                        if i != v && j != v {
                            d.push(c[i * n + j]);
                        }
                    }
                }
                Inst::Matrix { n: n - 1, c: d }
            }
            Inst::Points(p) => {
                let mut p = p.clone();
                p.remove(v);
                Inst::Points(p)
            }
            x => x.clone(),
        }
    }
}
pub fn dist(a: [f64; 2], b: [f64; 2]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt()
}

pub fn tour_len(g: &Inst, t: &[usize]) -> f64 {
    let mut s = 0.0;
    for i in 0..t.len() {
        s += g.cost(t[i], t[(i + 1) % t.len()]);
    }
    s
}
pub fn is_perm(t: &[usize], n: usize) -> bool {
    let mut seen = vec![false; n];
    t.len() == n && t.iter().all(|&v| v < n && !std::mem::replace(&mut seen[v], true))
}
/// length of an optimal tour
pub fn optimum(g: &Inst) -> f64 {
    let n = g.n();
    if n <= 1 {
        return 0.0;
    }
    assert!(n <= 18);
    let m = n - 1;
    let full = 1usize << m;
    let mut d = vec![f64::INFINITY; full * m];
    for j in 0..m {
        d[(1 << j) * m + j] = g.cost(m, j);
    }
    for s in 1..full {
        for j in 0..m {
            let c = d[s * m + j];
            if s >> j & 1 == 0 || c == f64::INFINITY {
                continue;
            }
            for k in 0..m {
                if s >> k & 1 == 0 {
                    let t = (s | 1 << k) * m + k;
                    let v = c + g.cost(j, k);
                    if v < d[t] {
                        d[t] = v;
                    }
                }
            }
        }
    }
    (0..m).map(|j| d[(full - 1) * m + j] + g.cost(j, m)).fold(f64::INFINITY, f64::min)
}
/// weight of a minimum spanning tree of the vertices that are not excluded
pub fn mst_weight(g: &Inst, excluded: &[usize]) -> f64 {
    let v: Vec<usize> = (0..g.n()).filter(|i| !excluded.contains(i)).collect();
    if v.is_empty() {
        return 0.0;
    }
    let mut edges = vec![];
    for (a, &i) in v.iter().enumerate() {
        for &j in &v[a + 1..] {
            edges.push((g.cost(i, j), i, j));
        }
    }
    edges.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut root: Vec<usize> = (0..g.n()).collect();
    fn find(r: &mut [usize], mut x: usize) -> usize {
        while r[x] != x {
            r[x] = r[r[x]];
            x = r[x];
        }
        x
    }
    let mut w = 0.0;
    for (c, i, j) in edges {
        let (a, b) = (find(&mut root, i), find(&mut root, j));
        if a != b {
            root[a] = b;
            w += c;
        }
    }
    w
}
pub fn one_tree_bound(g: &Inst) -> f64 {
    (0..g.n())
        .map(|v| {
            let mut c: Vec<f64> = (0..g.n()).filter(|&j| j != v).map(|j| g.cost(v, j)).collect();
            c.sort_by(|a, b| a.total_cmp(b));
            mst_weight(g, &[v]) + c[0] + c[1]
        })
        .fold(f64::NEG_INFINITY, f64::max)
}
/// Is the tour greedy: does each step go to a closest unvisited vertex?
pub fn is_greedy(g: &Inst, t: &[usize]) -> bool {
    (0..t.len() - 1).all(|i| {
        let c = g.cost(t[i], t[i + 1]);
        t[i + 1..].iter().all(|&v| c <= g.cost(t[i], v))
    })
}
/// shortest and longest greedy tour from a start (they differ if there are ties);
/// None if there are too many to say
pub fn greedy_range(g: &Inst, start: usize) -> Option<(f64, f64)> {
    fn rec(g: &Inst, at: usize, start: usize, left: &mut Vec<usize>, len: f64, r: &mut (f64, f64), fuel: &mut u32) {
        if *fuel == 0 {
            return;
        }
        *fuel -= 1;
        if left.is_empty() {
            let l = len + g.cost(at, start);
            r.0 = r.0.min(l);
            r.1 = r.1.max(l);
            return;
        }
        let m = left.iter().map(|&v| g.cost(at, v)).fold(f64::INFINITY, f64::min);
        for i in 0..left.len() {
            let v = left[i];
            if g.cost(at, v) == m {
                left.swap_remove(i);
                rec(g, v, start, left, len + m, r, fuel);
                left.push(v);
                let e = left.len() - 1;
                left.swap(i, e);
            }
        }
    }
    let mut left: Vec<usize> = (0..g.n()).filter(|&v| v != start).collect();
    let mut r = (f64::INFINITY, f64::NEG_INFINITY);
    let mut fuel = 20000;
    rec(g, start, start, &mut left, 0.0, &mut r, &mut fuel);
    if fuel == 0 {
        None
    } else {
        Some(r)
    }
}
/// cost of a minimum perfect matching of the given vertices
pub fn min_matching(g: &Inst, v: &[usize]) -> f64 {
    let k = v.len();
    assert!(k % 2 == 0 && k <= 16);
    let mut b = vec![f64::INFINITY; 1 << k];
    b[0] = 0.0;
    for s in 1usize..1 << k {
        if s.count_ones() % 2 == 1 {
            continue;
        }
        let i = s.trailing_zeros() as usize;
        for j in i + 1..k {
            if s >> j & 1 == 1 {
                let c = b[s & !(1 << i) & !(1 << j)] + g.cost(v[i], v[j]);
                if c < b[s] {
                    b[s] = c;
                }
            }
        }
    }
    b[(1 << k) - 1]
}

// ------------------------------------------------------------------ making instances
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Any,
    Metric,
}
pub fn points(r: &mut Rng, n: usize) -> Vec<[f64; 2]> {
    let kind = r.below(6);
    let off = r.pick(&[1e3, 1e5, 1e7]);
    let cl: Vec<[f64; 2]> = (0..3).map(|_| [r.unit() * 100.0, r.unit() * 100.0]).collect();
    (0..n)
        .map(|_| match kind {
            0 | 1 => [r.unit() * 20.0 - 10.0, r.unit() * 20.0 - 10.0],
            2 => [r.below(4) as f64, r.below(4) as f64],
            3 => {
                let c = cl[r.below(3)];
                [c[0] + r.unit(), c[1] + r.unit()]
            }
            4 => [off + r.unit(), -off + r.unit()],
            _ => [r.below(30) as f64 * 7.0, 0.0],
        })
        .collect()
}
/// One cheap tour. Its vertices are named so that it does not start in some stretches of the ordered
/// space of tours, where possible: who searches such a stretch never meets the optimum.
pub fn planted(r: &mut Rng, n: usize) -> Inst {
    let mut t: Vec<usize> = (0..n).collect();
    for _ in 0..400 {
        r.shuffle(&mut t);
        let nb = |v: usize| {
            let p = t.iter().position(|&x| x == v).unwrap();
            [t[(p + 1) % n], t[(p + n - 1) % n]]
        };
        if (1..n.saturating_sub(2)).any(|a| nb(a).iter().all(|&x| x < a) && nb(a + 1).iter().all(|&x| x > a + 1)) {
            break;
        }
    }
    let mut c = vec![0.0; n * n];
    let base = if n > 8 { r.pick(&[40, 100]) } else { r.pick(&[3, 12, 40, 100, 100]) };
    for i in 0..n {
        for j in 0..i {
            let x = (base + r.below(30)) as f64;
            c[i * n + j] = x;
            c[j * n + i] = x;
        }
    }
    for k in 0..n {
        let (i, j) = (t[k], t[(k + 1) % n]);
        let x = 1.0 + r.below(5) as f64;
        if i != j {
            c[i * n + j] = x;
            c[j * n + i] = x;
        }
    }
    Inst::Matrix { n, c }
}
/// Costs of very different orders of magnitude: a lower bound decides early
pub fn graded(r: &mut Rng, n: usize) -> Inst {
    let mut c = vec![0.0; n * n];
    let top = r.pick(&[6.0, 12.0, 20.0]);
    for i in 0..n {
        for j in 0..i {
            let x = (2.0 + top * r.unit()).exp().floor();
            c[i * n + j] = x;
            c[j * n + i] = x;
        }
    }
    Inst::Matrix { n, c }
}
pub fn instance(r: &mut Rng, n: usize, kind: Kind) -> Inst {
    let mut c = vec![0.0; n * n];
    let style = if kind == Kind::Metric { 10 + r.below(7) } else { r.below(20) };
    let fine = r.pick(&[1e-9, 1e-8, 1e-6, 1e-4]);
    let coarse = r.pick(&[1.0, 7.0, 1000.0, 1e6]);
    let mut set = |i: usize, j: usize, x: f64| {
        c[i * n + j] = x;
        c[j * n + i] = x;
    };
    match style {
        10 | 11 | 12 => {
            let p = points(r, n);
            for i in 0..n {
                for j in 0..i {
                    set(i, j, dist(p[i], p[j]));
                }
            }
        }
        13 => {
            /* one or two: always metric */
            for i in 0..n {
                for j in 0..i {
                    set(i, j, 1.0 + r.below(2) as f64);
                }
            }
        }
        14 => {
            /* taxi distances on a grid: many ties */
            let p: Vec<(i64, i64)> = (0..n).map(|_| (r.below(6) as i64, r.below(6) as i64)).collect();
            for i in 0..n {
                for j in 0..i {
                    set(i, j, ((p[i].0 - p[j].0).abs() + (p[i].1 - p[j].1).abs()) as f64);
                }
            }
        }
        16 => {
            /* nearly equal distances: always metric */
            for i in 0..n {
                for j in 0..i {
                    set(i, j, coarse * (1.0 + r.below(2000) as f64 * fine * 1e-3));
                }
            }
        }
        15 => {
            /* shortest paths in a random graph */
            let mut d = vec![0i64; n * n];
            for i in 0..n {
                for j in 0..i {
                    let x = 1 + r.below(60) as i64;
                    d[i * n + j] = x;
                    d[j * n + i] = x;
                }
            }
            for k in 0..n {
                for i in 0..n {
                    for j in 0..n {
                        let x = d[i * n + k] + d[k * n + j];
                        if x < d[i * n + j] {
                            d[i * n + j] = x;
                        }
                    }
                }
            }
            for i in 0..n {
                for j in 0..i {
                    set(i, j, d[i * n + j] as f64);
                }
            }
        }
        _ => {
            let hub = r.below(n.max(1));
            let planted: Vec<usize> = {
                let mut v: Vec<usize> = (0..n).collect();
                r.shuffle(&mut v);
                v
            };
            for i in 0..n {
                for j in 0..i {
                    let x = match style {
                        0 | 1 => r.unit() * 20.0,
                        2 => r.below(4) as f64,
                        3 => (1 + r.below(30)) as f64,
                        4 => 1.0,
                        5 => {
                            if r.chance(30) {
                                0.0
                            } else {
                                r.unit()
                            }
                        }
                        6 => {
                            /* expensive outliers */
                            if r.chance(25) {
                                1e6 * (1.0 + r.unit())
                            } else {
                                r.unit()
                            }
                        }
                        7 => {
                            /* a hub: cheap star, expensive rest */
                            if i == hub || j == hub {
                                1.0 + r.unit()
                            } else {
                                50.0 + r.unit() * 50.0
                            }
                        }
                        8 => {
                            /* one cheap tour hidden among expensive edges */
                            let a = planted.iter().position(|&v| v == i).unwrap();
                            let b = planted.iter().position(|&v| v == j).unwrap();
                            if (a + 1) % n == b || (b + 1) % n == a {
                                1.0 + r.unit() * 0.001
                            } else {
                                3.0 + r.unit()
                            }
                        }
                        17 | 18 => {
                            /* costs, and so tours, that differ by very little */
                            (1 + r.below(2)) as f64 * coarse * (1.0 + r.below(2000) as f64 * fine * 1e-3)
                        }
                        _ => r.log_uniform(1e-3, 1e4),
                    };
                    set(i, j, x);
                }
            }
        }
    }
    Inst::Matrix { n, c }
}

// ------------------------------------------------------------------ documents
pub fn xml(g: &Inst, r: &mut Rng) -> String {
    let n = g.n();
    let style = r.below(7).min(3);
    /* what XML allows, and generators of other people do */
    let odd = if style == 3 { r.next() } else { 0 };
    let on = |k: u64| odd >> k & 1 == 1;
    let nl = match style {
        1 => "",
        3 if on(0) => "\r\n",
        _ => "\n",
    };
    let ind = match style {
        1 => "",
        3 if on(1) => "\t",
        _ => "  ",
    };
    let q = if on(2) { '\'' } else { '"' };
    let mut s = String::new();
    if style == 2 || on(3) {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>\n");
    }
    if on(4) {
        s += "<!-- a comment with <tags> & such -->\n";
    }
    let text = if on(5) { "R&amp;D &lt;d&#228;ta&gt; \u{e9}\u{4e16}".repeat(1 + r.below(40)) } else { "z".into() };
    let mut head = vec![
        "<name>x</name>".to_string(),
        "<source>y</source>".into(),
        format!("<description>{text}</description>"),
        "<doublePrecision>15</doublePrecision>".into(),
        "<ignoredDigits>0</ignoredDigits>".into(),
    ];
    if on(6) {
        r.shuffle(&mut head);
    }
    if on(7) {
        head.push("<somethingElse kind=\"new\">1</somethingElse>".into());
    }
    let mut graph = format!("<graph>{nl}");
    for i in 0..n {
        graph += &format!("{ind}<vertex>{nl}");
        if on(8) && r.chance(20) {
            graph += "<!-- vertex -->";
        }
        let mut js: Vec<usize> = (0..n).filter(|&j| j != i).collect();
        if style == 2 || on(9) {
            r.shuffle(&mut js);
        }
        for j in js {
            let c = g.cost(i, j);
            let c = match style {
                0 => format!("{c:e}"),
                3 if on(10) => match r.below(5) {
                    0 => format!("{c:E}"),
                    1 => format!("+{c}"),
                    2 => format!("{c:.0}").parse::<f64>().ok().filter(|x| *x == c).map(|_| format!("{c:.0}.")).unwrap_or(format!("{c}")),
                    3 => format!("00{c}"),
                    _ => format!("{c:?}"),
                },
                _ => format!("{c}"),
            };
            graph += &format!("{ind}{ind}<edge cost={q}{c}{q}>{j}</edge>{nl}");
        }
        graph += &format!("{ind}</vertex>{nl}");
    }
    graph += "</graph>";
    if on(11) {
        head.insert(r.below(head.len() + 1), graph);
    } else {
        head.push(graph);
    }
    s += &format!("<travellingSalesmanProblemInstance>{nl}{}{nl}</travellingSalesmanProblemInstance>{nl}", head.join(nl));
    s
}

#[cfg(test)]
#[test]
fn documents_are_read_back() {
    for k in 0..20000 {
        let mut r = Rng::new(k, 1);
        let n = r.range(2, 6);
        let g = instance(&mut r, n, if k % 2 == 0 { Kind::Any } else { Kind::Metric });
        let d = xml(&g, &mut r);
        let h = parse(d.as_bytes()).unwrap_or_else(|| panic!("not read:\n{d}"));
        for i in 0..n {
            for j in 0..n {
                assert!(h.cost(i, j) == g.cost(i, j), "{i} {j}:\n{d}");
            }
        }
    }
}

#[derive(Deserialize)]
#[allow(dead_code)]
#[serde(rename_all = "camelCase")]
struct Doc {
    name: String,
    source: String,
    description: String,
    double_precision: u32,
    ignored_digits: u32,
    graph: DocGraph,
}
#[derive(Deserialize)]
struct DocGraph {
    #[serde(rename = "$value")]
    vertices: Vec<DocVertex>,
}
#[derive(Deserialize)]
struct DocVertex {
    #[serde(rename = "$value")]
    edges: Vec<DocEdge>,
}
#[derive(Deserialize)]
struct DocEdge {
    #[serde(rename = "$text")]
    to: usize,
    #[serde(rename = "@cost")]
    cost: f64,
}
/// the instance that a document describes, if it is a complete undirected one
pub fn parse(bytes: &[u8]) -> Option<Inst> {
    let s = std::str::from_utf8(bytes).ok()?;
    let d: Doc = std::panic::catch_unwind(|| quick_xml::de::from_str(s).ok()).ok()??;
    let n = d.graph.vertices.len();
    let mut c = vec![f64::NAN; n * n];
    for (i, v) in d.graph.vertices.iter().enumerate() {
        if v.edges.len() != n - 1 {
            return None;
        }
        for e in &v.edges {
            if e.to >= n || e.to == i || !c[i * n + e.to].is_nan() {
                return None;
            }
            c[i * n + e.to] = e.cost;
        }
        c[i * n + i] = 0.0;
    }
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (c[i * n + j], c[j * n + i]);
            if a != b {
                return None;
            }
        }
    }
    Some(Inst::Matrix { n, c })
}
/// costs in the scope of the properties
pub fn sane(g: &Inst) -> bool {
    (0..g.n()).all(|i| (0..g.n()).all(|j| g.cost(i, j) >= 0.0 && g.cost(i, j).is_finite()))
}
pub fn is_metric(g: &Inst) -> bool {
    if let Inst::Hashed { .. } = g {
        return true;
    }
    let n = g.n();
    let e = 1e-12 * g.scale();
    (0..n).all(|i| (0..n).all(|j| (0..n).all(|k| g.cost(i, j) <= g.cost(i, k) + g.cost(k, j) + e)))
}
