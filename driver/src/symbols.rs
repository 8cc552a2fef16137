//! Naming code addresses with addr2line.
use crate::oracle::Violation;
use crate::shm::Race;
use std::collections::HashMap;
use std::process::Command;

#[derive(Clone, Debug)]
pub struct Frame {
    pub func: String,
    pub file: String,
}
#[derive(Default)]
pub struct Symbols {
    cache: HashMap<(String, u64), Vec<Frame>>,
}
impl Symbols {
    pub fn frames(&mut self, bin: &str, pcs: &[u64]) -> Vec<Vec<Frame>> {
        let missing: Vec<u64> = {
            let mut m: Vec<u64> = pcs.iter().copied().filter(|p| !self.cache.contains_key(&(bin.to_string(), *p))).collect();
            m.sort();
            m.dedup();
            m
        };
        if !missing.is_empty() {
            let mut c = Command::new("addr2line");
            c.args(["-a", "-i", "-f", "-C", "-e", bin]);
            for p in &missing {
                /* the return address: the access is just before */
                c.arg(format!("{:x}", p - 1));
            }
            let out = c.output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
            let mut cur: Option<u64> = None;
            let mut lines = out.lines();
            while let Some(l) = lines.next() {
                if let Some(h) = l.strip_prefix("0x") {
                    if let Ok(x) = u64::from_str_radix(h, 16) {
                        cur = Some(x + 1);
                        self.cache.insert((bin.into(), x + 1), vec![]);
                        continue;
                    }
                }
                let file = lines.next().unwrap_or("??").to_string();
                if let Some(p) = cur {
                    self.cache.get_mut(&(bin.to_string(), p)).unwrap().push(Frame { func: l.into(), file });
                }
            }
        }
        pcs.iter().map(|p| self.cache.get(&(bin.to_string(), *p)).cloned().unwrap_or_default()).collect()
    }
    /// The first race that is not one of the deliberate ones inside the work-stealing queue.
    pub fn judge(&mut self, bin: &str, races: &[Race]) -> Option<Violation> {
        for r in races {
            let f = self.frames(bin, &r.pc);
            if f.iter().all(|x| is_known_lock_free(x)) {
                continue;
            }
            let kind = |i: usize| match (r.wr[i] != 0, r.at[i] != 0) {
                (true, true) => "atomic write",
                (false, true) => "atomic read",
                (true, false) => "write",
                (false, false) => "read",
            };
            let mut names = [place(&f[0]), place(&f[1])];
            let msg = format!(
                "data race at {:#x}: {} by thread {} at {}, then {} by thread {} at {}",
                r.addr,
                kind(0),
                r.tid[0],
                names[0],
                kind(1),
                r.tid[1],
                names[1]
            );
            names.sort();
            return Some(Violation { kind: "data-race".into(), msg });
        }
        None
    }
}
fn place(f: &[Frame]) -> String {
    /* innermost first: prefer the first frame in the code under test */
    let own = f.iter().find(|x| x.file.contains("/repo/") || x.file.contains("/progs/"));
    let short = |x: &Frame| format!("{} ({})", x.func, x.file.rsplit_once("/repo/").map(|p| p.1).unwrap_or(&x.file));
    match (f.first(), own) {
        (Some(a), Some(b)) if a.file != b.file || a.func != b.func => format!("{} in {}", short(a), short(b)),
        (Some(a), _) => short(a),
        _ => "?".into(),
    }
}
/// crossbeam's deque and epoch read buffers that another thread may be writing and throw the
/// value away when it turns out to be stale: a race by design, outside the code under test
fn is_known_lock_free(f: &[Frame]) -> bool {
    f.iter().any(|x| x.file.contains("/crossbeam-deque-") || x.file.contains("/crossbeam-epoch-"))
        && !f.iter().any(|x| x.file.contains("/repo/"))
}
