//! Minimise a failing run: workload, faults and schedule, while the same class of violation remains.
use std::sync::atomic::AtomicBool;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Instant;

use serde_json::Value as J;
use simrt::rng::mix;
use simrt::Sched;

use crate::explicit;
use crate::Exec;
use crate::Plan;

struct M<'a> {
    id: &'a str,
    class: &'a str,
    limit: Instant,
    pool: Mutex<Vec<Exec>>,
}

impl M<'_> {
    fn late(&self) -> bool {
        Instant::now() > self.limit
    }
    /// does this plan still fail the same way? returns it with its schedule made explicit
    fn fails(&self, p: &Plan) -> Option<Plan> {
        if self.late() {
            return None;
        }
        let mut ex = self.pool.lock().unwrap().pop().unwrap_or_else(Exec::new);
        let out = ex.run(p, false);
        self.pool.lock().unwrap().push(ex);
        let hit = crate::relevant(&out.violations, self.id)
            .iter()
            .any(|v| v.class == self.class);
        hit.then(|| explicit(p, &out))
    }
    /// as `fails`, also under a few other schedules (removing work shifts the step numbers)
    fn fails_any(&self, p: &Plan) -> Option<Plan> {
        if let Some(q) = self.fails(p) {
            return Some(q);
        }
        for k in 0..3u64 {
            let mut q = p.clone();
            for c in q.cfgs.iter_mut() {
                c.switches.clear();
                c.sched = match k {
                    0 => Sched::None,
                    1 => Sched::Random { num: 200 },
                    _ => Sched::Pct { d: 3, len: 600 },
                };
                c.seed = mix(c.seed ^ k);
            }
            if let Some(q) = self.fails(&q) {
                return Some(q);
            }
        }
        None
    }
    /// first candidate (in order) that still fails, evaluated in parallel
    fn first(&self, cands: Vec<Plan>) -> Option<Plan> {
        let n = cands.len();
        let res: Vec<Mutex<Option<Plan>>> = (0..n).map(|_| Mutex::new(None)).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let found = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..crate::jobs().min(n.max(1)) {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || found.load(Ordering::SeqCst) || self.late() {
                        break;
                    }
                    if let Some(p) = self.fails_any(&cands[i]) {
                        *res[i].lock().unwrap() = Some(p);
                        found.store(true, Ordering::SeqCst);
                    }
                });
            }
        });
        res.into_iter().find_map(|m| m.into_inner().unwrap())
    }
}

fn arrays(v: &J, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        J::Object(m) => {
            for (k, c) in m {
                path.push(k.clone());
                if k.starts_with("ops") {
                    if let J::Array(a) = c {
                        out.push((path.clone(), a.len()));
                    }
                }
                arrays(c, path, out);
                path.pop();
            }
        }
        J::Array(a) => {
            for (i, c) in a.iter().enumerate() {
                path.push(i.to_string());
                arrays(c, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut J, path: &[String]) -> Option<&'a mut J> {
    let mut c = v;
    for k in path {
        c = match c {
            J::Object(m) => m.get_mut(k)?,
            J::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}

/// remove blocks of halving size from a list of length `n`
fn blocks(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut size = n;
    while size > 0 {
        let mut i = 0;
        while i < n {
            v.push((i, (i + size).min(n)));
            i += size;
        }
        size /= 2;
    }
    v
}

pub fn minimise(plan: &Plan, id: &str, class: &str, limit: Instant) -> Plan {
    let m = M {
        id,
        class,
        limit,
        pool: Mutex::new(vec![]),
    };
    let Some(mut best) = m.fails(plan) else {
        return plan.clone();
    };
    loop {
        let before = size(&best);
        // simulated-process tail: fewer lives
        while best.cfgs.len() > 1 {
            let mut p = best.clone();
            p.cfgs.pop();
            match m.fails(&p) {
                Some(q) if q.cfgs.len() < best.cfgs.len() => best = q,
                _ => break,
            }
        }
        // faults
        loop {
            let mut cands = vec![];
            for ci in 0..best.cfgs.len() {
                for fi in 0..best.cfgs[ci].faults.len() {
                    let mut p = best.clone();
                    p.cfgs[ci].faults.remove(fi);
                    cands.push(p);
                }
            }
            match m.first(cands) {
                Some(p) => best = p,
                None => break,
            }
        }
        // workload
        loop {
            let mut arrs = vec![];
            arrays(&best.data, &mut vec![], &mut arrs);
            let mut cands = vec![];
            for (path, n) in &arrs {
                for (a, b) in blocks(*n) {
                    let mut p = best.clone();
                    if let Some(J::Array(v)) = at(&mut p.data, path) {
                        v.drain(a..b);
                    }
                    cands.push((b - a, p));
                }
            }
            cands.sort_by_key(|(n, _)| std::cmp::Reverse(*n));
            match m.first(cands.into_iter().map(|c| c.1).collect()) {
                Some(p) => best = p,
                None => break,
            }
            if m.late() {
                break;
            }
        }
        // schedule
        for ci in 0..best.cfgs.len() {
            loop {
                let keys: Vec<u64> = best.cfgs[ci].switches.keys().cloned().collect();
                let mut hit = None;
                for (a, b) in blocks(keys.len()) {
                    let mut p = best.clone();
                    for k in &keys[a..b] {
                        p.cfgs[ci].switches.remove(k);
                    }
                    if let Some(q) = m.fails(&p) {
                        if q.cfgs[ci].switches.len() < best.cfgs[ci].switches.len() {
                            hit = Some(q);
                            break;
                        }
                    }
                    if m.late() {
                        break;
                    }
                }
                match hit {
                    Some(p) => best = p,
                    None => break,
                }
            }
        }
        if m.late() || size(&best) >= before {
            return best;
        }
    }
}

fn size(p: &Plan) -> usize {
    let mut arrs = vec![];
    arrays(&p.data, &mut vec![], &mut arrs);
    arrs.iter().map(|a| a.1).sum::<usize>()
        + p.cfgs
            .iter()
            .map(|c| c.switches.len() + c.faults.len() + 1)
            .sum::<usize>()
}
