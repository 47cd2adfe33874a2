//! Several lives of one deployment: each life is a process that ends by itself or by a crash, the next one finds its disk.
use std::sync::Arc;

use simdrv::Outcome;
use simdrv::Plan;
use simrt::Cfg;
use simrt::End;
use simrt::Report;
use simrt::Sched;
use simrt::Start;

#[derive(Default, Clone, Copy)]
pub struct Seen {
    pub crashed: bool,
    pub faulted: bool,
    /// every life so far ended as it should
    pub good: bool,
}

/// was a fault delivered that makes an operation fail
pub fn error_faults(rep: &Report) -> bool {
    rep.stats.fired.keys().any(|k| !k.contains("crash") && !k.contains("slow") && !k.contains("stall") && !k.contains("clock"))
}

fn first(cfg: Cfg) -> Start {
    let mut s = Start::new(cfg);
    s.fs = crate::app::install();
    s
}

/// `body(life)` in each life, then `after()` in a life without faults; `ok()` says whether to go on.
/// `ended(life, report)` sees how a life ended.
pub fn run(
    plan: &Plan,
    out: &mut Outcome,
    verbose: bool,
    lives: usize,
    body: Arc<dyn Fn(usize) + Send + Sync>,
    after: Option<Box<dyn FnOnce(Seen) + Send>>,
    ok: &dyn Fn() -> bool,
    ended: &dyn Fn(usize, &Report),
) -> Seen {
    let mut seen = Seen { good: true, ..Default::default() };
    let mut prev: Option<Report> = None;
    for life in 0..plan.cfgs.len().min(lives) {
        let c = plan.cfgs[life].clone();
        let mut start = match &prev {
            None => first(c),
            Some(p) => Start::after(c, p),
        };
        start.verbose = verbose;
        let b = body.clone();
        let rep = simrt::run(start, move || b(life));
        out.absorb(&rep);
        seen.crashed |= rep.end == End::Crashed;
        seen.faulted |= error_faults(&rep);
        ended(life, &rep);
        seen.good = simdrv::judge_end(out, &rep, &format!("life {life}")) && ok();
        prev = Some(rep);
        if !seen.good {
            break;
        }
    }
    if let (true, Some(f), Some(p)) = (seen.good, after, &prev) {
        let mut c = Cfg::new(plan.seed);
        c.sched = Sched::None;
        c.step_limit = 5_000_000;
        let mut start = Start::after(c, p);
        start.verbose = verbose;
        let rep = simrt::run(start, move || f(seen));
        out.absorb(&rep);
        seen.good = simdrv::judge_end(out, &rep, "reading");
    }
    seen
}
