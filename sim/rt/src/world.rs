use std::any::Any;
use std::cell::Cell;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::sync::Condvar;
use std::sync::Mutex;
use std::sync::MutexGuard;
use std::sync::OnceLock;
use std::thread::Thread;
use std::time::Duration;

use serde::Deserialize;
use serde::Serialize;

use crate::fs::FsState;
use crate::rng::mix;
use crate::rng::Rng;

/// How the scheduler chooses the next thread.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// run the current thread until it blocks
    None,
    /// at each scheduling point switch with probability num/1024
    Random { num: u32 },
    /// random priorities, with `d` priority change points within the first `len` steps
    Pct { d: u32, len: u64 },
    /// replay: exactly these switches (step -> thread); everywhere else the default choice
    Explicit,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// kill the process at the n-th mutating file-system operation; `keep` (permille) of a write
    /// survives, for other operations keep>=500 means the operation took effect
    Crash { op: u64, keep: u32 },
    /// the n-th mutating operation fails; `keep` permille of a write was written
    WriteErr { op: u64, errno: i32, keep: u32 },
    /// the n-th write writes only part of the buffer
    ShortWrite { op: u64, keep: u32 },
    /// the n-th read fails
    ReadErr { op: u64, errno: i32 },
    /// the n-th read returns fewer bytes
    ShortRead { op: u64, keep: u32 },
    /// the n-th mutating operation takes this long
    Slow { op: u64, ms: u64 },
    /// the clock jumps at step n (milliseconds, may be negative for the wall clock)
    ClockJump { step: u64, ms: i64 },
    /// thread stalls at step n for ms
    Stall { step: u64, ms: u64 },
    /// from the n-th mutating op on the disk is full (until `until`)
    DiskFull { op: u64, until: u64 },
    /// the n-th commit of the transactional store fails with a retryable error
    CommitErr { op: u64 },
    /// kill the process at the n-th commit of the transactional store (applied if after)
    CrashCommit { op: u64, after: bool },
    /// kill the process at scheduling step n
    CrashStep { step: u64 },
    /// the n-th application-level operation of that kind fails; kinds from 100 on: the process is killed there
    AppFault { op: u64, kind: u32 },
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::Crash { .. } => "crash_at_fs_op",
            Fault::WriteErr { .. } => "write_error",
            Fault::ShortWrite { .. } => "short_write",
            Fault::ReadErr { .. } => "read_error",
            Fault::ShortRead { .. } => "short_read",
            Fault::Slow { .. } => "slow_io",
            Fault::ClockJump { .. } => "clock_jump",
            Fault::Stall { .. } => "thread_stall",
            Fault::DiskFull { .. } => "disk_full",
            Fault::CommitErr { .. } => "commit_error",
            Fault::CrashCommit { .. } => "crash_at_commit",
            Fault::CrashStep { .. } => "crash_at_step",
            Fault::AppFault { .. } => "app_fault",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub seed: u64,
    pub sched: Sched,
    pub switches: BTreeMap<u64, u32>,
    /// max virtual nanoseconds added per scheduling point
    pub tick_ns: u64,
    pub step_limit: u64,
    pub faults: Vec<Fault>,
    /// virtual wall clock start, nanoseconds since epoch
    pub epoch_ns: u64,
}

impl Cfg {
    pub fn new(seed: u64) -> Self {
        Cfg {
            seed,
            sched: Sched::None,
            switches: BTreeMap::new(),
            tick_ns: 1000,
            step_limit: 200_000,
            faults: vec![],
            epoch_ns: 1_700_000_000_000_000_000,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    /// main returned
    Done,
    /// injected process crash
    Crashed,
    /// main panicked
    Panicked(String),
    /// no thread can run and no timer is pending
    Deadlock(String),
    StepLimit,
    /// a thread ran for too much real time without reaching a scheduling point
    Hang,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub fs_writes: u64,
    pub fs_reads: u64,
    pub commits: u64,
    pub threads: u64,
    pub trace_hash: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

#[derive(Debug)]
pub struct Report {
    pub end: End,
    pub stats: Stats,
    /// (thread name, message) of every panic
    pub panics: Vec<(String, String)>,
    /// the switches actually taken, for explicit replay
    pub switches: BTreeMap<u64, u32>,
    pub fs: FsState,
    /// durable opaque components (the transactional store)
    pub durable: Arc<Mutex<HashMap<String, Arc<dyn Any + Send + Sync>>>>,
    pub log: Vec<String>,
    pub end_ns: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Runnable,
    /// waiting on a resource key, optional deadline
    Blocked(usize, Option<u64>),
    Sleeping(u64),
    Finished,
}

struct Th {
    name: String,
    st: St,
    handle: Option<Thread>,
    go: Arc<AtomicBool>,
    prio: u64,
    timed_out: bool,
    entropy: Rng,
    last: &'static str,
}

pub struct Inner {
    pub cfg: Cfg,
    threads: Vec<Th>,
    current: usize,
    rng: Rng,
    pub now: u64,
    pub wall_off: i64,
    pub stats: Stats,
    taken: BTreeMap<u64, u32>,
    over: Option<End>,
    panics: Vec<(String, String)>,
    pub fs: FsState,
    durable: Arc<Mutex<HashMap<String, Arc<dyn Any + Send + Sync>>>>,
    change_points: Vec<u64>,
    step_faults: BTreeMap<u64, Vec<Fault>>,
    pub wfaults: BTreeMap<u64, Vec<Fault>>,
    pub rfaults: BTreeMap<u64, Vec<Fault>>,
    pub cfaults: BTreeMap<u64, Vec<Fault>>,
    pub afaults: BTreeMap<(u32, u64), Vec<Fault>>,
    pub disk_full: Vec<(u64, u64)>,
    pub log: Vec<String>,
    pub verbose: bool,
    app_ops: BTreeMap<u32, u64>,
    pub faults_armed: bool,
    pub armed_w: u64,
    pub armed_r: u64,
    pub armed_c: u64,
}

pub struct World {
    inner: Mutex<Inner>,
    done: Condvar,
    over: AtomicBool,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static ATOMIC: Cell<u32> = const { Cell::new(0) };
}

pub fn in_sim() -> bool {
    IN_SIM.try_with(|v| v.get()).unwrap_or(false)
}

pub(crate) fn with_cur<R>(f: impl FnOnce(&Arc<World>, usize) -> R) -> Option<R> {
    if !in_sim() {
        return None;
    }
    let c = CUR.with(|c| c.borrow().clone());
    c.map(|(w, t)| f(&w, t))
}

pub fn current_world() -> Option<(Arc<World>, usize)> {
    if !in_sim() {
        return None;
    }
    CUR.with(|c| c.borrow().clone())
}

impl Inner {
    pub fn fired(&mut self, k: &str) {
        *self.stats.fired.entry(k.to_string()).or_insert(0) += 1;
    }
    fn runnable(&self) -> Vec<usize> {
        self.threads
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st == St::Runnable)
            .map(|(i, _)| i)
            .collect()
    }
    fn wake_due(&mut self) {
        let now = self.now;
        for t in self.threads.iter_mut() {
            match t.st {
                St::Sleeping(d) if d <= now => t.st = St::Runnable,
                St::Blocked(_, Some(d)) if d <= now => {
                    t.st = St::Runnable;
                    t.timed_out = true;
                }
                _ => {}
            }
        }
    }
    fn earliest(&self) -> Option<u64> {
        self.threads
            .iter()
            .filter_map(|t| match t.st {
                St::Sleeping(d) => Some(d),
                St::Blocked(_, Some(d)) => Some(d),
                _ => None,
            })
            .min()
    }
    /// choose who runs next; None = nobody can ever run
    fn pick(&mut self, cur: usize) -> Option<usize> {
        let mut r = self.runnable();
        if r.is_empty() {
            let d = self.earliest()?;
            if d > self.now {
                self.now = d;
            }
            self.wake_due();
            r = self.runnable();
        }
        let step = self.stats.steps;
        let default = if r.contains(&cur) {
            cur
        } else {
            *r.iter().find(|i| **i > cur).unwrap_or(&r[0])
        };
        let choice = match self.cfg.sched.clone() {
            Sched::None => default,
            Sched::Explicit => match self.cfg.switches.get(&step) {
                Some(t) if r.contains(&(*t as usize)) => *t as usize,
                _ => default,
            },
            Sched::Random { num } => {
                if r.len() == 1 {
                    r[0]
                } else if !r.contains(&cur) || self.rng.below(1024) < num as u64 {
                    r[self.rng.usize(r.len())]
                } else {
                    cur
                }
            }
            Sched::Pct { .. } => {
                if self.change_points.contains(&step) && cur < self.threads.len() {
                    // lower the priority of the running thread below everything
                    let m = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                    self.threads[cur].prio = m.saturating_sub(1);
                }
                *r.iter()
                    .max_by_key(|i| (self.threads[**i].prio, usize::MAX - **i))
                    .unwrap()
            }
        };
        if choice != default {
            self.taken.insert(step, choice as u32);
        }
        Some(choice)
    }
    pub fn wall_ns(&self) -> u64 {
        (self.cfg.epoch_ns as i128 + self.now as i128 + self.wall_off as i128) as u64
    }
    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = format!(
                "[{:>6} t={} {}] {}",
                self.stats.steps,
                self.now / 1000,
                self.threads
                    .get(self.current)
                    .map(|t| t.name.as_str())
                    .unwrap_or("?"),
                f()
            );
            self.log.push(s);
        }
    }
}

static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// OS threads held by this process, including those of ended worlds
pub fn live_threads() -> usize {
    LIVE.load(Ordering::SeqCst)
}

fn park_forever() -> ! {
    // the simulated process is dead: this thread never runs again and runs no destructors
    IN_SIM.with(|v| v.set(false));
    loop {
        std::thread::park();
    }
}

impl World {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn is_over(&self) -> bool {
        self.over.load(Ordering::SeqCst)
    }
    fn end(&self, g: &mut Inner, e: End) {
        if g.over.is_none() {
            g.over = Some(e);
        }
        self.over.store(true, Ordering::SeqCst);
        self.done.notify_all();
    }
    /// end the simulated process here
    pub fn crash(&self, mut g: MutexGuard<'_, Inner>) -> ! {
        g.logf(|| "CRASH".into());
        self.end(&mut g, End::Crashed);
        drop(g);
        park_forever()
    }
    fn hand_over(&self, mut g: MutexGuard<'_, Inner>, me: usize, next: usize) {
        if next == me {
            return;
        }
        g.current = next;
        g.stats.switches += 1;
        let h = mix(g.stats.trace_hash ^ ((me as u64) << 32 | next as u64) ^ hash_str(g.threads[me].last));
        g.stats.trace_hash = h;
        g.threads[next].go.store(true, Ordering::SeqCst);
        let th = g.threads[next].handle.clone();
        let my_go = g.threads[me].go.clone();
        drop(g);
        if let Some(th) = th {
            th.unpark();
        }
        self.wait_turn(&my_go);
    }
    fn wait_turn(&self, go: &AtomicBool) {
        while !go.swap(false, Ordering::SeqCst) {
            std::thread::park();
        }
        if self.is_over() {
            park_forever();
        }
    }
    fn advance(&self, g: &mut MutexGuard<'_, Inner>, me: usize, what: &'static str) {
        g.stats.steps += 1;
        let step = g.stats.steps;
        g.threads[me].last = what;
        if g.cfg.tick_ns > 0 {
            let t = mix(g.cfg.seed ^ mix(step)) % g.cfg.tick_ns;
            g.now += t;
        }
        if let Some(fs) = g.step_faults.remove(&step) {
            for f in fs {
                match f {
                    Fault::ClockJump { ms, .. } => {
                        g.fired("clock_jump");
                        g.wall_off += ms * 1_000_000;
                    }
                    Fault::Stall { ms, .. } => {
                        g.fired("thread_stall");
                        if g.threads[me].st == St::Runnable {
                            let d = g.now + ms * 1_000_000;
                            g.threads[me].st = St::Sleeping(d);
                        }
                    }
                    Fault::CrashStep { .. } => {
                        if g.faults_armed {
                            g.fired("crash_at_step");
                            self.end(g, End::Crashed);
                        }
                    }
                    _ => {}
                }
            }
        }
        g.wake_due();
        if step >= g.cfg.step_limit {
            self.end(g, End::StepLimit);
        }
    }
    fn reschedule(&self, mut g: MutexGuard<'_, Inner>, me: usize) {
        if self.is_over() {
            drop(g);
            park_forever();
        }
        match g.pick(me) {
            Some(n) => self.hand_over(g, me, n),
            None => {
                let d = g
                    .threads
                    .iter()
                    .enumerate()
                    .map(|(i, t)| format!("{}:{}:{:?}@{}", i, t.name, t.st, t.last))
                    .collect::<Vec<_>>()
                    .join("; ");
                self.end(&mut g, End::Deadlock(d));
                drop(g);
                park_forever();
            }
        }
    }
    /// a scheduling point
    pub fn point(&self, me: usize, what: &'static str) {
        let mut g = self.lock();
        self.advance(&mut g, me, what);
        self.reschedule(g, me);
    }
    /// block until `wake(key)` or the deadline; true if woken, false on timeout
    pub fn block(&self, me: usize, key: usize, timeout: Option<Duration>, what: &'static str) -> bool {
        let mut g = self.lock();
        let dl = timeout.map(|d| g.now.saturating_add(d.as_nanos() as u64));
        g.threads[me].st = St::Blocked(key, dl);
        g.threads[me].timed_out = false;
        self.advance(&mut g, me, what);
        self.reschedule(g, me);
        let g = self.lock();
        !g.threads[me].timed_out
    }
    pub fn wake(&self, key: usize) {
        let mut g = self.lock();
        for t in g.threads.iter_mut() {
            if let St::Blocked(k, _) = t.st {
                if k == key {
                    t.st = St::Runnable;
                }
            }
        }
    }
    pub fn sleep(&self, me: usize, d: Duration) {
        let mut g = self.lock();
        let dl = g.now.saturating_add(d.as_nanos() as u64);
        g.threads[me].st = St::Sleeping(dl);
        self.advance(&mut g, me, "sleep");
        self.reschedule(g, me);
    }
    pub fn spawn<F, T>(self: &Arc<Self>, name: String, f: F) -> JoinState<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let go = Arc::new(AtomicBool::new(false));
        let tid;
        {
            let mut g = self.lock();
            tid = g.threads.len();
            let mut pr = Rng::new(mix(g.cfg.seed ^ 0xABCD) ^ mix(tid as u64));
            let seed = g.cfg.seed;
            g.threads.push(Th {
                name: name.clone(),
                st: St::Runnable,
                handle: None,
                go: go.clone(),
                prio: pr.next_u64() >> 1 | 1 << 40,
                timed_out: false,
                entropy: Rng::new(mix(seed ^ 0xE17).wrapping_add(mix(tid as u64))),
                last: "start",
            });
            g.stats.threads += 1;
        }
        let w = self.clone();
        let slot: Arc<Mutex<Option<std::thread::Result<T>>>> = Arc::new(Mutex::new(None));
        let slot2 = slot.clone();
        let h = std::thread::Builder::new()
            .name(format!("sim-{name}"))
            .stack_size(4 << 20)
            .spawn(move || {
                struct Live;
                impl Drop for Live {
                    fn drop(&mut self) {
                        LIVE.fetch_sub(1, Ordering::SeqCst);
                    }
                }
                LIVE.fetch_add(1, Ordering::SeqCst);
                let _live = Live;
                w.wait_turn(&go);
                CUR.with(|c| *c.borrow_mut() = Some((w.clone(), tid)));
                IN_SIM.with(|v| v.set(true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if let Err(e) = &r {
                    let m = take_panic_msg(e.as_ref());
                    let mut g = w.lock();
                    let n = g.threads[tid].name.clone();
                    g.logf(|| format!("PANIC {m}"));
                    g.panics.push((n, m));
                }
                *slot2.lock().unwrap() = Some(r);
                let mut g = w.lock();
                g.threads[tid].st = St::Finished;
                let key = join_key(tid);
                for t in g.threads.iter_mut() {
                    if let St::Blocked(k, _) = t.st {
                        if k == key {
                            t.st = St::Runnable;
                        }
                    }
                }
                g.stats.steps += 1;
                IN_SIM.with(|v| v.set(false));
                if w.is_over() {
                    return;
                }
                if tid == 0 {
                    let e = match &*slot2.lock().unwrap() {
                        Some(Err(_)) => End::Panicked(
                            g.panics.last().map(|p| p.1.clone()).unwrap_or_default(),
                        ),
                        _ => End::Done,
                    };
                    w.end(&mut g, e);
                    return;
                }
                match g.pick(tid) {
                    Some(n) => {
                        g.current = n;
                        g.threads[n].go.store(true, Ordering::SeqCst);
                        let th = g.threads[n].handle.clone();
                        drop(g);
                        if let Some(th) = th {
                            th.unpark();
                        }
                    }
                    None => {
                        let d = g
                            .threads
                            .iter()
                            .enumerate()
                            .map(|(i, t)| format!("{}:{}:{:?}@{}", i, t.name, t.st, t.last))
                            .collect::<Vec<_>>()
                            .join("; ");
                        w.end(&mut g, End::Deadlock(d));
                    }
                }
            })
            .expect("spawn os thread");
        let thread = h.thread().clone();
        self.lock().threads[tid].handle = Some(thread.clone());
        drop(h);
        JoinState {
            slot,
            tid,
            thread,
        }
    }
    pub fn fill_entropy(&self, me: usize, b: &mut [u8]) {
        let mut g = self.lock();
        if let Some(t) = g.threads.get_mut(me) {
            t.entropy.fill(b);
        }
    }
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

fn join_key(tid: usize) -> usize {
    usize::MAX - tid
}

pub struct JoinState<T> {
    pub slot: Arc<Mutex<Option<std::thread::Result<T>>>>,
    pub tid: usize,
    pub thread: Thread,
}

impl<T> JoinState<T> {
    pub fn join(self) -> std::thread::Result<T> {
        loop {
            if let Some(r) = self.slot.lock().unwrap().take() {
                return r;
            }
            let (w, me) = current_world().expect("join outside the simulation");
            w.block(me, join_key(self.tid), None, "join");
        }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.lock().unwrap().is_some()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".to_string()
    }
}

fn take_panic_msg(p: &(dyn Any + Send)) -> String {
    LAST_PANIC
        .with(|l| l.borrow_mut().take())
        .unwrap_or_else(|| payload_str(p))
}

/// message of the panic last raised in this thread (for catch_unwind in scenarios)
pub fn last_panic() -> Option<String> {
    LAST_PANIC.with(|l| l.borrow_mut().take())
}

/// debugging aid: SIM_BT=1 prints the stack of every panic in the simulation
fn backtraces() -> bool {
    static ON: OnceLock<bool> = OnceLock::new();
    *ON.get_or_init(|| std::env::var_os("SIM_BT").is_some())
}

pub fn install_panic_hook() {
    backtraces();
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if in_sim() {
                let loc = info
                    .location()
                    .map(|l| {
                        let f = l.file();
                        let f = f.rsplit("/src/").next().unwrap_or(f);
                        format!("{}:{}", f, l.line())
                    })
                    .unwrap_or_default();
                let m = format!("{} at {}", payload_str(info.payload()), loc);
                if backtraces() {
                    IN_SIM.with(|v| v.set(false));
                    eprintln!("{m}\n{}", std::backtrace::Backtrace::force_capture());
                    IN_SIM.with(|v| v.set(true));
                }
                let _ = LAST_PANIC.try_with(|l| {
                    if let Ok(mut l) = l.try_borrow_mut() {
                        *l = Some(m);
                    }
                });
            } else {
                prev(info);
            }
        }));
    });
}

pub struct Start {
    pub cfg: Cfg,
    pub fs: FsState,
    pub durable: Option<Arc<Mutex<HashMap<String, Arc<dyn Any + Send + Sync>>>>>,
    pub start_ns: u64,
    pub verbose: bool,
    /// real-time limit for the whole run
    pub hang: Duration,
}

impl Start {
    pub fn new(cfg: Cfg) -> Self {
        Start {
            cfg,
            fs: FsState::default(),
            durable: None,
            start_ns: 0,
            verbose: false,
            hang: Duration::from_secs(20),
        }
    }
    /// continue after a crash: durable state only
    pub fn after(cfg: Cfg, prev: &Report) -> Self {
        Start {
            cfg,
            fs: prev.fs.snapshot(),
            durable: Some(prev.durable.clone()),
            start_ns: prev.end_ns,
            verbose: false,
            hang: Duration::from_secs(20),
        }
    }
}

/// Run one simulated process until main returns, it crashes, deadlocks or hits a limit.
pub fn run<F>(s: Start, main: F) -> Report
where F: FnOnce() + Send + 'static {
    install_panic_hook();
    let Start {
        cfg,
        fs,
        durable,
        start_ns,
        verbose,
        hang,
    } = s;
    let mut step_faults: BTreeMap<u64, Vec<Fault>> = BTreeMap::new();
    let mut wfaults: BTreeMap<u64, Vec<Fault>> = BTreeMap::new();
    let mut rfaults: BTreeMap<u64, Vec<Fault>> = BTreeMap::new();
    let mut cfaults: BTreeMap<u64, Vec<Fault>> = BTreeMap::new();
    let mut afaults: BTreeMap<(u32, u64), Vec<Fault>> = BTreeMap::new();
    let mut disk_full = vec![];
    for f in &cfg.faults {
        match f {
            Fault::ClockJump { step, .. } | Fault::Stall { step, .. } | Fault::CrashStep { step } => {
                step_faults.entry(*step).or_default().push(f.clone())
            }
            Fault::Crash { op, .. }
            | Fault::WriteErr { op, .. }
            | Fault::ShortWrite { op, .. }
            | Fault::Slow { op, .. } => wfaults.entry(*op).or_default().push(f.clone()),
            Fault::ReadErr { op, .. } | Fault::ShortRead { op, .. } => {
                rfaults.entry(*op).or_default().push(f.clone())
            }
            Fault::CommitErr { op } | Fault::CrashCommit { op, .. } => {
                cfaults.entry(*op).or_default().push(f.clone())
            }
            Fault::AppFault { op, kind } => afaults.entry((*kind % 100, *op)).or_default().push(f.clone()),
            Fault::DiskFull { op, until } => disk_full.push((*op, *until)),
        }
    }
    let mut rng = Rng::new(mix(cfg.seed ^ 0x5CED));
    let change_points = match cfg.sched {
        Sched::Pct { d, len } => (0..d).map(|_| 1 + rng.below(len.max(1))).collect(),
        _ => vec![],
    };
    let durable = durable.unwrap_or_default();
    let w = Arc::new(World {
        inner: Mutex::new(Inner {
            cfg,
            threads: vec![],
            current: 0,
            rng,
            now: start_ns,
            wall_off: 0,
            stats: Stats::default(),
            taken: BTreeMap::new(),
            over: None,
            panics: vec![],
            fs,
            durable: durable.clone(),
            change_points,
            step_faults,
            wfaults,
            rfaults,
            cfaults,
            afaults,
            disk_full,
            log: vec![],
            verbose,
            app_ops: BTreeMap::new(),
            faults_armed: true,
            armed_w: 0,
            armed_r: 0,
            armed_c: 0,
        }),
        done: Condvar::new(),
        over: AtomicBool::new(false),
    });
    let js = w.spawn("main".to_string(), main);
    {
        let g = w.lock();
        g.threads[0].go.store(true, Ordering::SeqCst);
    }
    js.thread.unpark();
    let t0 = crate::interpose::real_now();
    let c0 = crate::interpose::cpu_now();
    let mut g = w.lock();
    while g.over.is_none() {
        let (ng, _) = w
            .done
            .wait_timeout(g, Duration::from_millis(500))
            .unwrap_or_else(|e| e.into_inner());
        g = ng;
        let cpu = crate::interpose::cpu_now() - c0;
        let wall = crate::interpose::real_now() - t0;
        if g.over.is_none() && (cpu > hang.as_nanos() as u64 || wall > 6 * hang.as_nanos() as u64) {
            w.end(&mut g, End::Hang);
        }
    }
    let end = g.over.clone().unwrap();
    let mut stats = g.stats.clone();
    stats.sim_ns = g.now - start_ns;
    Report {
        end,
        stats,
        panics: g.panics.clone(),
        switches: g.taken.clone(),
        fs: g.fs.snapshot(),
        durable,
        log: std::mem::take(&mut g.log),
        end_ns: g.now,
    }
}

// ---- free functions used by the shims and scenarios ----

pub fn point(what: &'static str) {
    if ATOMIC.with(|a| a.get()) > 0 {
        return;
    }
    if let Some((w, me)) = current_world() {
        w.point(me, what);
    }
}

pub fn is_atomic() -> bool {
    ATOMIC.with(|a| a.get()) > 0
}

/// run `f` without any scheduling point (used by oracles)
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    ATOMIC.with(|a| a.set(a.get() + 1));
    let r = f();
    ATOMIC.with(|a| a.set(a.get() - 1));
    r
}

pub fn block(key: usize, timeout: Option<Duration>, what: &'static str) -> bool {
    match current_world() {
        Some((w, me)) => w.block(me, key, timeout, what),
        None => {
            std::thread::sleep(Duration::from_micros(50));
            true
        }
    }
}

pub fn wake(key: usize) {
    if let Some((w, _)) = current_world() {
        w.wake(key);
    }
}

pub fn sleep(d: Duration) {
    match current_world() {
        Some((w, me)) => w.sleep(me, d),
        None => std::thread::sleep(d),
    }
}

pub fn spawn<F, T>(name: &str, f: F) -> JoinState<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let (w, _) = current_world().expect("spawn outside the simulation");
    let j = w.spawn(name.to_string(), f);
    point("spawn");
    j
}

/// virtual monotonic nanoseconds
pub fn now_ns() -> u64 {
    with_cur(|w, _| w.lock().now).unwrap_or(0)
}

/// the simulator's global step counter (orders history events)
pub fn step() -> u64 {
    with_cur(|w, _| w.lock().stats.steps).unwrap_or(0)
}

pub fn probe(name: &str) {
    with_cur(|w, _| {
        let mut g = w.lock();
        *g.stats.probes.entry(name.to_string()).or_insert(0) += 1;
    });
}

pub fn logf(f: impl FnOnce() -> String) {
    with_cur(|w, _| w.lock().logf(f));
}

/// arm or disarm faults (e.g. during set-up)
pub fn arm_faults(on: bool) {
    with_cur(|w, _| w.lock().faults_armed = on);
}

/// number of mutating file system operations so far
pub fn fs_write_ops() -> u64 {
    with_cur(|w, _| w.lock().stats.fs_writes).unwrap_or(0)
}

/// names and messages of the panics so far
pub fn panics() -> Vec<(String, String)> {
    with_cur(|w, _| w.lock().panics.clone()).unwrap_or_default()
}

/// durable component storage shared across simulated restarts
pub fn durable<T: Any + Send + Sync>(key: &str, init: impl FnOnce() -> T) -> Arc<T> {
    let map = with_cur(|w, _| w.lock().durable.clone());
    let map = match map {
        Some(m) => m,
        None => {
            static OUT: OnceLock<Arc<Mutex<HashMap<String, Arc<dyn Any + Send + Sync>>>>> =
                OnceLock::new();
            OUT.get_or_init(Default::default).clone()
        }
    };
    let mut m = map.lock().unwrap();
    let e = m
        .entry(key.to_string())
        .or_insert_with(|| Arc::new(init()) as Arc<dyn Any + Send + Sync>);
    e.clone().downcast::<T>().expect("durable type")
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CommitFault {
    None,
    Fail,
}

/// called by the transactional-store shim around a commit: `apply` makes it durable
pub fn commit_point(apply: impl FnOnce()) -> CommitFault {
    let Some((w, me)) = current_world() else {
        apply();
        return CommitFault::None;
    };
    if ATOMIC.with(|a| a.get()) == 0 {
        w.point(me, "commit");
    }
    let mut g = w.lock();
    g.stats.commits += 1;
    let mut res = CommitFault::None;
    let mut crash_after = false;
    let mut crash_before = false;
    if g.faults_armed {
        g.armed_c += 1;
        let n = g.armed_c;
        for f in g.cfaults.remove(&n).unwrap_or_default() {
            match f {
                Fault::CommitErr { .. } => {
                    g.fired("commit_error");
                    res = CommitFault::Fail;
                }
                Fault::CrashCommit { after, .. } => {
                    g.fired("crash_at_commit");
                    if after {
                        crash_after = true;
                    } else {
                        crash_before = true;
                    }
                }
                _ => {}
            }
        }
    }
    if crash_before {
        w.crash(g);
    }
    if res == CommitFault::None {
        drop(g);
        apply();
        g = w.lock();
    }
    if crash_after {
        w.crash(g);
    }
    res
}

/// application-level fault point of a kind of operation: does it fail
pub fn app_fault(class: u32) -> bool {
    let Some((w, _)) = current_world() else { return false };
    let mut g = w.lock();
    if !g.faults_armed {
        return false;
    }
    let n = g.app_ops.entry(class).or_insert(0);
    *n += 1;
    let n = *n;
    let mut fail = false;
    for f in g.afaults.remove(&(class, n)).unwrap_or_default() {
        match f {
            Fault::AppFault { kind, .. } if kind >= 100 => {
                g.fired("crash_at_app_op");
                w.crash(g);
            }
            _ => {
                g.fired("app_fault");
                fail = true;
            }
        }
    }
    fail
}
