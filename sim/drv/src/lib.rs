//! Seed loop, worker processes, minimisation, replay files and evidence for every harness.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::HashSet;
use std::io::BufRead;
use std::io::BufReader;
use std::io::Write;
use std::path::PathBuf;
use std::process::Child;
use std::process::ChildStdin;
use std::process::ChildStdout;
use std::process::Command;
use std::process::Stdio;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Duration;
use std::time::Instant;

use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value as J;
use simrt::rng::mix;
use simrt::rng::Rng;
use simrt::Cfg;
use simrt::End;
use simrt::Report;
use simrt::Sched;
use simrt::Stats;

mod shrink;
pub mod util;

/// One simulated execution, completely: simulator configuration of each process life and the workload.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub scenario: String,
    pub seed: u64,
    /// one per process life (crash, restart, ...)
    pub cfgs: Vec<Cfg>,
    /// workload; arrays under keys starting with "ops" are shrunk element by element
    pub data: J,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    /// stable class of what went wrong (used for minimisation and known findings)
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub stats: Vec<Stats>,
    /// switches taken in each process life
    pub switches: Vec<BTreeMap<u64, u32>>,
    /// did the run exercise what its rule calls non-trivial
    pub nontrivial: bool,
    /// hash over everything observed (schedule, history, final state)
    pub digest: u64,
    /// hashes of distinct interesting states reached
    pub states: Vec<u64>,
    #[serde(default)]
    pub log: Vec<String>,
    /// one-line description for evidence samples
    pub summary: String,
    /// operations driven through the public API
    pub ops: u64,
    /// why the run could not be judged (set-up failed, step limit in an idle phase, ...)
    pub inconclusive: Option<String>,
}

impl Outcome {
    pub fn absorb(&mut self, r: &Report) {
        self.stats.push(r.stats.clone());
        self.switches.push(r.switches.clone());
        self.log.extend(r.log.iter().cloned());
        self.digest = mix(self.digest ^ r.stats.trace_hash.wrapping_mul(3) ^ r.stats.steps.wrapping_mul(7));
    }
    pub fn observe(&mut self, s: &str) {
        self.digest = mix(self.digest ^ util::hash(s));
    }
    pub fn violate(&mut self, property: &str, class: impl Into<String>, detail: impl Into<String>) {
        self.violations.push(Violation {
            property: property.to_string(),
            class: class.into(),
            detail: detail.into(),
        });
    }
}

pub trait Scenario: Sync + Send {
    fn name(&self) -> &'static str;
    /// generate one run; `variant` narrows the scenario for a property
    fn generate(&self, rng: &mut Rng, variant: &str, tier: &str) -> Plan;
    fn run(&self, plan: &Plan, verbose: bool) -> Outcome;
}

pub struct Batch {
    pub scenario: &'static str,
    pub variant: &'static str,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub batches: Vec<Batch>,
    pub rule: &'static str,
    pub real: Vec<&'static str>,
    pub stubs: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
    /// probes that should fire at least once in a batch
    pub probes: Vec<&'static str>,
}

pub struct Harness {
    pub scenarios: Vec<Box<dyn Scenario>>,
    pub properties: Vec<Property>,
}

#[derive(Serialize, Deserialize)]
enum Req {
    Seeds {
        scenario: String,
        variant: String,
        tier: String,
        base: u64,
        from: u64,
        to: u64,
    },
    Run {
        plan: Plan,
        verbose: bool,
    },
}

#[derive(Serialize, Deserialize, Default)]
struct SeedsRes {
    runs: u64,
    nontrivial: u64,
    inconclusive: BTreeMap<String, u64>,
    ops: u64,
    steps: u64,
    /// first index not run
    next: u64,
    spent: bool,
    switches: u64,
    sim_ns: u64,
    fs_ops: u64,
    commits: u64,
    lives: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    /// (index, trace hash) of non-trivial runs
    traces: Vec<u64>,
    states: Vec<u64>,
    digests: Vec<(u64, u64)>,
    samples: Vec<String>,
    /// (seed index, plan with explicit schedule, violations)
    bad: Vec<(u64, Plan, Vec<Violation>)>,
}

pub fn plan_seed(base: u64, scenario: &str, variant: &str, i: u64) -> u64 {
    mix(mix(base) ^ util::hash(scenario) ^ mix(util::hash(variant)) ^ mix(i.wrapping_add(0x51)))
}

impl Harness {
    fn scenario(&self, n: &str) -> &dyn Scenario {
        self.scenarios
            .iter()
            .find(|s| s.name() == n)
            .unwrap_or_else(|| panic!("no scenario {n}"))
            .as_ref()
    }

    fn gen(&self, scenario: &str, variant: &str, tier: &str, base: u64, i: u64) -> Plan {
        let seed = plan_seed(base, scenario, variant, i);
        let mut p = self
            .scenario(scenario)
            .generate(&mut Rng::new(seed), variant, tier);
        p.seed = seed;
        p.scenario = scenario.to_string();
        p
    }

    fn exec(&self, plan: &Plan, verbose: bool) -> Outcome {
        self.scenario(&plan.scenario).run(plan, verbose)
    }

    fn worker(&self) {
        let stdin = std::io::stdin();
        // what the code under test prints must not mix with the answers
        use std::os::fd::FromRawFd;
        let mut answers = unsafe {
            let fd = libc::dup(1);
            libc::dup2(2, 1);
            std::fs::File::from_raw_fd(fd)
        };
        for line in stdin.lock().lines() {
            let Ok(line) = line else { break };
            let req: Req = serde_json::from_str(&line).expect("request");
            match req {
                Req::Seeds {
                    scenario,
                    variant,
                    tier,
                    base,
                    from,
                    to,
                } => {
                    let mut r = SeedsRes::default();
                    for i in from..to {
                        let plan = self.gen(&scenario, &variant, &tier, base, i);
                        let out = self.exec(&plan, false);
                        r.runs += 1;
                        r.next = i + 1;
                        r.ops += out.ops;
                        if out.nontrivial {
                            r.nontrivial += 1;
                            r.traces.push(mix(util::hash(&scenario) ^ out.digest));
                        }
                        if let Some(x) = &out.inconclusive {
                            *r.inconclusive.entry(x.clone()).or_insert(0) += 1;
                        }
                        for s in &out.stats {
                            r.lives += 1;
                            r.steps += s.steps;
                            r.switches += s.switches;
                            r.sim_ns += s.sim_ns;
                            r.fs_ops += s.fs_writes + s.fs_reads;
                            r.commits += s.commits;
                            for (k, v) in &s.fired {
                                *r.fired.entry(k.clone()).or_insert(0) += v;
                            }
                            for (k, v) in &s.probes {
                                *r.probes.entry(k.clone()).or_insert(0) += v;
                            }
                        }
                        r.states.extend(out.states.iter());
                        if i % 16 == 0 {
                            r.digests.push((i, out.digest));
                        }
                        if r.samples.is_empty() && out.nontrivial {
                            r.samples.push(format!("seed#{i} ({:#x}): {}", plan.seed, out.summary));
                        }
                        if !out.violations.is_empty() {
                            r.bad.push((i, explicit(&plan, &out), out.violations.clone()));
                        }
                        // ended worlds leave parked threads behind: ask for a new process
                        if simrt::world::live_threads() > 500 {
                            r.spent = true;
                            break;
                        }
                    }
                    r.states.sort();
                    r.states.dedup();
                    writeln!(answers, "{}", serde_json::to_string(&r).unwrap()).ok();
                }
                Req::Run { plan, verbose } => {
                    let out = self.exec(&plan, verbose);
                    writeln!(answers, "{}", serde_json::to_string(&out).unwrap()).ok();
                }
            }
        }
        // leave without running destructors of parked simulated threads
        unsafe { libc::_exit(0) }
    }
}

/// the same run with the schedule written out
pub fn explicit(plan: &Plan, out: &Outcome) -> Plan {
    let mut p = plan.clone();
    for (i, c) in p.cfgs.iter_mut().enumerate() {
        if let Some(sw) = out.switches.get(i) {
            c.sched = Sched::Explicit;
            c.switches = sw.clone();
        }
    }
    p
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    runs: u64,
}

impl Worker {
    fn spawn() -> Worker {
        let exe = std::env::current_exe().expect("exe");
        let mut child = Command::new(exe)
            .arg("worker")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("SIM_STDERR").is_some() {
                Stdio::inherit()
            } else {
                Stdio::null()
            })
            .spawn()
            .expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Worker {
            child,
            stdin,
            stdout,
            runs: 0,
        }
    }
    fn call<T: for<'a> Deserialize<'a>>(&mut self, r: &Req) -> Result<T, String> {
        let s = serde_json::to_string(r).unwrap();
        writeln!(self.stdin, "{s}").map_err(|e| e.to_string())?;
        self.stdin.flush().map_err(|e| e.to_string())?;
        let mut line = String::new();
        self.stdout.read_line(&mut line).map_err(|e| e.to_string())?;
        if line.is_empty() {
            let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
            return Err(format!("worker died: {st}"));
        }
        serde_json::from_str(&line).map_err(|e| e.to_string())
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// runs plans, each in a (possibly reused) worker process
pub(crate) struct Exec {
    w: Option<Worker>,
}

impl Exec {
    pub(crate) fn new() -> Self {
        Exec { w: None }
    }
    pub(crate) fn fresh(&mut self) {
        self.w = None;
    }
    pub(crate) fn run(&mut self, plan: &Plan, verbose: bool) -> Outcome {
        if self.w.as_ref().map(|w| w.runs > 20).unwrap_or(false) {
            self.w = None;
        }
        let w = self.w.get_or_insert_with(Worker::spawn);
        w.runs += 1;
        match w.call::<Outcome>(&Req::Run {
            plan: plan.clone(),
            verbose,
        }) {
            Ok(o) => {
                if o.violations.iter().any(|v| v.class.starts_with("hang")) {
                    self.w = None;
                }
                o
            }
            Err(e) => {
                self.w = None;
                let mut o = Outcome::default();
                o.violate("*", "process-abort", e);
                o
            }
        }
    }
}

#[derive(Default)]
struct Agg {
    r: SeedsRes,
    traces: HashSet<u64>,
    states: HashSet<u64>,
    died: Vec<(String, String, u64, u64)>,
    digests: BTreeMap<(String, String, u64), u64>,
    per_batch: BTreeMap<String, u64>,
}

struct Known {
    property: String,
    class: String,
    text: String,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// lines `finding: property=<id> class=<class> | <what fails>`; `fixed:` lines are history only
fn load_known() -> Vec<Known> {
    let s = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, rest) = l.split_once(" class=")?;
            let (class, text) = rest.split_once(" | ")?;
            Some(Known {
                property: id.trim().to_string(),
                class: class.trim().to_string(),
                text: text.trim().to_string(),
            })
        })
        .collect()
}

fn relevant<'a>(vs: &'a [Violation], id: &str) -> Vec<&'a Violation> {
    vs.iter()
        .filter(|v| v.property == id || v.property == "*")
        .collect()
}

fn slug(s: &str) -> String {
    let mut o: String = s
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
        .collect();
    o.truncate(60);
    o
}

pub fn main(h: Harness) {
    simrt::interpose::init();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => h.worker(),
        Some("check") => {
            let id = args.get(2).expect("property id");
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let code = check(&h, id, &tier);
            std::process::exit(code);
        }
        Some("replay") => {
            let file = args.get(2).expect("replay file");
            std::process::exit(replay(file, args.iter().any(|a| a == "-v")));
        }
        Some("seed") => {
            // seed <scenario> <variant> <index> [-v]
            let base = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let plan = h.gen(&args[2], &args[3], "quick", base, args[4].parse().unwrap());
            let v = args.iter().any(|a| a == "-v");
            if v {
                println!("{}", serde_json::to_string_pretty(&plan).unwrap());
            }
            let out = h.exec(&plan, v);
            for l in &out.log {
                println!("{l}");
            }
            println!("summary: {}", out.summary);
            println!("stats: {}", serde_json::to_string(&out.stats).unwrap());
            println!("inconclusive: {:?}", out.inconclusive);
            println!("digest: {:#x}", out.digest);
            for v in &out.violations {
                println!("{} [{}] {}", v.property, v.class, v.detail);
            }
            unsafe { libc::_exit(0) }
        }
        Some("survey") => {
            // survey <scenario> <variant> <n>: classes of violations, all properties
            let base = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            survey(&h, &args[2], &args[3], args[4].parse().unwrap(), base);
        }
        Some("determinism") => {
            std::process::exit(determinism(&h, args.get(2).and_then(|s| s.parse().ok()).unwrap_or(200)));
        }
        Some("list") => {
            for p in &h.properties {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: check <id> | replay <file> | seed <scenario> <variant> <i> | survey <scenario> <variant> <n> | determinism [n]");
            std::process::exit(2);
        }
    }
}

fn jobs() -> usize {
    std::env::var("SIM_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        })
}

type Item = (String, String, u64, u64);

/// run items over worker processes; `stop` lets the caller end early
fn fan_out(items: Vec<Item>, tier: &str, base: u64, deadline: Instant, stop: &(dyn Fn(&SeedsRes) -> bool + Sync)) -> Agg {
    let q = Arc::new(Mutex::new(items.into_iter().rev().collect::<Vec<_>>()));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let halt = Arc::new(AtomicBool::new(false));
    std::thread::scope(|s| {
        for _ in 0..jobs() {
            let q = q.clone();
            let agg = agg.clone();
            let halt = halt.clone();
            let tier = tier.to_string();
            s.spawn(move || {
                let mut w: Option<Worker> = None;
                loop {
                    if halt.load(Ordering::SeqCst) || Instant::now() > deadline {
                        break;
                    }
                    let Some((sc, va, from, to)) = q.lock().unwrap().pop() else {
                        break;
                    };
                    if w.as_ref().map(|w| w.runs >= 240).unwrap_or(false) {
                        w = None;
                    }
                    let wk = w.get_or_insert_with(Worker::spawn);
                    wk.runs += to - from;
                    let res = wk.call::<SeedsRes>(&Req::Seeds {
                        scenario: sc.clone(),
                        variant: va.clone(),
                        tier: tier.clone(),
                        base,
                        from,
                        to,
                    });
                    let mut a = agg.lock().unwrap();
                    match res {
                        Ok(r) => {
                            if r.bad.iter().any(|b| b.2.iter().any(|v| v.class.starts_with("hang"))) {
                                w = None;
                            }
                            if r.next < to {
                                q.lock().unwrap().push((sc.clone(), va.clone(), r.next, to));
                            }
                            if r.spent {
                                w = None;
                            }
                            if stop(&r) {
                                halt.store(true, Ordering::SeqCst);
                            }
                            a.merge(&sc, &va, r);
                        }
                        Err(_) => {
                            w = None;
                            a.died.push((sc, va, from, to));
                            if a.died.len() > 2 {
                                halt.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                }
            });
        }
    });
    Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap()
}

impl Agg {
    fn merge(&mut self, sc: &str, va: &str, r: SeedsRes) {
        let t = &mut self.r;
        t.runs += r.runs;
        t.nontrivial += r.nontrivial;
        t.ops += r.ops;
        t.steps += r.steps;
        t.switches += r.switches;
        t.sim_ns += r.sim_ns;
        t.fs_ops += r.fs_ops;
        t.commits += r.commits;
        t.lives += r.lives;
        *self.per_batch.entry(format!("{sc}/{va}")).or_insert(0) += r.runs;
        for (k, v) in r.inconclusive {
            *t.inconclusive.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.fired {
            *t.fired.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.probes {
            *t.probes.entry(k).or_insert(0) += v;
        }
        self.traces.extend(r.traces);
        self.states.extend(r.states);
        for (i, d) in r.digests {
            self.digests.insert((sc.to_string(), va.to_string(), i), d);
        }
        if t.samples.len() < 6 {
            t.samples
                .extend(r.samples.into_iter().map(|s| format!("{sc}/{va} {s}")));
        }
        if t.bad.len() < 400 {
            t.bad.extend(r.bad);
        }
    }
}

fn chunks(sc: &str, va: &str, n: u64, size: u64) -> Vec<Item> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let to = (i + size).min(n);
        v.push((sc.to_string(), va.to_string(), i, to));
        i = to;
    }
    v
}

fn survey(h: &Harness, sc: &str, va: &str, n: u64, base: u64) {
    let _ = h;
    let t = Instant::now();
    let a = fan_out(
        chunks(sc, va, n, 20),
        "quick",
        base,
        Instant::now() + Duration::from_secs(3600),
        &|_| false,
    );
    println!(
        "{} runs ({} non-trivial, {} distinct), {} ops, {} steps, {:.1}s, {:.0} runs/h, died={:?}",
        a.r.runs,
        a.r.nontrivial,
        a.traces.len(),
        a.r.ops,
        a.r.steps,
        t.elapsed().as_secs_f64(),
        a.r.runs as f64 / t.elapsed().as_secs_f64() * 3600.0,
        a.died
    );
    println!("fired {:?}", a.r.fired);
    println!("probes {:?}", a.r.probes);
    println!("inconclusive {:?}", a.r.inconclusive);
    println!("states {}", a.states.len());
    let mut m: BTreeMap<(String, String), (u64, u64, String)> = BTreeMap::new();
    for (i, _, vs) in &a.r.bad {
        let mut seen = BTreeSet::new();
        for v in vs {
            if seen.insert((v.property.clone(), v.class.clone())) {
                let e = m
                    .entry((v.property.clone(), v.class.clone()))
                    .or_insert((0, *i, v.detail.clone()));
                e.0 += 1;
            }
        }
    }
    for ((p, c), (n, i, d)) in m {
        let d: String = d.chars().take(300).collect();
        println!("{n:6} {p} [{c}] first seed#{i}: {d}");
    }
    for s in a.r.samples.iter().take(3) {
        println!("sample {s}");
    }
}

fn determinism(h: &Harness, n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    for base in [1u64, 7, 12345] {
        let mut items = vec![];
        let mut seen = BTreeSet::new();
        for p in &h.properties {
            for b in &p.batches {
                if seen.insert((b.scenario, b.variant)) {
                    items.extend(chunks(b.scenario, b.variant, n, 16));
                }
            }
        }
        let far = Instant::now() + Duration::from_secs(3600);
        let a = fan_out(items.clone(), "quick", base, far, &|_| false);
        // other grouping into processes and other worker count
        let mut items2 = vec![];
        for (s, v, f, t) in items {
            let mut i = f;
            while i < t {
                items2.push((s.clone(), v.clone(), i, i + 1));
                i += 16;
            }
        }
        items2.reverse();
        std::env::set_var("SIM_JOBS", "3");
        let b = fan_out(items2, "quick", base, far, &|_| false);
        std::env::remove_var("SIM_JOBS");
        for (k, d) in &b.digests {
            total += 1;
            if a.digests.get(k) != Some(d) {
                bad += 1;
                println!("DIVERGED {:?} base {base}: {:?} vs {d}", k, a.digests.get(k));
            }
        }
        if !a.died.is_empty() || !b.died.is_empty() {
            println!("workers died: {:?} {:?}", a.died, b.died);
        }
    }
    println!("determinism: {total} runs repeated in other processes, {bad} diverged");
    if bad > 0 {
        2
    } else {
        0
    }
}

fn replay(file: &str, verbose: bool) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let j: J = serde_json::from_str(&s).expect("replay json");
    let plan: Plan = serde_json::from_value(j["plan"].clone()).expect("plan");
    let id = j["property"].as_str().unwrap_or("").to_string();
    let class = j["class"].as_str().unwrap_or("").to_string();
    let mut ex = Exec::new();
    let out = ex.run(&plan, verbose);
    if verbose {
        for l in &out.log {
            println!("{l}");
        }
    }
    for v in relevant(&out.violations, &id) {
        if v.class == class {
            println!("reproduced {} [{}]: {}", id, v.class, v.detail);
            println!("VIOLATION property={id} replay={file}");
            return 1;
        }
    }
    println!("not reproduced; this run: {:?}", out.violations);
    0
}

fn check(h: &Harness, id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    println!("property={id} tier={tier} VERIF_SEED={base}");
    let Some(p) = h.properties.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let known = load_known();
    let known_classes: BTreeSet<String> = known
        .iter()
        .filter(|k| k.property == id)
        .map(|k| k.class.clone())
        .collect();
    let mut items: Vec<Item> = vec![];
    let per: Vec<Vec<Item>> = p
        .batches
        .iter()
        .map(|b| {
            let n = if tier == "thorough" { b.thorough } else { b.quick };
            chunks(b.scenario, b.variant, n, 20)
        })
        .collect();
    // interleave the batches
    let longest = per.iter().map(|v| v.len()).max().unwrap_or(0);
    for i in 0..longest {
        for v in &per {
            if let Some(x) = v.get(i) {
                items.push(x.clone());
            }
        }
    }
    let budget = if tier == "thorough" { 3600 } else { 300 };
    let deadline = t0 + Duration::from_secs(budget);
    let fresh_bad = AtomicU64::new(0);
    let kc = known_classes.clone();
    let idc = id.to_string();
    let a = fan_out(items.clone(), tier, base, deadline, &|r: &SeedsRes| {
        for b in &r.bad {
            if relevant(&b.2, &idc).iter().any(|v| !kc.contains(&v.class)) {
                fresh_bad.fetch_add(1, Ordering::SeqCst);
            }
        }
        // enough material to minimise: stop searching
        fresh_bad.load(Ordering::SeqCst) >= 24
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut n_viol = 0u64;
    let mut reported = vec![];
    let mut ex = Exec::new();
    let mut errors: Vec<String> = vec![];

    // a worker that died: find the run
    let mut bad = a.r.bad.clone_light();
    for (sc, va, from, to) in a.died.iter().take(2) {
        let mut found = false;
        for i in *from..*to {
            let plan = h.gen(sc, va, tier, base, i);
            let out = ex.run(&plan, false);
            if out.violations.iter().any(|v| v.class == "process-abort") {
                bad.push((i, plan, out.violations.clone()));
                found = true;
                break;
            }
        }
        if !found {
            errors.push(format!("worker died on {sc}/{va} {from}..{to} and it did not repeat"));
        }
    }

    // group by class, smallest index first
    let mut by_class: BTreeMap<String, Vec<(u64, Plan, Violation)>> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (i, plan, vs) in bad {
        for v in relevant(&vs, id) {
            if known_classes.contains(&v.class) {
                *known_hits.entry(v.class.clone()).or_insert(0) += 1;
            } else {
                by_class
                    .entry(v.class.clone())
                    .or_default()
                    .push((i, plan.clone(), v.clone()));
            }
        }
    }
    for k in known.iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    let mut classes: Vec<_> = by_class.into_iter().collect();
    classes.sort_by_key(|(_, v)| std::cmp::Reverse(v.len()));
    for (class, mut cases) in classes.into_iter().take(3) {
        cases.sort_by_key(|(i, p, _)| (serde_json::to_string(&p.data).unwrap().len(), *i));
        let mut done = false;
        for (i, plan, v) in cases.iter().take(4) {
            // confirm in a fresh process
            ex.fresh();
            let out = ex.run(plan, false);
            if !relevant(&out.violations, id).iter().any(|x| x.class == class) {
                errors.push(format!(
                    "seed#{i} [{class}] did not repeat in a fresh process: {}",
                    v.detail
                ));
                continue;
            }
            let limit = Instant::now() + Duration::from_secs(if reported.is_empty() { 60 } else { 25 });
            let min = shrink::minimise(plan, id, &class, limit);
            ex.fresh();
            let out = ex.run(&min, true);
            let hit = relevant(&out.violations, id)
                .into_iter()
                .find(|x| x.class == class)
                .cloned();
            let (final_plan, hit, out) = match hit {
                Some(hit) => (min, hit, out),
                None => {
                    ex.fresh();
                    let out = ex.run(plan, true);
                    (plan.clone(), v.clone(), out)
                }
            };
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let file = dir.join(format!("{id}-{}.json", slug(&class)));
            let rep = json!({
                "property": id,
                "class": class,
                "detail": hit.detail,
                "verif_seed": base,
                "seed_index": i,
                "seed": plan.seed,
                "harness": std::env::current_exe().ok().and_then(|p| p.file_name().map(|s| s.to_string_lossy().to_string())),
                "plan": final_plan,
                "trace": out.log.iter().take(4000).collect::<Vec<_>>(),
            });
            std::fs::write(&file, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
            println!("violation [{class}] seed#{i}: {}", hit.detail);
            println!("VIOLATION property={id} replay={}", file.display());
            n_viol += 1;
            reported.push(class.clone());
            code = 1;
            done = true;
            break;
        }
        let _ = done;
    }

    // repeat a sample of the runs in other processes: same seed, same execution
    let mut repeated = 0u64;
    let mut diverged = 0u64;
    if code == 0 {
        let keys: Vec<_> = a.digests.keys().cloned().collect();
        let want = if tier == "thorough" { 200 } else { 24 };
        let stepby = (keys.len() / want).max(1);
        let items: Vec<Item> = keys
            .iter()
            .step_by(stepby)
            .map(|(s, v, i)| (s.clone(), v.clone(), *i, *i + 1))
            .collect();
        let b = fan_out(items, tier, base, Instant::now() + Duration::from_secs(60), &|_| false);
        for (k, d) in &b.digests {
            repeated += 1;
            if a.digests.get(k) != Some(d) {
                diverged += 1;
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples: Vec<J> = a.r.samples.iter().take(4).map(|s| json!(s)).collect();
    if samples.is_empty() {
        samples.push(json!("none"));
    }
    let planned: u64 = p
        .batches
        .iter()
        .map(|b| if tier == "thorough" { b.thorough } else { b.quick })
        .sum();
    let silent: Vec<&str> = p
        .probes
        .iter()
        .filter(|x| !a.r.probes.contains_key(**x) && !a.r.fired.contains_key(**x))
        .cloned()
        .collect();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "wall_s": wall,
        "violations": n_viol,
        "assumptions": p.assumptions,
        "coverage": {
            "evaluations": a.r.runs,
            "distinct_nontrivial": a.traces.len(),
            "rule": p.rule,
            "samples": samples,
            "planned_runs": planned,
            "runs_per_batch": a.per_batch,
            "nontrivial_runs": a.r.nontrivial,
            "process_lives": a.r.lives,
            "seeds_and_runs_per_hour": (a.r.runs as f64 / search_s * 3600.0).round(),
            "operations_driven": a.r.ops,
            "scheduling_points": a.r.steps,
            "context_switches": a.r.switches,
            "file_system_operations": a.r.fs_ops,
            "transaction_commits": a.r.commits,
            "simulated_seconds": a.r.sim_ns as f64 / 1e9,
            "faults_injected": a.r.fired,
            "probes_hit": a.r.probes,
            "probes_silent": silent,
            "distinct_interleavings": a.traces.len(),
            "distinct_interleavings_measure": "hash of the sequence of context switches (who, to whom, at which kind of point) and of the recorded history",
            "distinct_states": a.states.len(),
            "inconclusive_runs": a.r.inconclusive,
            "known_finding_hits": known_hits,
            "repeated_in_other_process": repeated,
            "diverged_on_repeat": diverged,
            "components_real": p.real,
            "components_stub": p.stubs,
            "errors": errors,
        }
    });
    std::fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    println!(
        "{id}: {} runs ({} distinct non-trivial), {} steps, {:.1} simulated s, {:.1}s wall, violations={n_viol}, repeat {repeated}/{diverged} diverged",
        a.r.runs,
        a.traces.len(),
        a.r.steps,
        a.r.sim_ns as f64 / 1e9,
        wall
    );
    for e in &errors {
        println!("note: {e}");
    }
    if code == 0 && a.r.runs == 0 {
        eprintln!("no run completed");
        return 2;
    }
    code
}

trait CloneLight {
    fn clone_light(&self) -> Vec<(u64, Plan, Vec<Violation>)>;
}
impl CloneLight for Vec<(u64, Plan, Vec<Violation>)> {
    fn clone_light(&self) -> Vec<(u64, Plan, Vec<Violation>)> {
        self.clone()
    }
}

/// ends of a process life that no property allows: report them for the property under check
pub fn judge_end(out: &mut Outcome, r: &Report, phase: &str) -> bool {
    match &r.end {
        End::Done | End::Crashed => true,
        End::Panicked(m) => {
            out.violate("*", format!("panic:{}", util::where_of(m)), format!("{phase}: caller panicked: {m}"));
            false
        }
        End::Deadlock(d) => {
            out.violate("*", "deadlock", format!("{phase}: {d}"));
            false
        }
        End::StepLimit => {
            out.violate("*", "no-progress", format!("{phase}: step limit reached"));
            false
        }
        End::Hang => {
            out.violate("*", "hang", format!("{phase}: a thread ran without reaching a scheduling point"));
            false
        }
    }
}
