//! The server is started again and again on the disk that the previous process left, whatever that process was doing:
//! it must come up, with everything that was acknowledged, usable by its administrator.
use std::collections::BTreeSet;
use std::sync::Arc;
use std::sync::Mutex;

use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Fault;

use crate::app::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Project { n: u64 },
    SignUp { n: u64 },
    Password { n: u64 },
    Bucket { n: u64 },
    Org { n: u64 },
    Track { p: usize },
    Token,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Life {
    pub ops: Vec<Op>,
    pub armed_boot: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub conf: Conf,
    pub lives: Vec<Life>,
    pub err: bool,
}

#[derive(Clone, Debug)]
struct Thing {
    name: String,
    id: u64,
    token: String,
    sure: bool,
}

#[derive(Default)]
struct Hist {
    projects: Vec<Thing>,
    orgs: Vec<Thing>,
    users: Vec<(String, String, bool)>,
    /// passwords of the administrator that can be current
    pwds: Vec<String>,
    changed: bool,
    buckets: Vec<String>,
    tokens: Vec<String>,
    refresh: Vec<String>,
    failed: Option<String>,
    started: u64,
    ops: u64,
    violations: Vec<(String, String, String)>,
    digest: u64,
    states: Vec<u64>,
}

struct Ctx {
    work: Work,
    h: Mutex<Hist>,
}

impl Ctx {
    fn h(&self) -> std::sync::MutexGuard<'_, Hist> {
        self.h.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn violate(&self, class: &str, d: String) {
        simrt::logf(|| format!("VIOLATION C22 {class}: {d}"));
        self.h().violations.push(("C22".into(), class.to_string(), d));
    }
}

fn life_main(cx: Arc<Ctx>, life: usize) {
    let l = cx.work.lives[life].clone();
    let last = life + 1 == cx.work.lives.len();
    simrt::arm_faults(l.armed_boot);
    let srv = match Server::start(cx.work.conf.config()) {
        Ok(s) => s,
        Err(e) => {
            simrt::logf(|| format!("start failed: {e}"));
            cx.h().failed = Some(e);
            return;
        }
    };
    simrt::arm_faults(false);
    simrt::probe("started");
    cx.h().started += 1;
    let at = match check(&cx, &srv, life) {
        Ok(t) => t,
        Err((class, d)) => {
            cx.violate(&class, format!("life {life}: {d}"));
            return;
        }
    };
    simrt::arm_faults(!last);
    for op in &l.ops {
        step(&cx, &srv, &at, op, !last);
    }
    simrt::arm_faults(false);
    if let Some(e) = srv.failed() {
        cx.violate("server-ended", format!("life {life}: {e}"));
    }
    if last {
        if let Err((class, d)) = check(&cx, &srv, life) {
            cx.violate(&class, format!("at the end: {d}"));
        }
    }
}

fn step(cx: &Ctx, srv: &Server, at: &str, op: &Op, faults: bool) {
    cx.h().ops += 1;
    let done = |r: &Resp, what: &str| {
        simrt::logf(|| format!("{op:?} -> {} {}", r.status, r.body));
        if !r.ok() && !faults {
            cx.violate("refused", format!("{what}: {} {}", r.status, r.body));
        }
        r.ok()
    };
    match op {
        Op::Project { n } => {
            let name = format!("P{n}");
            cx.h().projects.push(Thing { name: name.clone(), id: 0, token: String::new(), sure: false });
            let i = cx.h().projects.len() - 1;
            let r = srv.post("/api/v1/projects", Some(at), json!({"name": name, "sessionDurationSeconds": 60 + n}));
            if done(&r, "project") {
                let t = &mut cx.h().projects[i];
                (t.id, t.token, t.sure) = (r.u("id"), r.s("sdkToken"), true);
            }
        }
        Op::Org { n } => {
            let name = format!("O{n}");
            cx.h().orgs.push(Thing { name: name.clone(), id: 0, token: String::new(), sure: false });
            let i = cx.h().orgs.len() - 1;
            let r = srv.post("/api/v1/organizations", Some(at), json!({"name": name}));
            if done(&r, "organization") {
                let t = &mut cx.h().orgs[i];
                (t.id, t.sure) = (r.u("id"), true);
            }
        }
        Op::SignUp { n } => {
            let (m, p) = (format!("u{n}@x.com"), format!("a good password {n}"));
            cx.h().users.push((m.clone(), p.clone(), false));
            let i = cx.h().users.len() - 1;
            let r = srv.post("/api/v1/auth/signup", None, json!({"email": m, "password": p, "passwordRepeat": p, "name": "n"}));
            if done(&r, "sign up") {
                cx.h().users[i].2 = true;
            }
        }
        Op::Password { n } => {
            let p = format!("an admin password {n}");
            if cx.h().changed {
                return;
            }
            cx.h().pwds.push(p.clone());
            let r = srv.put("/api/v1/profile/set-password", Some(at), json!({"password": p}));
            if done(&r, "password") {
                let mut h = cx.h();
                h.pwds = vec![p];
                h.changed = true;
            }
        }
        Op::Bucket { n } => {
            let b = format!("bucket{n}");
            cx.h().buckets.push(b.clone());
            let r = srv.put("/api/v1/admin/settings", Some(at), json!({"backupProviderGcpBucket": b}));
            if done(&r, "settings") {
                cx.h().buckets = vec![b];
            }
        }
        Op::Track { p } => {
            let t = {
                let h = cx.h();
                let l: Vec<&Thing> = h.projects.iter().filter(|p| p.sure).collect();
                match l.get(*p % l.len().max(1)) {
                    Some(t) => t.token.clone(),
                    None => return,
                }
            };
            let r = track(srv, &t);
            done(&r, "track");
        }
        Op::Token => {
            let p = cx.h().pwds.clone();
            if let [p] = p.as_slice() {
                let r = srv.login(ADMIN, p);
                if done(&r, "login") {
                    cx.h().tokens.push(r.s("accessToken"));
                    cx.h().refresh.push(r.s("refreshToken"));
                }
            }
        }
    }
}

fn track(srv: &Server, token: &str) -> Resp {
    srv.post(
        &format!("/api/v1/ingest/{token}/track"),
        None,
        json!({"event": "e", "userId": "u", "context": {"ip": "10.0.0.1"}, "properties": {"a": 1, "s": "x"}}),
    )
}

type R<T> = Result<T, (String, String)>;

fn bad<T>(c: &str, d: String) -> R<T> {
    Err((c.to_string(), d))
}

/// everything that holds of a server that has just been started
fn check(cx: &Ctx, srv: &Server, life: usize) -> R<String> {
    let printed = printed_password();
    let (pwds, changed) = {
        let mut h = cx.h();
        if h.pwds.is_empty() {
            h.pwds.push(printed.clone());
            h.buckets.push(String::new());
        } else if h.pwds.len() == 1 && !h.changed && h.pwds[0] != printed {
            return bad("password-changed", format!("printed {printed:?}, was {:?}", h.pwds[0]));
        }
        (h.pwds.clone(), h.changed)
    };
    let (mut tok, mut refresh) = (None, String::new());
    for p in &pwds {
        let r = srv.login(ADMIN, p);
        if r.ok() {
            tok = Some(r.s("accessToken"));
            refresh = r.s("refreshToken");
            let mut h = cx.h();
            h.changed |= p.starts_with("an admin");
            h.pwds = vec![p.clone()];
            break;
        }
    }
    let Some(tok) = tok else { return bad("admin-locked-out", format!("none of {pwds:?}, changed {changed}")) };
    // the administrator has an organization
    let r = srv.get("/api/v1/organizations", Some(&tok));
    let orgs: Vec<(u64, String)> = list(&r).iter().map(|o| (o["id"].as_u64().unwrap_or(0), o["name"].as_str().unwrap_or("").to_string())).collect();
    if orgs.iter().filter(|o| o.1 == "My Organization").count() != 1 {
        return bad("no-organization", format!("{} {}", r.status, r.body));
    }
    things(&cx.h().orgs, &orgs, &["My Organization"], "organization")?;
    // its projects
    let r = srv.get("/api/v1/projects", Some(&tok));
    if !r.ok() {
        return bad("projects", format!("{} {}", r.status, r.body));
    }
    let l = list(&r);
    let ps: Vec<(u64, String)> = l.iter().map(|o| (o["id"].as_u64().unwrap_or(0), o["name"].as_str().unwrap_or("").to_string())).collect();
    things(&cx.h().projects, &ps, &[], "project")?;
    let mut names: Option<BTreeSet<String>> = None;
    for p in &l {
        let sure = cx.h().projects.iter().find(|t| t.sure && Some(t.id) == p["id"].as_u64()).cloned();
        let t = p["sdkToken"].as_str().unwrap_or("");
        if let Some(s) = sure {
            if s.token != t {
                return bad("token-changed", format!("{p} was {s:?}"));
            }
        }
        let r = track(srv, t);
        if !r.ok() {
            return bad("project-unusable", format!("{p}: {} {}", r.status, r.body));
        }
        let id = p["id"].as_u64().unwrap_or(0);
        let mut s = BTreeSet::new();
        for path in ["schema/events", "schema/event-properties", "schema/group-properties/0", "schema/group-properties/3"] {
            let r = srv.get(&format!("/api/v1/projects/{id}/{path}"), Some(&tok));
            if !r.ok() {
                return bad("project-unusable", format!("{path}: {} {}", r.status, r.body));
            }
            for e in list(&r) {
                s.insert(format!("{path} {} {} {}", e["name"], e["isSystem"], e["dataType"]));
            }
        }
        match &names {
            None => names = Some(s),
            Some(o) if *o != s => {
                return bad("projects-differ", format!("{:?}", o.symmetric_difference(&s).collect::<Vec<_>>()));
            }
            _ => {}
        }
    }
    // other accounts
    let mut users = cx.h().users.clone();
    for u in &mut users {
        let r = srv.login(&u.0, &u.1);
        if u.2 && !r.ok() {
            return bad("account-lost", format!("{u:?}: {} {}", r.status, r.body));
        }
        u.2 |= r.ok();
    }
    cx.h().users = users;
    // tokens given out by earlier processes
    for t in cx.h().tokens.clone() {
        let r = srv.get("/api/v1/profile", Some(&t));
        if !r.ok() {
            return bad("token-refused", format!("{} {}", r.status, r.body));
        }
    }
    for t in cx.h().refresh.clone() {
        let r = srv.post("/api/v1/auth/refresh-token", None, json!({"refreshToken": t}));
        if !r.ok() {
            return bad("refresh-refused", format!("{} {}", r.status, r.body));
        }
    }
    // nobody else makes tokens
    let forged = platform::auth::token::make_access_token(1, 1, chrono::Duration::hours(1), "").unwrap();
    let r = srv.get("/api/v1/profile", Some(&forged));
    if r.status != 401 {
        return bad("forged-token", format!("{} {}", r.status, r.body));
    }
    let r = srv.get("/api/v1/admin/settings", Some(&tok));
    let b = r.s("backupProviderGcpBucket");
    if !cx.h().buckets.contains(&b) {
        return bad("settings-lost", format!("{} {}, {:?}", r.status, r.body, cx.h().buckets));
    }
    cx.h().buckets = vec![b];
    let mut h = cx.h();
    let s = simdrv::util::hash(&format!("{life} {changed} {orgs:?} {ps:?} {:?}", h.users.iter().filter(|u| u.2).count()));
    h.states.push(s);
    h.digest = simrt::rng::mix(h.digest ^ s);
    h.tokens.push(tok.clone());
    h.refresh.push(refresh);
    Ok(tok)
}

fn list(r: &Resp) -> Vec<serde_json::Value> {
    r.body["data"].as_array().cloned().unwrap_or_default()
}

fn things(want: &[Thing], got: &[(u64, String)], other: &[&str], what: &str) -> R<()> {
    for t in want.iter().filter(|t| t.sure) {
        if !got.contains(&(t.id, t.name.clone())) {
            return bad(&format!("{what}-lost"), format!("{t:?} not in {got:?}"));
        }
    }
    let ids: BTreeSet<u64> = got.iter().map(|g| g.0).collect();
    let names: BTreeSet<&String> = got.iter().map(|g| &g.1).collect();
    if ids.len() != got.len() || names.len() != got.len() {
        return bad(&format!("{what}-twice"), format!("{got:?}"));
    }
    for g in got {
        if !other.contains(&g.1.as_str()) && !want.iter().any(|t| t.name == g.1) {
            return bad(&format!("{what}-unknown"), format!("{g:?}"));
        }
    }
    Ok(())
}

pub struct Boot;

impl Scenario for Boot {
    fn name(&self) -> &'static str {
        "boot"
    }

    fn generate(&self, r: &mut Rng, variant: &str, tier: &str) -> Plan {
        let mut conf = crate::gen_conf(r);
        conf.access_s = 10_000_000;
        conf.refresh_s = 10_000_000;
        conf.cleaner_s = *r.pick(&[1, 3600]);
        let err = variant == "err";
        let nl = 2 + r.usize(if tier == "thorough" { 6 } else { 4 });
        let mut n = 0;
        let (mut lives, mut cfgs) = (vec![], vec![]);
        for life in 0..nl {
            let mut l = Life { ops: vec![], armed_boot: life + 1 < nl && r.below(4) > 0 };
            for _ in 0..r.below(6) {
                n += 1;
                l.ops.push(match r.below(12) {
                    0..=3 => Op::Project { n },
                    4 | 5 => Op::SignUp { n },
                    6 => Op::Password { n },
                    7 => Op::Bucket { n },
                    8 => Op::Org { n },
                    9 => Op::Token,
                    _ => Op::Track { p: r.usize(3) },
                });
            }
            if life + 1 == nl {
                n += 1;
                l.ops.push(Op::Project { n });
            }
            let mut c = simdrv::util::cfg(r);
            c.tick_ns = *r.pick(&[0, 1000, 20_000]);
            c.step_limit = 3_000_000;
            if life + 1 < nl {
                let span = *r.pick(&[3, 10, 40, 200]);
                for _ in 0..1 + (err && r.below(2) == 0) as u64 {
                    let op = 1 + r.below(span);
                    c.faults.push(match r.below(if err { 12 } else { 5 }) {
                        0 => Fault::CrashStep { step: 1 + r.below(span * 20) },
                        1..=3 => Fault::CrashCommit { op, after: r.below(2) == 0 },
                        4 => Fault::Crash { op, keep: *r.pick(&[0, 300, 999, 1000]) },
                        5 => Fault::WriteErr { op, errno: *r.pick(&[5, 28]), keep: *r.pick(&[0, 300, 999]) },
                        6 => Fault::DiskFull { op, until: op + 1 + r.below(10) },
                        7 => Fault::ReadErr { op, errno: 5 },
                        _ => Fault::CommitErr { op },
                    });
                }
            }
            if r.below(6) == 0 {
                c.faults.push(Fault::ClockJump { step: 1 + r.below(2000), ms: *r.pick(&[-3_600_000, 60_000, 86_400_000]) });
            }
            if r.below(6) == 0 {
                c.faults.push(Fault::Stall { step: 1 + r.below(3000), ms: *r.pick(&[5, 500]) });
            }
            cfgs.push(c);
            lives.push(l);
        }
        let work = Work { conf, lives, err };
        Plan { scenario: String::new(), seed: 0, cfgs, data: serde_json::to_value(&work).unwrap() }
    }

    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        let mut out = Outcome::default();
        let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
        let cx = Arc::new(Ctx { work, h: Mutex::new(Hist::default()) });
        let (c2, c3, c4) = (cx.clone(), cx.clone(), cx.clone());
        let seen = crate::lives::run(
            plan,
            &mut out,
            verbose,
            cx.work.lives.len(),
            Arc::new(move |life| life_main(c2.clone(), life)),
            None,
            &|| c3.h().violations.is_empty(),
            &|life, rep| {
                let f = c4.h().failed.take();
                if let Some(e) = f {
                    if !crate::lives::error_faults(rep) {
                        c4.violate("start-failed", format!("life {life}: {e}"));
                    }
                } else if rep.end == simrt::End::Done && !crate::lives::error_faults(rep) && !rep.panics.is_empty() {
                    c4.violate("panic", format!("life {life}: {:?}", rep.panics));
                }
            },
        );
        let mut h = cx.h();
        for (p, c, d) in std::mem::take(&mut h.violations) {
            out.violate(&p, c, d);
        }
        out.nontrivial = seen.crashed || seen.faulted;
        out.ops = h.ops;
        out.digest = h.digest;
        out.states = std::mem::take(&mut h.states);
        out.summary = format!("{} lives, {} starts, {} requests, crashed={}, faulted={}", out.stats.len(), h.started, h.ops, seen.crashed, seen.faulted);
        out
    }
}
