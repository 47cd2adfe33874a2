//! Backups through the whole server: requested, scheduled, local and uploaded, while clients send events, with crashes
//! and failing disks. What a backup is worth is judged by restoring it.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Duration;

use chrono::Datelike;
use chrono::Timelike;
use common::types::TABLE_EVENTS;
use metadata::backups::Provider;
use metadata::backups::Status;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Fault;
use storage::db::OptiDBImpl;
use storage::db::Options;

use crate::app::*;
use crate::reader::*;

/// what the administrator configures
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Set {
    pub on: bool,
    pub pwd: Option<String>,
    pub gcp: Option<(String, String)>,
    /// Amazon's instead, same names
    #[serde(default)]
    pub s3: bool,
    /// hourly, daily, weekly, monthly, yearly
    pub every: String,
    pub hour: u64,
}

impl Set {
    fn json(&self) -> serde_json::Value {
        let mut j = json!({
            "backupEnabled": self.on,
            "backupEncryptionEnabled": self.pwd.is_some(),
            "backupProvider": if self.s3 { "s3" } else if self.gcp.is_some() { "gcp" } else { "local" },
            "backupScheduleInterval": self.every,
            "backupScheduleStartHour": self.hour,
        });
        if let Some(p) = &self.pwd {
            j["backupEncryptionPassword"] = p.clone().into();
        }
        if let Some((b, p)) = self.gcp.as_ref().filter(|_| self.s3) {
            j["backupProviderS3Bucket"] = b.clone().into();
            j["backupProviderS3Path"] = p.clone().into();
            for k in ["Region", "AccessKey", "SecretKey"] {
                j[format!("backupProviderS3{k}")] = "k".into();
            }
        } else if let Some((b, p)) = &self.gcp {
            j["backupProviderGcpBucket"] = b.clone().into();
            j["backupProviderGcpPath"] = p.clone().into();
            j["backupProviderGcpKey"] = "key".into();
        }
        j
    }

    /// is a backup due in the minute that begins then
    fn due(&self, ms: i64) -> bool {
        let t = chrono::DateTime::from_timestamp_millis(ms).unwrap();
        let h = t.hour() as u64 == self.hour;
        self.on
            && t.minute() == 0
            && match self.every.as_str() {
                "hourly" => true,
                "daily" => h,
                "weekly" => h && t.weekday() == chrono::Weekday::Sun,
                "monthly" => h && t.day() == 1,
                _ => h && t.day() == 1 && t.month() == 1,
            }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Track { c: usize, rid: u64 },
    Sleep { c: usize, ms: u64 },
    /// client 0 only
    Set { set: Set },
    Backup,
    List,
}

impl Op {
    fn client(&self) -> usize {
        match self {
            Op::Track { c, .. } | Op::Sleep { c, .. } => *c,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Life {
    pub ops: Vec<Op>,
    pub armed_boot: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub variant: String,
    pub conf: Conf,
    pub lives: Vec<Life>,
}

#[derive(Clone, Debug)]
struct Span {
    life: usize,
    inv: i64,
    ack: Option<i64>,
    ok: bool,
    refused: bool,
}

#[derive(Default)]
struct Hist {
    token: String,
    sets: Vec<(Span, Set)>,
    reqs: Vec<Span>,
    tracks: Vec<(Span, u64)>,
    /// backup id -> last status seen, as text
    seen: BTreeMap<u64, String>,
    /// (from, to, life) of the times the server was up
    up: Vec<(i64, i64, usize)>,
    clean: BTreeSet<usize>,
    failed: Option<String>,
    ops: u64,
    violations: Vec<(String, String, String)>,
    digest: u64,
    states: Vec<u64>,
    done: usize,
}

struct Ctx {
    work: Work,
    h: Mutex<Hist>,
}

impl Ctx {
    fn h(&self) -> std::sync::MutexGuard<'_, Hist> {
        self.h.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn violate(&self, p: &str, class: &str, d: String) {
        simrt::logf(|| format!("VIOLATION {p} {class}: {d}"));
        self.h().violations.push((p.into(), class.to_string(), d));
    }
}

fn now_ms() -> i64 {
    chrono::Utc::now().timestamp_millis()
}

fn client(cx: Arc<Ctx>, srv: Arc<Server>, tok: String, life: usize, ops: Vec<Op>) {
    for op in ops {
        let sp = Span { life, inv: now_ms(), ack: None, ok: false, refused: false };
        match &op {
            Op::Sleep { ms, .. } => {
                let mut left = *ms;
                while left > 0 {
                    // the server is seen to be up
                    let d = left.min(30_000);
                    simrt::sleep(Duration::from_millis(d));
                    left -= d;
                    tick(&cx, life);
                }
            }
            Op::Track { rid, .. } => {
                let (i, t) = {
                    let mut h = cx.h();
                    h.ops += 1;
                    h.tracks.push((sp, *rid));
                    (h.tracks.len() - 1, h.token.clone())
                };
                let r = track(&srv, &t, *rid);
                simrt::logf(|| format!("{op:?} -> {} {}", r.status, r.body));
                let s = &mut cx.h().tracks[i].0;
                (s.ack, s.ok) = (Some(now_ms()), r.ok());
            }
            Op::Set { set } => {
                put_settings(&cx, &srv, &tok, life, set);
            }
            Op::Backup => {
                request(&cx, &srv, &tok, life);
            }
            Op::List => {
                let _ = observe(&cx, &srv, &tok);
            }
        }
        tick(&cx, life);
    }
}

fn tick(cx: &Ctx, life: usize) {
    let t = now_ms();
    if let Some(u) = cx.h().up.iter_mut().rev().find(|u| u.2 == life) {
        u.1 = u.1.max(t);
    }
}

fn track(srv: &Server, token: &str, rid: u64) -> Resp {
    srv.post(
        &format!("/api/v1/ingest/{token}/track"),
        None,
        json!({"event": "e", "userId": "u", "context": {}, "properties": {"rid": format!("r{rid}"), "n": rid}}),
    )
}

fn put_settings(cx: &Ctx, srv: &Server, tok: &str, life: usize, set: &Set) -> bool {
    let i = {
        let mut h = cx.h();
        h.ops += 1;
        h.sets.push((Span { life, inv: now_ms(), ack: None, ok: false, refused: false }, set.clone()));
        h.sets.len() - 1
    };
    let r = srv.put("/api/v1/admin/settings", Some(tok), set.json());
    simrt::logf(|| format!("{set:?} -> {} {}", r.status, r.body));
    if r.ok() && set.hour > 23 {
        cx.violate("C24", "impossible-schedule", format!("{set:?} accepted"));
    }
    if r.ok() {
        let want = set.json();
        for k in ["backupEnabled", "backupEncryptionEnabled", "backupProvider", "backupScheduleInterval", "backupScheduleStartHour", "backupProviderGcpBucket", "backupProviderGcpPath"] {
            if want.get(k).is_some() && want[k] != r.body[k] {
                cx.violate("C24", "setting-ignored", format!("{k} set to {}, is {}", want[k], r.body[k]));
            }
        }
    }
    let s = &mut cx.h().sets[i].0;
    (s.ack, s.ok, s.refused) = (Some(now_ms()), r.ok(), (400..500).contains(&r.status));
    r.ok()
}

fn request(cx: &Ctx, srv: &Server, tok: &str, life: usize) -> Resp {
    let i = {
        let mut h = cx.h();
        h.ops += 1;
        h.reqs.push(Span { life, inv: now_ms(), ack: None, ok: false, refused: false });
        h.reqs.len() - 1
    };
    let r = srv.post("/api/v1/admin/backups/backup", Some(tok), json!({}));
    simrt::logf(|| format!("backup -> {} {}", r.status, r.body));
    let s = &mut cx.h().reqs[i];
    (s.ack, s.ok) = (Some(now_ms()), r.ok());
    r
}

/// the list of backups: states only advance
fn observe(cx: &Ctx, srv: &Server, tok: &str) -> Vec<(u64, String)> {
    let r = srv.get("/api/v1/admin/backups", Some(tok));
    let mut out = vec![];
    for b in r.body["data"].as_array().cloned().unwrap_or_default() {
        let (id, st) = (b["id"].as_u64().unwrap_or(0), b["status"].as_str().unwrap_or("").to_string());
        let was = cx.h().seen.insert(id, st.clone());
        let rank = |s: &str| ["idle", "inProgress", "uploading", "failed", "completed"].iter().position(|x| *x == s);
        if let Some(w) = was {
            let end = matches!(w.as_str(), "failed" | "completed");
            if rank(&w) > rank(&st) || end && w != st {
                cx.violate("C24", "state-went-back", format!("backup {id}: {w} -> {st}"));
            }
        }
        out.push((id, st));
    }
    let mut h = cx.h();
    for id in h.seen.keys() {
        if r.ok() && !out.iter().any(|o| o.0 == *id) {
            let v = ("C24".to_string(), "backup-lost".to_string(), format!("backup {id} is not listed any more"));
            h.violations.push(v);
            break;
        }
    }
    out
}

fn life_main(cx: Arc<Ctx>, life: usize) {
    let l = cx.work.lives[life].clone();
    simrt::arm_faults(l.armed_boot);
    let srv = match Server::start(cx.work.conf.config()) {
        Ok(s) => Arc::new(s),
        Err(e) => {
            cx.h().failed = Some(e);
            return;
        }
    };
    simrt::arm_faults(false);
    let t = now_ms();
    cx.h().up.push((t, t, life));
    let tok = match srv.admin() {
        Ok(t) => t,
        Err(e) => {
            cx.violate("C22", "admin-locked-out", e);
            return;
        }
    };
    if life == 0 {
        match srv.project(&tok, "P", 86400) {
            Ok(p) => cx.h().token = p.token,
            Err(e) => {
                cx.violate("C22", "setup-failed", e);
                return;
            }
        }
    }
    let _ = observe(&cx, &srv, &tok);
    simrt::arm_faults(true);
    let n = l.ops.iter().map(|o| o.client() + 1).max().unwrap_or(0);
    let hs: Vec<_> = (0..n)
        .map(|c| {
            let (cx, srv, tok) = (cx.clone(), srv.clone(), tok.clone());
            let ops: Vec<Op> = l.ops.iter().filter(|o| o.client() == c).cloned().collect();
            simrt::spawn("client", move || client(cx, srv, tok, life, ops))
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    simrt::arm_faults(false);
    // now that nothing fails, backups work
    let last = cx.h().sets.iter().rev().find(|s| s.0.ok).map(|s| s.1.clone());
    let mut set = last.unwrap_or(Set { on: true, pwd: None, gcp: None, s3: false, every: "yearly".into(), hour: 3 });
    set.on = true;
    set.s3 = false;
    if !put_settings(&cx, &srv, &tok, life, &set) {
        cx.violate("C24", "settings-refused", format!("life {life}: {set:?}"));
        return;
    }
    simrt::sleep(Duration::from_secs(25));
    let before: Vec<u64> = observe(&cx, &srv, &tok).iter().map(|b| b.0).collect();
    let mut r = request(&cx, &srv, &tok, life);
    if r.status == 409 {
        // a scheduled one is just waiting
        simrt::sleep(Duration::from_secs(12));
        r = request(&cx, &srv, &tok, life);
    }
    if !r.ok() {
        cx.violate("C24", "request-refused", format!("life {life}: {} {}", r.status, r.body));
    }
    simrt::sleep(Duration::from_secs(45));
    tick(&cx, life);
    let mut after = observe(&cx, &srv, &tok);
    if after.iter().any(|a| !matches!(a.1.as_str(), "completed" | "failed")) {
        // one that was due just now
        simrt::sleep(Duration::from_secs(30));
        tick(&cx, life);
        after = observe(&cx, &srv, &tok);
    }
    for (id, st) in &after {
        if !matches!(st.as_str(), "completed" | "failed") {
            cx.violate("C24", "stuck", format!("life {life}: backup {id} is {st}"));
        } else if !before.contains(id) && st != "completed" {
            cx.violate("C24", "failed-for-no-reason", format!("life {life}: backup {id} is {st}"));
        }
    }
    if r.ok() && !after.iter().any(|a| !before.contains(&a.0)) {
        cx.violate("C24", "request-forgotten", format!("life {life}: {after:?}"));
    }
    let left = simrt::fs::list(&PathBuf::from(DATA).join(common::DATA_PATH_BACKUP_TMP)).unwrap_or_default();
    if !left.is_empty() && cx.h().violations.is_empty() {
        cx.violate("C24", "leftovers", format!("life {life}: {left:?}"));
    }
    if let Some(e) = srv.failed() {
        cx.violate("*", "server-ended", format!("life {life}: {e}"));
    }
    if !simrt::panics().is_empty() {
        cx.violate("*", "panic", format!("life {life}: {:?}", simrt::panics()));
    }
    cx.h().clean.insert(life);
}

/// settings that may be current at some time in [a, b]
fn settings_in(h: &Hist, a: i64, b: i64) -> Vec<Set> {
    let mut out = vec![];
    let mut cur: Option<Set> = Some(Set { on: false, pwd: None, gcp: None, s3: false, every: "daily".into(), hour: 0 });
    for (sp, s) in &h.sets {
        let end = sp.ack.unwrap_or(i64::MAX);
        if sp.refused {
            continue;
        }
        if sp.inv > b {
            break;
        }
        if end >= a {
            // it changes in the interval or may
            out.extend(cur.clone());
        }
        if sp.ok && end < a {
            out.clear();
        }
        if sp.ok {
            cur = Some(s.clone());
        } else {
            out.extend(cur.clone());
            out.push(s.clone());
        }
    }
    out.extend(cur);
    out
}

/// the same second counts as the same time
fn sec(ms: i64) -> i64 {
    ms.div_euclid(1000)
}

fn judge(cx: &Ctx) -> Result<(), String> {
    let rd = Reader::open()?;
    let list = rd.md.backups.list().map_err(|e| e.to_string())?.data;
    let p = rd.md.projects.list().map_err(|e| e.to_string())?.data;
    let Some(p) = p.first() else { return Ok(()) };
    let props = rd.event_props(p.id)?;
    let mut h = cx.h();
    let mut vio: Vec<(&str, &str, String)> = vec![];
    // schedule
    let mut free = vec![];
    let mut reqs: Vec<Span> = h.reqs.clone();
    for b in &list {
        let at = b.created_at.timestamp();
        let fits = |r: &Span| sec(r.inv) <= at && r.ack.is_none_or(|a| at <= sec(a));
        let i = reqs.iter().position(|r| r.ok && fits(r)).or_else(|| reqs.iter().position(fits));
        match i {
            Some(i) => {
                reqs.remove(i);
            }
            None => free.push(b),
        }
        let sets = settings_in(&h, at * 1000, at * 1000 + 999);
        let prov = |s: &Set| match (&b.provider, &s.gcp) {
            (Provider::Local(_), None) => true,
            (Provider::GCP(g), Some((bk, pt))) => !s.s3 && g.bucket == *bk && g.path == *pt,
            (Provider::S3(g), Some((bk, pt))) => s.s3 && g.bucket == *bk && g.path == *pt,
            _ => false,
        };
        if !sets.iter().any(|s| s.pwd.is_some() == b.is_encrypted && s.pwd == b.password && prov(s)) {
            vio.push(("C23", "not-as-configured", format!("{b:?}, configured {sets:?}")));
        }
    }
    for r in &reqs {
        if r.ok {
            vio.push(("C24", "request-forgotten", format!("{r:?}")));
        }
    }
    let mut minutes = BTreeSet::new();
    for b in &free {
        let m = b.created_at.timestamp().div_euclid(60) * 60_000;
        if !settings_in(&h, m, m + 59_999).iter().any(|s| s.due(m)) {
            vio.push(("C24", "not-due", format!("{b:?}")));
        } else if !minutes.insert(m) {
            vio.push(("C24", "scheduled-twice", format!("{b:?}")));
        }
        simrt::probe("scheduled");
    }
    for (a, z, life) in &h.up {
        let mut m = a.div_euclid(3_600_000) * 3_600_000;
        while m + 75_000 <= *z {
            let sets = settings_in(&h, m - 15_000, m + 60_000);
            let sure = m >= *a && sets.iter().all(|s| s.due(m)) && h.clean.contains(life);
            let any = list.iter().any(|b| b.created_at.timestamp().div_euclid(60) * 60_000 == m);
            if sure && !any {
                let t = chrono::DateTime::from_timestamp_millis(m).unwrap();
                vio.push(("C24", "not-scheduled", format!("life {life}: nothing at {t}, {sets:?}")));
            }
            m += 3_600_000;
        }
    }
    // what a completed backup holds
    let dir = PathBuf::from(DATA).join(common::DATA_PATH_BACKUPS);
    let mut places = BTreeSet::new();
    for (i, b) in list.iter().enumerate() {
        let st = match &b.status {
            Status::Completed => "completed",
            Status::Failed(_) => "failed",
            _ => "open",
        };
        h.digest = simrt::rng::mix(h.digest ^ simdrv::util::hash(&format!("{} {st} {:?} {:?}", b.id, b.provider, b.is_encrypted)));
        if b.status != Status::Completed {
            continue;
        }
        simrt::probe("completed");
        h.done += 1;
        let path = b.path();
        let what = format!("backup {} of {}", b.id, b.created_at);
        let place = match &b.provider {
            Provider::GCP(g) => format!("{}:{path}", g.bucket),
            Provider::S3(g) => format!("{}:{path}", g.bucket),
            Provider::Local(_) => path.clone(),
        };
        if list.iter().any(|o| o.id < b.id && o.created_at.timestamp() == b.created_at.timestamp() && o.status == Status::Completed) {
            simrt::probe("same_second");
        }
        if !places.insert(place) {
            vio.push(("C23", "no-file-of-its-own", format!("{what}: {path}")));
        }
        let data = match &b.provider {
            Provider::GCP(g) => {
                simrt::probe("uploaded");
                object_store_sim::objects().get(&g.bucket, &path)
            }
            Provider::S3(g) => object_store_sim::objects().get(&g.bucket, &path),
            Provider::Local(_) => {
                let n = PathBuf::from(&path).file_name().unwrap().to_owned();
                std_read(&dir.join(n))
            }
        };
        let Some(data) = data else {
            vio.push(("C23", "no-file", format!("{what}: {path}")));
            continue;
        };
        let raw = match zip::unpack(&data, b.password.as_deref()) {
            Ok(r) => r,
            Err(e) => {
                vio.push(("C23", "unreadable", format!("{what}: {e}")));
                continue;
            }
        };
        match rids(&rd, p.id, &props, i, &raw) {
            Err(e) => vio.push(("C23", "not-restorable", format!("{what}: {e}"))),
            Ok(got) => {
                h.digest = simrt::rng::mix(h.digest ^ simdrv::util::hash(&format!("{got:?}")));
                let created = b.created_at.timestamp();
                let done = b.updated_at.map(|t| t.timestamp()).unwrap_or(i64::MAX);
                for (sp, rid) in &h.tracks {
                    let n = got.iter().filter(|g| **g == format!("r{rid}")).count();
                    let before = sp.ok && sp.ack.is_some_and(|a| sec(a) < created);
                    if before && n != 1 {
                        vio.push(("C23", "event-missing", format!("{what}: r{rid} {n} times, accepted at {:?}", sp.ack)));
                    }
                    if n > 0 && sec(sp.inv) > done {
                        vio.push(("C23", "overwritten", format!("{what}: holds r{rid}, sent at {}, after it was completed", sp.inv)));
                    }
                    if n > 1 {
                        vio.push(("C23", "event-twice", format!("{what}: r{rid}")));
                    }
                }
            }
        }
    }
    // whatever has the name of a backup is one
    for (f, _) in simrt::fs::list(&dir).unwrap_or_default() {
        let data = std_read(&f).unwrap_or_default();
        let pw: Vec<Option<&str>> = list.iter().map(|b| b.password.as_deref()).collect();
        if !pw.iter().any(|p| zip::unpack(&data, *p).is_ok()) {
            vio.push(("C23", "incomplete-file", format!("{f:?}, {} bytes", data.len())));
        }
    }
    let s = simdrv::util::hash(&format!("{:?}", list.iter().map(|b| std::mem::discriminant(&b.status)).map(|d| format!("{d:?}")).collect::<Vec<_>>()));
    h.states.push(s);
    drop(h);
    for (p, c, d) in vio {
        cx.violate(p, c, d);
    }
    Ok(())
}

fn std_read(p: &std::path::Path) -> Option<Vec<u8>> {
    let h = simrt::fs::open(p, &simrt::fs::Oo { read: true, ..Default::default() }).ok()?;
    let mut v = vec![];
    let mut b = [0u8; 65536];
    loop {
        match h.read(&mut b) {
            Ok(0) => return Some(v),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(_) => return None,
        }
    }
}

/// the events of a restored backup
fn rids(rd: &Reader, p: u64, props: &BTreeMap<String, metadata::properties::Property>, i: usize, raw: &[u8]) -> Result<Vec<String>, String> {
    let path = PathBuf::from(format!("/srv/restore{i}"));
    simrt::fs::mkdir(&path, true).map_err(|e| e.to_string())?;
    let db = Arc::new(OptiDBImpl::open(path, Options {}).map_err(|e| e.to_string())?);
    db.full_restore(&mut std::io::Cursor::new(raw)).map_err(|e| e.to_string())?;
    let r2 = Reader { db, md: rd.md.clone(), rocks: rd.rocks.clone() };
    let mut out = vec![];
    let ev = rd.md.events.get_by_name(p, "e").map(|e| e.id as i64).unwrap_or(-1);
    for row in r2.scan(TABLE_EVENTS)? {
        // not the beginning of a session
        if row.get("event").and_then(|c| c.int()) != Some(ev) {
            continue;
        }
        let Some(prop) = props.get("rid") else { continue };
        if !row.contains_key(&prop.column_name()) {
            continue;
        }
        if let Cell::S(s) = rd.value(p, TABLE_EVENTS, prop, &row)? {
            out.push(s);
        }
    }
    // the other tables come with it
    for g in 0..common::GROUPS_COUNT {
        r2.group(g)?;
    }
    Ok(out)
}

pub struct Backup;

impl Scenario for Backup {
    fn name(&self) -> &'static str {
        "backup"
    }

    fn generate(&self, r: &mut Rng, variant: &str, tier: &str) -> Plan {
        let mut conf = crate::gen_conf(r);
        conf.access_s = 10_000_000;
        let nl = if variant == "plain" { 1 + r.usize(2) } else { 2 + r.usize(2) };
        // shortly before: a new year on a Monday, a Sunday, a new month, an hour of a day, late on a Sunday
        let (base, at) = *r.pick(&[(1_704_067_200u64, 0), (1_704_585_600, 0), (1_706_745_600, 0), (1_700_002_800, 23), (1_707_087_600, 23)]);
        let epoch = (base - 20 - r.below(300)) * 1_000_000_000 + r.below(1_000_000_000);
        let mut rid = 0;
        let (mut lives, mut cfgs) = (vec![], vec![]);
        for life in 0..nl {
            let mut l = Life::default();
            let set = |r: &mut Rng| Set {
                on: r.below(6) > 0,
                pwd: (r.below(3) == 0).then(|| format!("pw{}", r.below(3))),
                gcp: (r.below(3) == 0).then(|| (format!("b{}", r.below(2)), r.pick(&["", "dir"]).to_string())),
                s3: false,
                every: r.pick(&["hourly", "hourly", "daily", "weekly", "monthly", "yearly"]).to_string(),
                hour: *r.pick(&[at, at, 0, 1, 22, 23, 23, 24]),
            };
            let set = |r: &mut Rng| {
                let mut s = set(r);
                s.s3 = s.gcp.is_some() && r.below(4) == 0;
                s
            };
            if life == 0 || r.below(2) == 0 {
                l.ops.push(Op::Set { set: set(r) });
            }
            let mut n = 2 + r.below(if tier == "thorough" { 30 } else { 14 });
            match r.below(if variant == "plain" { 5 } else { 8 }) {
                // only the schedule
                0 | 1 if life == 0 => {
                    let mut s = set(r);
                    (s.on, s.hour) = (true, at);
                    l.ops = vec![Op::Set { set: s }, Op::Sleep { c: 0, ms: 420_000 }];
                    n = 2;
                }
                // several at once, with events between them
                2 => {
                    // around the moment when the first of them begins
                    let at = r.below(2) == 0;
                    if at {
                        l.ops.push(Op::Sleep { c: 0, ms: 9_300 + r.below(600) });
                    }
                    for _ in 0..2 + r.below(40) {
                        l.ops.push(Op::Backup);
                        l.ops.push(Op::Sleep { c: 0, ms: if at { 80 } else { 300 } });
                    }
                    for _ in 0..5 {
                        rid += 1;
                        l.ops.push(Op::Track { c: 1, rid });
                        l.ops.push(Op::Sleep { c: 1, ms: 2_000 + r.below(9_000) });
                    }
                    l.ops.push(Op::Sleep { c: 0, ms: 40_000 });
                    n = r.below(4);
                }
                // one that is interrupted
                5..=7 => {
                    let mut s = set(r);
                    s.on = true;
                    if s.gcp.is_none() && r.below(2) == 0 {
                        s.gcp = Some(("b1".into(), "".into()));
                    }
                    l.ops = vec![Op::Set { set: s }, Op::Backup, Op::Sleep { c: 0, ms: 25_000 }];
                    n = r.below(4);
                }
                _ => {}
            }
            for _ in 0..n {
                l.ops.push(match r.below(12) {
                    0..=3 => {
                        rid += 1;
                        Op::Track { c: 1 + r.usize(2), rid }
                    }
                    4 => Op::Set { set: set(r) },
                    5..=7 => Op::Backup,
                    8 => Op::List,
                    9 => Op::Sleep { c: 0, ms: *r.pick(&[500, 12_000, 100_000]) + r.below(2000) },
                    10 => Op::Sleep { c: r.usize(3), ms: *r.pick(&[500, 5_000, 30_000]) + r.below(2000) },
                    _ if r.below(15) == 0 => Op::Sleep { c: 0, ms: 3_700_000 },
                    _ => Op::Sleep { c: 0, ms: *r.pick(&[100_000, 200_000, 300_000]) },
                });
            }
            let mut c = simdrv::util::cfg(r);
            c.epoch_ns = epoch;
            c.tick_ns = *r.pick(&[0, 1000, 20_000]);
            c.step_limit = 6_000_000;
            let last = life + 1 == nl;
            if !last && variant != "plain" {
                l.armed_boot = r.below(3) == 0;
                let span = *r.pick(&[10, 40, 150]);
                let err = variant == "err";
                for _ in 0..1 + (err && r.below(2) == 0) as u64 {
                    let op = 1 + r.below(span);
                    c.faults.push(match if err {
                        4 + r.below(6)
                    } else if r.below(3) == 0 {
                        10
                    } else {
                        r.below(4)
                    } {
                        10 => Fault::AppFault { op: 1 + r.below(3), kind: 102 + r.below(5) as u32 },
                        0 => Fault::CrashStep { step: 1 + r.below(span * 60) },
                        1 => Fault::CrashCommit { op, after: r.below(2) == 0 },
                        2 | 3 => Fault::Crash { op, keep: *r.pick(&[0, 300, 999, 1000]) },
                        4 => Fault::WriteErr { op, errno: *r.pick(&[5, 28]), keep: *r.pick(&[0, 300, 999]) },
                        5 => Fault::DiskFull { op, until: op + 1 + r.below(30) },
                        6 => Fault::ReadErr { op: 1 + r.below(10), errno: 5 },
                        7 => Fault::AppFault { op: 1 + r.below(3), kind: 2 + r.below(5) as u32 },
                        8 => Fault::ShortWrite { op, keep: 1 + r.below(999) as u32 },
                        _ => Fault::CommitErr { op },
                    });
                }
            }
            if r.below(6) == 0 {
                c.faults.push(Fault::Slow { op: 1 + r.below(60), ms: *r.pick(&[20, 900]) });
            }
            if r.below(6) == 0 {
                c.faults.push(Fault::Stall { step: 1 + r.below(3000), ms: *r.pick(&[5, 500]) });
            }
            cfgs.push(c);
            lives.push(l);
        }
        let work = Work { variant: variant.to_string(), conf, lives };
        Plan { scenario: String::new(), seed: 0, cfgs, data: serde_json::to_value(&work).unwrap() }
    }

    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        let mut out = Outcome::default();
        let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
        let cx = Arc::new(Ctx { work, h: Mutex::new(Hist::default()) });
        let (c2, c3, c4, c5) = (cx.clone(), cx.clone(), cx.clone(), cx.clone());
        let seen = crate::lives::run(
            plan,
            &mut out,
            verbose,
            cx.work.lives.len(),
            Arc::new(move |life| life_main(c2.clone(), life)),
            Some(Box::new(move |_| {
                if let Err(e) = judge(&c5) {
                    c5.violate("C24", "unreadable", e);
                }
            })),
            &|| c3.h().violations.is_empty(),
            &|life, rep| {
                let errs = crate::lives::error_faults(rep);
                if let Some(e) = c4.h().failed.take() {
                    if !errs {
                        c4.violate("C22", "start-failed", format!("life {life}: {e}"));
                    }
                }
                if errs {
                    c4.h().clean.remove(&life);
                }
            },
        );
        let mut h = cx.h();
        for (p, c, d) in std::mem::take(&mut h.violations) {
            out.violate(&p, c, d);
        }
        out.nontrivial = match cx.work.variant.as_str() {
            "plain" => h.done > 0,
            "crash" => seen.crashed && h.done > 0,
            _ => seen.faulted && h.done > 0,
        };
        out.ops = h.ops;
        out.digest = h.digest;
        out.states = std::mem::take(&mut h.states);
        out.summary = format!("{} lives, {} requests, {} backups completed, crashed={}, faulted={}", out.stats.len(), h.ops, h.done, seen.crashed, seen.faulted);
        out
    }
}
