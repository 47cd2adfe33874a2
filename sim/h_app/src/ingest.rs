//! Clients of the ingestion API against the whole server, with crashes, failing disks and the session
//! cleaner; what was stored is judged from the files that are left.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Duration;

use common::types::EVENT_SESSION_BEGIN;
use common::types::EVENT_SESSION_END;
use common::types::TABLE_EVENTS;
use common::group_col;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value as J;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Cfg;
use simrt::End;
use simrt::Fault;
use simrt::Report;
use simrt::Sched;
use simrt::Start;

use crate::app::*;
use crate::reader::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    S(String),
    /// a JSON number as written
    N(String),
    B(bool),
    /// milliseconds
    D(i64),
}

impl Val {
    fn json(&self) -> J {
        match self {
            Val::S(s) => J::from(s.clone()),
            Val::N(s) => serde_json::from_str(s).unwrap(),
            Val::B(b) => J::from(*b),
            Val::D(ms) => J::from(rfc(*ms)),
        }
    }

    /// does the stored cell hold this value
    fn is(&self, c: &Cell) -> bool {
        match (self, c) {
            (Val::S(a), Cell::S(b)) => a == b,
            (Val::B(a), Cell::B(b)) => a == b,
            (Val::D(a), Cell::I(b)) => *a as i128 == *b,
            (Val::N(a), Cell::I(b)) => {
                let want: f64 = a.parse().unwrap();
                let got = *b as f64 / 1e16;
                (got - want).abs() <= 1e-14 * want.abs().max(0.01)
            }
            _ => false,
        }
    }
}

fn rfc(ms: i64) -> String {
    chrono::DateTime::from_timestamp_millis(ms).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Millis, true)
}

type Props = BTreeMap<String, Val>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Track {
        c: usize,
        p: usize,
        rid: u64,
        u: Option<String>,
        a: Option<String>,
        ev: String,
        /// milliseconds
        ts: Option<i64>,
        props: Props,
        groups: BTreeMap<String, String>,
        ua: Option<String>,
        ip: Option<String>,
        camp: BTreeMap<String, String>,
        /// the server may refuse it
        bad: bool,
    },
    Identify {
        c: usize,
        p: usize,
        g: String,
        id: String,
        ts: Option<i64>,
        props: Props,
        bad: bool,
    },
    Sleep {
        c: usize,
        ms: u64,
    },
    /// the administrator deletes an event definition
    Drop {
        c: usize,
        p: usize,
        ev: String,
    },
}

impl Op {
    fn client(&self) -> usize {
        match self {
            Op::Track { c, .. } | Op::Identify { c, .. } | Op::Sleep { c, .. } | Op::Drop { c, .. } => *c,
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Life {
    pub ops: Vec<Op>,
    /// faults are armed while the server starts
    pub armed_boot: bool,
    /// wait until sessions must have ended
    pub settle: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub variant: String,
    pub conf: Conf,
    pub projects: usize,
    pub lives: Vec<Life>,
}

#[derive(Clone, Debug)]
struct Rec {
    op: Op,
    life: usize,
    inv: u64,
    ack: Option<u64>,
    inv_ms: i64,
    ack_ms: i64,
    status: Option<u16>,
    body: String,
}

impl Rec {
    fn acked(&self) -> bool {
        matches!(self.status, Some(s) if (200..300).contains(&s))
    }
}

#[derive(Default)]
struct Hist {
    clock: u64,
    recs: Vec<Rec>,
    projects: Vec<(u64, String)>,
    admin: String,
    /// names of deleted event definitions by project and id
    dropped: BTreeMap<(u64, u64), String>,
    life_starts: Vec<i64>,
    violations: Vec<(String, String, String)>,
    overlap: bool,
    busy: usize,
    settled: Option<i64>,
    ops: u64,
    inconclusive: Option<String>,
    digest: u64,
    states: Vec<u64>,
}

struct Ctx {
    work: Work,
    h: Mutex<Hist>,
}

impl Ctx {
    fn h(&self) -> std::sync::MutexGuard<'_, Hist> {
        self.h.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn violate(&self, p: &str, class: &str, d: String) {
        simrt::logf(|| format!("VIOLATION {p} {class}: {d}"));
        self.h().violations.push((p.to_string(), class.to_string(), d));
    }
}

fn now_ms() -> i64 {
    chrono::Utc::now().timestamp_millis()
}

fn client(cx: Arc<Ctx>, srv: Arc<Server>, life: usize, ops: Vec<Op>) {
    for op in ops {
        let (p, path, body) = match &op {
            Op::Sleep { ms, .. } => {
                simrt::sleep(Duration::from_millis(*ms));
                continue;
            }
            Op::Track { p, rid, u, a, ev, ts, props, groups, ua, ip, camp, .. } => {
                let mut b = json!({"event": ev, "context": {}});
                let mut ps: serde_json::Map<String, J> = props.iter().map(|(k, v)| (k.clone(), v.json())).collect();
                ps.insert("rid".into(), J::from(format!("r{rid}")));
                b["properties"] = J::from(ps);
                for (k, v) in [("userId", u), ("anonymousId", a)] {
                    if let Some(v) = v {
                        b[k] = J::from(v.clone());
                    }
                }
                if let Some(t) = ts {
                    b["timestamp"] = J::from(rfc(*t));
                }
                if let Some(v) = ua {
                    b["context"]["userAgent"] = J::from(v.clone());
                }
                if let Some(v) = ip {
                    b["context"]["ip"] = J::from(v.clone());
                }
                if !camp.is_empty() {
                    b["context"]["campaign"] = json!(camp);
                }
                if !groups.is_empty() {
                    b["groups"] = json!(groups);
                }
                (*p, "track", b)
            }
            Op::Identify { p, g, id, ts, props, .. } => {
                let mut b = json!({"group": g, "id": id, "context": {}});
                if !props.is_empty() {
                    let ps: serde_json::Map<String, J> = props.iter().map(|(k, v)| (k.clone(), v.json())).collect();
                    b["properties"] = J::from(ps);
                }
                if let Some(t) = ts {
                    b["timestamp"] = J::from(rfc(*t));
                }
                (*p, "identify", b)
            }
            Op::Drop { p, .. } => (*p, "drop", J::Null),
        };
        let op2 = op.clone();
        let i = {
            let mut h = cx.h();
            h.clock += 1;
            h.ops += 1;
            h.busy += 1;
            if h.busy > 1 {
                h.overlap = true;
            }
            let r = Rec {
                op,
                life,
                inv: h.clock,
                ack: None,
                inv_ms: now_ms(),
                ack_ms: 0,
                status: None,
                body: String::new(),
            };
            h.recs.push(r);
            h.recs.len() - 1
        };
        let token = match cx.h().projects.get(p) {
            Some(x) => x.1.clone(),
            None => "nobody".to_string(),
        };
        let r = match &op2 {
            Op::Drop { ev, .. } => drop_event(&cx, &srv, p, ev),
            _ => srv.post(&format!("/api/v1/ingest/{token}/{path}"), None, body),
        };
        let mut h = cx.h();
        h.clock += 1;
        h.busy -= 1;
        let c = h.clock;
        let rec = &mut h.recs[i];
        rec.ack = Some(c);
        rec.ack_ms = now_ms();
        rec.status = Some(r.status);
        rec.body = r.body.to_string();
        simrt::logf(|| format!("{:?} -> {} {}", rec.op, r.status, rec.body));
    }
}

fn drop_event(cx: &Ctx, srv: &Server, p: usize, ev: &str) -> crate::app::Resp {
    let (pid, tok) = {
        let h = cx.h();
        (h.projects[p].0, h.admin.clone())
    };
    let l = srv.get(&format!("/api/v1/projects/{pid}/schema/events"), Some(&tok));
    let id = l.body["data"].as_array().into_iter().flatten().find(|e| e["name"] == ev).and_then(|e| e["id"].as_u64());
    let Some(id) = id else { return l };
    let r = srv.send("DELETE", &format!("/api/v1/projects/{pid}/schema/events/{id}"), Some(&tok), &[], None);
    // it may be gone even if the answer says otherwise
    cx.h().dropped.insert((pid, id), ev.to_string());
    if r.ok() {
        simrt::probe("event_deleted");
    }
    r
}

fn life_main(cx: Arc<Ctx>, life: usize) {
    simrt::arm_faults(false);
    let l = cx.work.lives[life].clone();
    if l.armed_boot {
        simrt::arm_faults(true);
    }
    let srv = match Server::start(cx.work.conf.config()) {
        Ok(s) => Arc::new(s),
        Err(e) => {
            cx.violate("*", "start-failed", format!("life {life}: {e}"));
            return;
        }
    };
    cx.h().life_starts.push(now_ms());
    if life == 0 {
        let r = srv.admin().and_then(|t| {
            cx.h().admin = t.clone();
            (0..cx.work.projects)
                .map(|i| srv.project(&t, &format!("P{i}"), cx.work.conf.session_s))
                .collect::<Result<Vec<_>, _>>()
        });
        match r {
            Ok(ps) => cx.h().projects = ps.into_iter().map(|p| (p.id, p.token)).collect(),
            Err(e) => {
                cx.violate("*", "setup-failed", e);
                return;
            }
        }
    } else if l.armed_boot {
        simrt::probe("restarted");
    }
    simrt::arm_faults(true);
    let n = l.ops.iter().map(|o| o.client() + 1).max().unwrap_or(0);
    let hs: Vec<_> = (0..n)
        .map(|c| {
            let (cx, srv) = (cx.clone(), srv.clone());
            let ops: Vec<Op> = l.ops.iter().filter(|o| o.client() == c).cloned().collect();
            simrt::spawn("client", move || client(cx, srv, life, ops))
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            cx.violate("*", &panic_class(), format!("life {life}: a request panicked: {:?}", simrt::panics()));
        }
    }
    simrt::arm_faults(false);
    if cx.h().projects.is_empty() {
        return;
    }
    // once the disk works again requests are accepted again
    let probes = (0..cx.work.projects)
        .map(|p| Op::Track {
            c: 0,
            p,
            rid: 1_000_000 + (life * 10 + p) as u64,
            u: Some("probe".into()),
            a: None,
            ev: "probe".into(),
            ts: None,
            props: Props::new(),
            groups: Default::default(),
            ua: None,
            ip: None,
            camp: Default::default(),
            bad: false,
        })
        .collect();
    let from = cx.h().recs.len();
    client(cx.clone(), srv.clone(), life, probes);
    {
        let bad: Vec<String> = cx.h().recs[from..].iter().filter(|r| !r.acked()).map(|r| format!("{:?} {}", r.status, r.body)).collect();
        if !bad.is_empty() {
            cx.violate("C18", "refused-after-faults", format!("life {life}: {bad:?}"));
        }
    }
    if l.settle {
        let s = cx.work.conf.session_s + 2 * cx.work.conf.cleaner_s + SLACK_S;
        simrt::sleep(Duration::from_secs(s));
        cx.h().settled = Some(now_ms());
        simrt::probe("settled");
    }
    if let Some(e) = srv.failed() {
        cx.violate("*", "server-ended", format!("life {life}: {e}"));
    }
    if !simrt::panics().is_empty() {
        cx.violate("*", &panic_class(), format!("life {life}: {:?}", simrt::panics()));
    }
}

fn panic_class() -> String {
    format!("panic:{}", simrt::panics().first().map(|m| simdrv::util::where_of(&m.1)).unwrap_or_default())
}

const SLACK_S: u64 = 10;

/// what a reader may see of a property that was written by `ws` = (inv, ack, certain, value)
struct W {
    inv: u64,
    ack: u64,
    sure: bool,
    val: Val,
}

fn reg_check(ws: &[W], inv: u64, ack: u64, got: &Cell) -> Result<(), String> {
    let sure_before = |w: &W| w.sure && w.ack < inv;
    if *got == Cell::Null {
        return match ws.iter().find(|w| sure_before(w)) {
            Some(w) => Err(format!("missing, {:?} was set", w.val)),
            None => Ok(()),
        };
    }
    let ok = ws.iter().any(|w| {
        w.inv < ack && w.val.is(got) && !ws.iter().any(|o| sure_before(o) && o.inv > w.ack)
    });
    if ok {
        Ok(())
    } else {
        Err(format!("{got:?} is none of the values that can be current"))
    }
}

fn judge(cx: &Ctx, crashed: bool, faulted: bool) {
    let rd = match Reader::open() {
        Ok(r) => r,
        Err(e) => return cx.violate("C18", "unreadable", e),
    };
    let ev = match rd.events() {
        Ok(e) => e,
        Err(e) => return cx.violate("C18", "unreadable", e),
    };
    let (recs, projects, settled) = {
        let h = cx.h();
        (h.recs.clone(), h.projects.clone(), h.settled)
    };
    let mut known = BTreeSet::new();
    for (pi, (pid, _)) in projects.iter().enumerate() {
        known.insert(*pid as i64);
        let rows: Vec<&Row> = ev.iter().filter(|r| r["project_id"].int() == Some(*pid as i64)).collect();
        let recs: Vec<&Rec> = recs.iter().filter(|r| matches!(&r.op, Op::Track{p,..} | Op::Identify{p,..} | Op::Drop{p,..} if *p == pi)).collect();
        if let Err(e) = judge_project(cx, &rd, *pid, &rows, &recs, crashed, faulted, settled) {
            cx.violate("C18", "unreadable", e);
        }
    }
    if let Some(r) = ev.iter().find(|r| !known.contains(&r["project_id"].int().unwrap_or(-1))) {
        cx.violate("C18", "foreign-row", format!("{r:?}"));
    }
}

#[allow(clippy::too_many_arguments)]
fn judge_project(
    cx: &Ctx,
    rd: &Reader,
    pid: u64,
    rows: &[&Row],
    recs: &[&Rec],
    crashed: bool,
    faulted: bool,
    settled: Option<i64>,
) -> Result<(), String> {
    let md = &rd.md;
    let eprops = rd.event_props(pid)?;
    let ev_name = |r: &Row| -> Result<String, String> {
        let id = r["event"].int().ok_or("row without event")? as u64;
        let gone = cx.h().dropped.get(&(pid, id)).cloned();
        let a = match (md.events.get_by_id(pid, id), gone) {
            (Ok(e), _) => e.name,
            (Err(_), Some(n)) => n,
            (Err(e), None) => return Err(format!("event {id}: {e}")),
        };
        match rd.word(pid, TABLE_EVENTS, "event", id) {
            Some(b) if a == b => Ok(a),
            b => {
                cx.violate("C19", "event-name", format!("event {id} is {a:?}, its dictionary entry {b:?}"));
                Ok(a)
            }
        }
    };
    let groups: BTreeMap<String, usize> =
        md.groups.list_groups(pid).map_err(|e| e.to_string())?.data.into_iter().map(|g| (g.name, g.id as usize)).collect();
    let ginv: BTreeMap<usize, String> = groups.iter().map(|(a, b)| (*b, a.clone())).collect();
    let mut gprops = BTreeMap::new();
    for g in groups.values() {
        gprops.insert(*g, rd.group_props(pid, *g)?);
    }
    // index rows by the id the client gave them
    let ridp = eprops.get("rid");
    let mut by_rid: BTreeMap<String, Vec<&Row>> = BTreeMap::new();
    let mut begins: BTreeMap<String, Vec<&Row>> = BTreeMap::new();
    let mut seqs = BTreeMap::new();
    for r in rows {
        let n = ev_name(r)?;
        let seq = r["event_id"].int().ok_or("row without id")?;
        if let Some(o) = seqs.insert(seq, n.clone()) {
            cx.violate("C18", "event-id-twice", format!("{seq}: {o} and {n}"));
        }
        let rid = match ridp {
            Some(p) => rd.value(pid, TABLE_EVENTS, p, r)?,
            None => Cell::Null,
        };
        match (n.as_str(), rid) {
            (EVENT_SESSION_BEGIN, Cell::S(s)) => begins.entry(s).or_default().push(r),
            (EVENT_SESSION_END, Cell::Null) => {}
            (_, Cell::S(s)) => by_rid.entry(s).or_default().push(r),
            (n, c) => cx.violate("C18", "row-without-track", format!("event {n}, id {c:?}: {r:?}")),
        }
    }
    let rid_of = |rec: &Rec| match &rec.op {
        Op::Track { rid, .. } => format!("r{rid}"),
        _ => String::new(),
    };
    // ---- writes of group properties
    let end_of_life = |r: &Rec| {
        r.ack.unwrap_or_else(|| recs.iter().filter(|x| x.life == r.life).filter_map(|x| x.ack).max().unwrap_or(r.inv).max(r.inv))
    };
    let mut writes: BTreeMap<(String, String, String), Vec<W>> = BTreeMap::new();
    for r in recs {
        if let Op::Identify { g, id, props, .. } = &r.op {
            for (k, v) in props {
                writes.entry((g.clone(), id.clone(), k.clone())).or_default().push(W {
                    inv: r.inv,
                    ack: end_of_life(r),
                    sure: r.acked(),
                    val: v.clone(),
                });
            }
        }
    }
    let none = vec![];
    let ws = |g: &str, id: &str, k: &str| writes.get(&(g.to_string(), id.to_string(), k.to_string())).unwrap_or(&none);
    // ---- identity
    let mut real: BTreeMap<String, i64> = BTreeMap::new();
    let mut anon: BTreeMap<String, i64> = BTreeMap::new();
    let mut linked: BTreeSet<(String, String)> = BTreeSet::new();
    for r in recs {
        if let Op::Track { u: Some(u), a: Some(a), .. } = &r.op {
            linked.insert((u.clone(), a.clone()));
        }
    }
    let bind = |m: &mut BTreeMap<String, i64>, k: &str, id: i64, what: &str| {
        if let Some(o) = m.insert(k.to_string(), id) {
            if o != id {
                cx.violate("C19", "two-ids", format!("{what} {k:?} is stored as {o} and as {id}"));
            }
        }
    };
    let mut acked = 0u64;
    let mut unsure = 0u64;
    for rec in recs {
        let Op::Track { u, a, ev, ts, props, groups: gs, ua, ip, camp, bad, .. } = &rec.op else {
            if !rec.acked() && rec.status.is_some() && !faulted {
                if let Op::Identify { bad: false, .. } = &rec.op {
                    cx.violate("C20", "refused", format!("{:?} -> {:?} {}", rec.op, rec.status, rec.body));
                }
            }
            continue;
        };
        let rid = rid_of(rec);
        let found = by_rid.get(&rid).cloned().unwrap_or_default();
        if rec.acked() {
            acked += 1;
        } else {
            unsure += 1;
        }
        if rec.acked() && found.is_empty() {
            cx.violate("C18", "lost", format!("acknowledged, not stored: {:?}", rec.op));
            continue;
        }
        if found.len() > 1 {
            cx.violate("C18", "duplicated", format!("stored {} times: {:?}", found.len(), rec.op));
        }
        let racing = recs.iter().any(|d| match &d.op {
            Op::Drop { ev: x, .. } => x == ev && d.inv < end_of_life(rec) && end_of_life(d) > rec.inv,
            _ => false,
        });
        let replaced = recs.iter().any(|d| matches!(&d.op, Op::Drop { ev: x, .. } if x == ev));
        if rec.status.is_some() && !rec.acked() && !faulted {
            if !bad && !racing {
                cx.violate("C18", "refused", format!("{:?} -> {:?} {}", rec.op, rec.status, rec.body));
            } else if !found.is_empty() {
                cx.violate("C18", "refused-but-stored", format!("{:?} -> {:?} {}", rec.op, rec.status, rec.body));
            }
        }
        let mut both: Vec<(&Row, bool)> = found.iter().map(|r| (*r, false)).collect();
        both.extend(begins.get(&rid).into_iter().flatten().map(|r| (*r, true)));
        let mut want: Props = props.iter().filter(|(k, _)| eprops.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        want.insert("rid".into(), Val::S(rid.clone()));
        if let Some(ua) = ua {
            // family/1.2 device:brand:model os/1.2.3.4
            let w: Vec<&str> = ua.split(' ').collect();
            let f: Vec<&str> = w[0].split(['/', '.']).collect();
            let d: Vec<&str> = w[1].split(':').collect();
            let o: Vec<&str> = w[2].split(['/', '.']).collect();
            let mut put = |k: &str, v: Option<&&str>| {
                if let Some(v) = v {
                    want.insert(k.into(), Val::S(v.to_string()));
                }
            };
            put("Client Family", f.first());
            put("Client Version Major", f.get(1));
            put("Client Version Minor", f.get(2));
            put("Device Family", d.first());
            put("Device Brand", d.get(1));
            put("Device Model", d.get(2));
            put("OS", o.first());
            put("OS Version Major", o.get(1));
            put("OS Version Minor", o.get(2));
            put("OS Version Patch", o.get(3));
            put("OS Version Patch Minor", o.get(4));
            let fam = if o.len() > 1 { format!("{} {}", o[0], o[1..].join(".")) } else { o[0].to_string() };
            want.insert("OS Family".into(), Val::S(fam));
        }
        let first = ip.clone().unwrap_or("10.1.2.3".into());
        match first.split('.').next().unwrap() {
            "10" => {
                want.insert("Country".into(), Val::S("Wonderland".into()));
                want.insert("City".into(), Val::S("Oz".into()));
            }
            "11" => {
                want.insert("Country".into(), Val::S("Wonderland".into()));
            }
            "12" => {
                want.insert("City".into(), Val::S("Atlantis".into()));
            }
            _ => {}
        }
        for (row, begin) in both {
            let what = if begin { "session begin of" } else { "row of" };
            if !begin && ev_name(row)? != *ev {
                cx.violate("C18", "event", format!("{what} {:?} has event {}", rec.op, ev_name(row)?));
            }
            // time
            let at = row["created_at"].int().unwrap_or(-1);
            let ok = match ts {
                Some(t) => at == *t,
                None => at >= rec.inv_ms && (rec.ack.is_none() || at <= rec.ack_ms),
            };
            if !ok {
                cx.violate(if begin { "C21" } else { "C18" }, "time", format!("{what} {:?} has time {at}, sent between {} and {}", rec.op, rec.inv_ms, rec.ack_ms));
            }
            // properties
            let mut want = want.clone();
            if begin {
                for (k, n) in [("source", "UTM Source"), ("medium", "UTM Medium"), ("campaign", "UTM Campaign"), ("term", "UTM Term"), ("content", "UTM Content")] {
                    if let Some(v) = camp.get(k) {
                        want.insert(n.into(), Val::S(v.clone()));
                    }
                }
            }
            for (name, p) in &eprops {
                let got = rd.value(pid, TABLE_EVENTS, p, row);
                match (want.get(name), got) {
                    (None, Ok(Cell::Null)) => {}
                    (Some(v), Ok(c)) if v.is(&c) => {}
                    (w, g) => cx.violate(
                        "C18",
                        "property",
                        format!("{what} {:?}: property {name:?} is {g:?}, sent {w:?}", rec.op),
                    ),
                }
            }
            for k in want.keys() {
                if !eprops.contains_key(k) {
                    cx.violate("C18", "property", format!("{what} {:?}: there is no property {k:?}", rec.op));
                }
            }
            // user
            let uid = row["group_0"].int().unwrap_or(-1);
            if uid < 0 {
                cx.violate("C19", "no-user", format!("{what} {:?}", rec.op));
                continue;
            }
            match (u, a) {
                (Some(u), _) => bind(&mut real, u, uid, "user"),
                (None, Some(a)) => bind(&mut anon, a, uid, "anonymous user"),
                _ => {}
            }
            // groups
            for g in 1..common::GROUPS_COUNT {
                let got = row[&group_col(g)].int();
                let want = ginv.get(&g).and_then(|n| gs.get(n));
                let word = got.and_then(|k| rd.word(pid, TABLE_EVENTS, &group_col(g), k as u64));
                if word.as_ref() != want || got.is_some() != want.is_some() {
                    cx.violate("C19", "group", format!("{what} {:?}: group {g} is {got:?} = {word:?}", rec.op));
                }
            }
            // group properties as they were
            let mut keys: BTreeMap<usize, String> = BTreeMap::new();
            if let Some(u) = u {
                keys.insert(0, u.clone());
            }
            for (g, k) in gs {
                if let Some(g) = groups.get(g) {
                    keys.insert(*g, k.clone());
                }
            }
            for (g, props) in &gprops {
                for (name, p) in props {
                    let col = p.column_name();
                    // words of group properties are in the dictionary of the group
                    let got = match rd.value(pid, &group_col(*g), p, &Row::from([(col.clone(), row.get(&col).cloned().unwrap_or(Cell::Null))])) {
                        Ok(c) => c,
                        Err(e) => {
                            cx.violate("C20", "undecodable", format!("{what} {:?}: {name:?} of {}: {e}", rec.op, ginv[g]));
                            continue;
                        }
                    };
                    let r = match keys.get(g) {
                        None if got == Cell::Null => Ok(()),
                        None => Err(format!("{got:?} though the event is not of that group")),
                        Some(k) => reg_check(ws(&ginv[g], k, name), rec.inv, end_of_life(rec), &got),
                    };
                    if let Err(e) = r {
                        cx.violate("C20", "attached", format!("{what} {:?}: {name:?} of {}: {e}", rec.op, ginv[g]));
                    }
                }
            }
        }
        // the event knows its properties
        if rec.acked() && !replaced {
            match md.events.get_by_name(pid, ev) {
                Ok(e) => {
                    let have = e.event_properties.unwrap_or_default();
                    for k in props.keys().map(|k| k.as_str()).chain(["rid"]) {
                        if let Some(p) = eprops.get(k) {
                            if !have.contains(&p.id) {
                                cx.violate("C18", "not-attached", format!("event {ev:?} does not list property {k:?}"));
                            }
                        }
                    }
                }
                Err(e) => cx.violate("C18", "event-missing", format!("{ev:?}: {e}")),
            }
        }
    }
    for (rid, rs) in &by_rid {
        if !recs.iter().any(|r| rid_of(r) == *rid) {
            cx.violate("C18", "row-without-track", format!("{rid}: {rs:?}"));
        }
    }
    match md.projects.get_by_id(pid) {
        Ok(p) => {
            let n = p.events_count as u64;
            if n < acked || n > acked + unsure {
                cx.violate("C18", "events-count", format!("{n} counted, {acked} acknowledged, {unsure} others"));
            }
        }
        Err(e) => cx.violate("C18", "project", e.to_string()),
    }
    // ---- group tables
    for (gname, g) in &groups {
        let tbl = group_col(*g);
        let mut seen: BTreeMap<i64, Row> = BTreeMap::new();
        for r in rd.group(*g)? {
            simrt::logf(|| format!("{tbl} {r:?}"));
            if r["project_id"].int() != Some(pid as i64) {
                continue;
            }
            let id = r["id"].int().unwrap_or(-1);
            if seen.insert(id, r).is_some() {
                cx.violate("C20", "row-twice", format!("{gname} {id}"));
            }
        }
        let mut keys: BTreeMap<String, Vec<&Rec>> = BTreeMap::new();
        for r in recs {
            if let Op::Identify { g, id, .. } = &r.op {
                if g == gname {
                    keys.entry(id.clone()).or_default().push(r);
                }
            }
        }
        let mut names: BTreeMap<String, i64> = BTreeMap::new();
        for id in seen.keys() {
            match rd.word(pid, &tbl, "id", *id as u64) {
                Some(n) => {
                    if *g == 0 {
                        bind(&mut real, &n, *id, "user");
                    }
                    if names.insert(n.clone(), *id).is_some() {
                        cx.violate("C20", "name-twice", format!("{gname} {n:?}"));
                    }
                }
                None => cx.violate("C19", "undecodable-id", format!("{gname} {id}")),
            }
        }
        for (key, rs) in &keys {
            let sure = rs.iter().any(|r| r.acked());
            let Some(row) = names.get(key).and_then(|id| seen.get(id)) else {
                if sure {
                    cx.violate("C20", "lost", format!("{gname} {key:?} was identified, has no row (rows {names:?})"));
                }
                continue;
            };
            for (name, p) in &gprops[g] {
                match rd.value(pid, &tbl, p, row) {
                    Ok(c) => {
                        if let Err(e) = reg_check(ws(gname, key, name), u64::MAX - 1, u64::MAX, &c) {
                            // an identify that failed half way may have left the metadata ahead of the table
                            cx.violate("C20", "final", format!("{gname} {key:?} {name:?}: {e}"));
                        }
                    }
                    Err(e) => cx.violate("C20", "undecodable", format!("{gname} {key:?} {name:?}: {e}")),
                }
            }
            let at = row["created_at"].int().unwrap_or(-1);
            let last = rs.iter().any(|w| {
                let t = match &w.op {
                    Op::Identify { ts: Some(t), .. } => at == *t,
                    _ => at >= w.inv_ms && (w.ack.is_none() || at <= w.ack_ms),
                };
                t && !rs.iter().any(|o| o.acked() && o.inv > end_of_life(w))
            });
            if !last {
                cx.violate("C20", "time", format!("{gname} {key:?} has time {at}"));
            }
        }
        for n in names.keys() {
            if !keys.contains_key(n) {
                cx.violate("C20", "row-without-identify", format!("{gname} {n:?}"));
            }
        }
    }
    // ---- identity, relations
    let mut owner: BTreeMap<i64, String> = BTreeMap::new();
    for (u, id) in &real {
        if let Some(o) = owner.insert(*id, u.clone()) {
            cx.violate("C19", "merged-users", format!("{o:?} and {u:?} are both {id}"));
        }
    }
    let mut aowner: BTreeMap<i64, String> = BTreeMap::new();
    for (a, id) in &anon {
        if let Some(o) = aowner.insert(*id, a.clone()) {
            cx.violate("C19", "merged-users", format!("anonymous {o:?} and {a:?} are both {id}"));
        }
        if let Some(u) = owner.get(id) {
            if !linked.contains(&(u.clone(), a.clone())) {
                cx.violate("C19", "merged-users", format!("user {u:?} and anonymous {a:?} are both {id}"));
            }
        }
    }
    for (u, a) in &linked {
        // the user was first heard of together with the anonymous id
        let mention = |r: &Rec| match &r.op {
            Op::Track { u: Some(x), .. } => x == u,
            Op::Identify { g, id, .. } => g == "user" && id == u,
            _ => false,
        };
        let Some(first) = recs.iter().filter(|r| mention(r)).min_by_key(|r| r.inv) else { continue };
        let alone = recs.iter().all(|r| !mention(r) || std::ptr::eq(*r, *first) || r.inv > end_of_life(first));
        if let (true, true, Op::Track { a: Some(x), .. }) = (alone, first.acked(), &first.op) {
            if x == a {
                if let (Some(i), Some(j)) = (real.get(u), anon.get(a)) {
                    if i != j {
                        cx.violate("C19", "not-linked", format!("{u:?} is {i}, {a:?} is {j}"));
                    }
                }
                simrt::probe("linked");
            }
        }
    }
    for (m, w) in [(&real, "user"), (&anon, "anonymous")] {
        for (k, id) in m {
            // only rows of events need an entry in the dictionary of the events
            if !rows.iter().any(|r| r["group_0"].int() == Some(*id)) {
                continue;
            }
            let word = rd.word(pid, TABLE_EVENTS, "group_0", *id as u64);
            let ok = word.as_ref().is_some_and(|n| {
                n == k || linked.iter().any(|(u, a)| if w == "user" { u == k && a == n } else { a == k && u == n })
            });
            if !ok {
                cx.violate("C19", "user-name", format!("{w} {k:?} is {id}, which reads {word:?}"));
            }
        }
    }
    judge_sessions(cx, rd, pid, rows, recs, crashed, faulted, settled, &ev_name, &|r| match ridp {
        Some(p) => match rd.value(pid, TABLE_EVENTS, p, r) {
            Ok(Cell::S(s)) => Some(s),
            _ => None,
        },
        None => None,
    })
}

#[allow(clippy::too_many_arguments)]
fn judge_sessions(
    cx: &Ctx,
    rd: &Reader,
    pid: u64,
    rows: &[&Row],
    recs: &[&Rec],
    _crashed: bool,
    faulted: bool,
    settled: Option<i64>,
    ev_name: &dyn Fn(&Row) -> Result<String, String>,
    rid: &dyn Fn(&Row) -> Option<String>,
) -> Result<(), String> {
    let dur = cx.work.conf.session_s as i64 * 1000;
    let late = (cx.work.conf.session_s + 2 * cx.work.conf.cleaner_s + SLACK_S) as i64 * 1000;
    let by: BTreeMap<String, &Rec> = recs
        .iter()
        .filter_map(|r| match &r.op {
            Op::Track { rid, .. } => Some((format!("r{rid}"), *r)),
            _ => None,
        })
        .collect();
    let mut users: BTreeMap<i64, Vec<&Row>> = BTreeMap::new();
    for r in rows {
        users.entry(r["group_0"].int().unwrap_or(-1)).or_default().push(r);
    }
    for (uid, mut rs) in users {
        rs.sort_by_key(|r| r["event_id"].int());
        // requests for this user that were not acknowledged may have done part of their work
        let keys: BTreeSet<(Option<String>, Option<String>)> = rs
            .iter()
            .filter_map(|r| rid(r).and_then(|x| by.get(&x).copied()))
            .map(|r| match &r.op {
                Op::Track { u, a, .. } => (u.clone(), a.clone()),
                _ => (None, None),
            })
            .collect();
        // nor did the cleaner
        let half = faulted || recs.iter().any(|r| {
            !r.acked()
                && r.status.is_none()
                && match &r.op {
                    Op::Track { .. } if keys.is_empty() => true,
                    Op::Track { u, a, .. } => keys.iter().any(|(x, y)| (u.is_some() && u == x) || (a.is_some() && a == y)),
                    _ => false,
                }
        });
        let slow = recs.iter().any(|r| r.acked() && r.ack_ms - r.inv_ms >= dur.min(1000));
        let mut open = false;
        let mut pending: Option<String> = None;
        let mut last: Option<&Rec> = None;
        let mut ended_life: Option<i64> = None;
        for r in &rs {
            let n = ev_name(r)?;
            let at = r["created_at"].int().unwrap_or(-1);
            let what = format!("user {uid}, event {}", r["event_id"].int().unwrap());
            match n.as_str() {
                EVENT_SESSION_BEGIN => {
                    if open && !half {
                        cx.violate("C21", "begin-while-open", what.clone());
                    }
                    open = true;
                    pending = rid(r);
                    simrt::probe("session");
                }
                EVENT_SESSION_END => {
                    // the end is stored before the session is forgotten: a crash in between repeats it
                    let again = ended_life.is_some() && cx.work.lives.len() > 1;
                    if !open && !half && !again {
                        cx.violate("C21", "end-while-closed", what.clone());
                    }
                    if let Some(l) = last {
                        if at - l.inv_ms < dur - 1000 && !slow && !half {
                            cx.violate("C21", "ended-early", format!("{what} at {at}, last event at {}, session {dur} ms", l.inv_ms));
                        }
                    }
                    if !half && pending.is_some() {
                        cx.violate("C21", "begin-without-event", what.clone());
                    }
                    open = false;
                    ended_life = Some(at);
                    simrt::probe("session_end");
                }
                _ => {
                    let x = rid(r);
                    // the end is stored before the session is forgotten: a crash in between keeps the session
                    let starts = cx.h().life_starts.clone();
                    let cut = ended_life.is_some_and(|e| {
                        let sent = x.as_ref().and_then(|x| by.get(x)).map(|r| r.inv_ms).unwrap_or(i64::MAX);
                        starts.iter().skip(1).any(|l| *l >= e && *l <= sent)
                    });
                    if !half {
                        if !open && !cut {
                            cx.violate("C21", "event-outside-session", what.clone());
                        }
                        if pending.is_some() && pending != x {
                            cx.violate("C21", "begin-not-followed", what.clone());
                        }
                    }
                    open = true;
                    pending = None;
                    ended_life = None;
                    if let Some(rec) = x.and_then(|x| by.get(&x).copied()) {
                        if let Some(l) = last {
                            let gap = rec.inv_ms - l.ack_ms;
                            let ended = n == EVENT_SESSION_END;
                            let _ = ended;
                            if l.acked() && l.life == rec.life && gap > late {
                                // an end must lie in between: then this event came with a new begin
                                let begun = rs.iter().any(|b| {
                                    matches!(ev_name(b).as_deref(), Ok(EVENT_SESSION_BEGIN)) && rid(b) == Some(rid_str(rec))
                                });
                                if !begun && !half {
                                    cx.violate("C21", "not-ended", format!("{what}: {gap} ms after the previous one, same session"));
                                }
                            }
                        }
                        last = Some(rec);
                    }
                }
            }
        }
        let stored = rd.md.sessions.get_by_user_id(pid, uid as u64).is_ok();
        if settled.is_some() && (open && !half || stored && (faulted || !half)) {
            let live_last = last.map(|l| l.ack_ms).unwrap_or(0);
            if settled.unwrap() - live_last >= late - SLACK_S as i64 * 500 {
                cx.violate("C21", "never-ended", format!("user {uid}: last event at {live_last}, now {settled:?}, open {open}, stored {stored}"));
            }
        } else if settled.is_none() && open != stored && !half && cx.work.lives.len() == 1 {
            cx.violate("C21", "table", format!("user {uid}: open {open}, stored {stored}"));
        }
    }
    Ok(())
}

fn rid_str(r: &Rec) -> String {
    match &r.op {
        Op::Track { rid, .. } => format!("r{rid}"),
        _ => String::new(),
    }
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut out = Outcome::default();
    let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
    let cx = Arc::new(Ctx { work, h: Mutex::new(Hist::default()) });
    let mut prev: Option<Report> = None;
    let n = plan.cfgs.len().min(cx.work.lives.len());
    let (mut crashed, mut faulted, mut good) = (false, false, true);
    for life in 0..n {
        let mut start = match &prev {
            None => {
                let mut s = Start::new(plan.cfgs[life].clone());
                s.fs = install();
                s
            }
            Some(p) => Start::after(plan.cfgs[life].clone(), p),
        };
        start.verbose = verbose;
        let c2 = cx.clone();
        let rep = simrt::run(start, move || life_main(c2, life));
        cx.h().busy = 0;
        out.absorb(&rep);
        crashed |= rep.end == End::Crashed;
        faulted |= rep.stats.fired.keys().any(|k| !k.contains("crash") && !k.contains("slow") && !k.contains("stall"));
        let no_projects = cx.h().projects.is_empty();
        good = simdrv::judge_end(&mut out, &rep, &format!("life {life}")) && cx.h().violations.is_empty() && !no_projects;
        prev = Some(rep);
        if !good {
            break;
        }
    }
    if good {
        let mut c = Cfg::new(plan.seed);
        c.sched = Sched::None;
        c.step_limit = 5_000_000;
        let mut start = Start::after(c, prev.as_ref().unwrap());
        start.verbose = verbose;
        let c2 = cx.clone();
        let rep = simrt::run(start, move || judge(&c2, crashed, faulted));
        out.absorb(&rep);
        simdrv::judge_end(&mut out, &rep, "reading");
    }
    let mut h = cx.h();
    let vs = std::mem::take(&mut h.violations);
    for (p, c, d) in vs {
        out.violate(&p, c, d);
    }
    let probe = |n: &str| out.stats.iter().map(|s| s.probes.get(n).copied().unwrap_or(0)).sum::<u64>();
    let acked = h.recs.iter().filter(|r| r.acked()).count();
    out.nontrivial = match cx.work.variant.as_str() {
        "crash" => crashed && acked > 0,
        "err" => faulted,
        "session" => probe("session_end") > 0,
        "sesserr" => probe("session_end") > 0 && faulted,
        _ => h.overlap,
    };
    out.inconclusive = h.inconclusive.clone();
    out.ops = h.ops;
    for r in &h.recs {
        let s = format!("{}{:?}{:?}{:?}", r.life, r.inv, r.ack, r.status);
        out.digest = simrt::rng::mix(out.digest ^ simdrv::util::hash(&s));
    }
    out.states = std::mem::take(&mut h.states);
    out.summary = format!(
        "{} lives, {} requests, {} accepted, sessions {}/{}, crashed={crashed}, faulted={faulted}",
        out.stats.len(),
        h.recs.len(),
        acked,
        probe("session"),
        probe("session_end")
    );
    out
}

pub struct Ingest;

struct Gen<'a> {
    r: &'a mut Rng,
    rid: u64,
    clients: usize,
    projects: usize,
    odd: bool,
}

impl Gen<'_> {
    fn val(&mut self, name: &str) -> Val {
        let k = name.as_bytes()[0];
        let k = if self.odd && self.r.below(12) == 0 { *self.r.pick(b"snbd") } else { k };
        match k {
            b's' => Val::S(match self.r.below(10) {
                0 => "".into(),
                1 => "ü/data/ x".into(),
                n => format!("v{n}"),
            }),
            b'n' if self.odd && self.r.below(6) == 0 => Val::N(self.r.pick(&["-1e15", "1e15", "-1e20", "-1e12", "999999999999.5"]).to_string()),
            b'n' => Val::N(self.r.pick(&["0", "1", "-7", "2.5", "0.001", "123456789", "-0.0625", "1234567.891", "99999999999", "1e3"]).to_string()),
            b'b' => Val::B(self.r.below(2) == 0),
            _ => Val::D(1_600_000_000_000 + self.r.below(1000) as i64 * 1001),
        }
    }

    fn props(&mut self, pre: &str) -> (Props, bool) {
        let mut m = Props::new();
        let mut bad = false;
        for _ in 0..self.r.below(4) {
            let n = format!("{}{pre}{}", self.r.pick(&["s", "s", "n", "b", "d"]), self.r.below(3));
            let v = self.val(&n);
            bad |= self.odd;
            m.insert(n, v);
        }
        if self.odd && self.r.below(6) == 0 {
            let n = *self.r.pick(&["event", "project_id", "group_0", "event_id", "created_at", "id", "version", "nbig", "group_2", "group_4"]);
            let v = match self.r.below(5) {
                4 => Val::N(self.r.pick(&["-1e15", "-1e12", "-1e20"]).to_string()),
                0 => Val::N("1e20".into()),
                1 => Val::N("1e15".into()),
                2 => Val::N("3".into()),
                _ => Val::S("w1".into()),
            };
            m.insert(n.into(), v);
            bad = true;
        }
        (m, bad)
    }

    fn ts(&mut self) -> Option<i64> {
        (self.r.below(3) > 0).then(|| 1_700_000_000_000 + self.r.below(100) as i64 * 86_400_123)
    }

    fn key(&mut self, p: &str) -> String {
        match self.r.below(8) {
            0 => format!("{p}/x ü"),
            n => format!("{p}{}", n % 3),
        }
    }

    fn track(&mut self) -> Op {
        self.rid += 1;
        let who = self.key("");
        let (u, a) = match self.r.below(4) {
            0 => (None, Some(format!("a{who}"))),
            1 => (Some(format!("u{who}")), Some(format!("a{who}"))),
            _ => (Some(format!("u{who}")), None),
        };
        let (u, a) = if self.odd && self.r.below(20) == 0 { (None, None) } else { (u, a) };
        let mut groups = BTreeMap::new();
        if self.r.below(3) == 0 {
            for _ in 0..1 + self.r.below(2) {
                let g = *self.r.pick(&["company", "team"]);
                let k = self.key("g");
                groups.insert(g.to_string(), k);
            }
        }
        let mut more = false;
        if self.odd && self.r.below(15) == 0 {
            groups.insert(format!("extra{}", self.r.below(3)), "k".into());
        }
        // the extra names may use up the groups
        more |= self.odd && !groups.is_empty();
        let mut camp = BTreeMap::new();
        if self.r.below(5) == 0 {
            camp.insert("source".to_string(), format!("src{}", self.r.below(2)));
            for k in ["medium", "campaign", "term", "content"] {
                if self.r.below(2) == 0 {
                    camp.insert(k.into(), format!("{k}{}", self.r.below(2)));
                }
            }
        }
        let (props, bad) = self.props("e");
        let bad = bad || more || (u.is_none() && a.is_none());
        let p = if self.odd && self.r.below(25) == 0 { 9 } else { self.r.usize(self.projects) };
        Op::Track {
            c: self.r.usize(self.clients),
            p,
            rid: self.rid,
            u,
            a,
            ev: self.r.pick(&["buy", "view", "view", "e/v ü", "Click"]).to_string(),
            ts: self.ts(),
            props,
            groups,
            ua: (self.r.below(4) == 0)
                .then(|| self.r.pick(&["Fox/1.2 Phone:Acme:One Nix/1.2.3.4", "Fox/1 Desk Nix", "Cat/3.0 Phone:Acme Mix/10.0"]).to_string()),
            ip: (self.r.below(3) > 0).then(|| format!("{}.0.0.1", self.r.pick(&["10", "11", "12", "99"]))),
            camp,
            bad,
        }
    }

    fn identify(&mut self) -> Op {
        let g = *self.r.pick(&["user", "user", "company", "team"]);
        let k = self.key("");
        let id = if g == "user" { format!("u{k}") } else { self.key("g") };
        let (props, bad) = self.props(&g[..1]);
        let bad = bad || self.odd && g != "user";
        Op::Identify { c: self.r.usize(self.clients), p: self.r.usize(self.projects), g: g.into(), id, ts: self.ts(), props, bad }
    }
}

impl Scenario for Ingest {
    fn name(&self) -> &'static str {
        "ingest"
    }

    fn generate(&self, rng: &mut Rng, variant: &str, tier: &str) -> Plan {
        let mut conf = crate::gen_conf(rng);
        let session = matches!(variant, "session" | "sesserr");
        conf.session_s = if session { *rng.pick(&[3, 10, 60]) } else { *rng.pick(&[5, 60, 86400]) };
        conf.cleaner_s = if session { *rng.pick(&[1, 2, 7]) } else { *rng.pick(&[1, 3600]) };
        let projects = 1 + (rng.below(3) == 0) as usize;
        let clients = if rng.below(4) == 0 { 1 } else { 2 + rng.usize(2) };
        let odd = rng.below(3) == 0;
        let mut g = Gen { r: rng, rid: 0, clients, projects, odd };
        let drops = variant == "conc" && g.r.below(4) == 0;
        let nl = match variant {
            "crash" => 2 + g.r.usize(2),
            "err" => 2,
            _ => 1 + (g.r.below(3) == 0) as usize,
        };
        let mut lives = vec![];
        let mut cfgs = vec![];
        let mut max = *g.r.pick(&[4, 10, 20, 40]);
        if tier == "thorough" && g.r.below(4) == 0 {
            max = 150;
        }
        for life in 0..nl {
            let mut l = Life::default();
            let n = 1 + g.r.below(max);
            let idw = if variant == "identify" { 2 } else { 6 };
            for _ in 0..n {
                let op = if session && g.r.below(3) == 0 {
                    let base = g.r.pick(&[200, 1000, conf.session_s * 500, conf.session_s * 1000, conf.session_s * 1000 + conf.cleaner_s * 2500, (conf.session_s + 2 * conf.cleaner_s + SLACK_S + 1) * 1000]).to_owned();
                    Op::Sleep { c: g.r.usize(clients), ms: base + g.r.below(50) }
                } else if drops && g.r.below(8) == 0 {
                    Op::Drop { c: g.r.usize(clients), p: g.r.usize(projects), ev: g.r.pick(&["buy", "view"]).to_string() }
                } else if g.r.below(idw) == 0 {
                    g.identify()
                } else {
                    g.track()
                };
                l.ops.push(op);
            }
            // somebody is active in one project all the time
            if session && projects > 1 && g.r.below(2) == 0 {
                for op in &mut l.ops {
                    if let Op::Track { p, c, .. } = op {
                        (*p, *c) = (1, *c % (clients - 1).max(1));
                    }
                }
                for _ in 0..3 + g.r.below(8) {
                    let mut op = g.track();
                    if let Op::Track { p, c, u, a, .. } = &mut op {
                        (*p, *c, *u, *a) = (0, clients - 1, Some("u0".into()), None);
                    }
                    l.ops.push(op);
                    l.ops.push(Op::Sleep { c: clients - 1, ms: conf.session_s * 400 });
                }
            }
            // faults are off by then
            l.settle = session && (life + 1 == nl || g.r.below(2) == 0);
            let mut c = simdrv::util::cfg(g.r);
            c.tick_ns = *g.r.pick(&[0, 1000, 20_000]);
            c.step_limit = 3_000_000;
            let last = life + 1 == nl;
            let span = [30, 100, 300, 30 * n][g.r.usize(4)];
            if variant == "crash" && !last {
                l.armed_boot = life > 0 && g.r.below(3) == 0;
                c.faults.push(match g.r.below(5) {
                    0 => Fault::CrashStep { step: 1 + g.r.below(span * 10) },
                    1 | 2 => Fault::CrashCommit { op: 1 + g.r.below(span), after: g.r.below(2) == 0 },
                    _ => Fault::Crash { op: 1 + g.r.below(span), keep: *g.r.pick(&[0, 300, 999, 1000]) },
                });
            }
            if variant == "sesserr" {
                for _ in 0..1 + g.r.below(3) {
                    let op = 1 + g.r.below(span * 2);
                    c.faults.push(match g.r.below(4) {
                        0 => Fault::WriteErr { op, errno: *g.r.pick(&[5, 28]), keep: *g.r.pick(&[0, 300, 999]) },
                        1 => Fault::DiskFull { op, until: op + 1 + g.r.below(10) },
                        2 => Fault::ShortWrite { op, keep: 1 + g.r.below(999) as u32 },
                        _ => Fault::CommitErr { op },
                    });
                }
            } else if session && !last && g.r.below(2) == 0 {
                c.faults.push(Fault::CrashCommit { op: 1 + g.r.below(span), after: g.r.below(2) == 0 });
            }
            if variant == "err" && !last {
                for _ in 0..1 + g.r.below(2) {
                    let op = 1 + g.r.below(span);
                    c.faults.push(match g.r.below(4) {
                        0 => Fault::WriteErr { op, errno: *g.r.pick(&[5, 28]), keep: *g.r.pick(&[0, 300, 999]) },
                        1 => Fault::DiskFull { op, until: op + 1 + g.r.below(10) },
                        2 => Fault::ShortWrite { op, keep: 1 + g.r.below(999) as u32 },
                        _ => Fault::CommitErr { op },
                    });
                }
            }
            if g.r.below(6) == 0 {
                c.faults.push(Fault::Slow { op: 1 + g.r.below(60), ms: *g.r.pick(&[20, 900]) });
            }
            if g.r.below(6) == 0 {
                c.faults.push(Fault::Stall { step: 1 + g.r.below(3000), ms: *g.r.pick(&[5, 500]) });
            }
            cfgs.push(c);
            lives.push(l);
        }
        let work = Work { variant: variant.to_string(), conf, projects, lives };
        Plan { scenario: String::new(), seed: 0, cfgs, data: serde_json::to_value(&work).unwrap() }
    }

    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        run(plan, verbose)
    }
}
