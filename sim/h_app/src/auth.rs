//! Accounts, passwords, tokens and permissions through the whole server: who may do what, while passwords, addresses,
//! roles and accounts change, tokens expire, and the server crashes.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Duration;

use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value as J;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Fault;

use crate::app::*;
use crate::reader::*;

/// roles of an account; organizations and projects by their place in the work
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Roles {
    pub admin: bool,
    pub orgs: Vec<(usize, String)>,
    pub projects: Vec<(usize, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// how: 0 current password, 1 an earlier one, 2 a wrong one, 3 nobody's address
    Login { c: usize, a: usize, how: u64, org: Option<usize> },
    Refresh { c: usize, t: usize, with_access: bool, bad: bool },
    Switch { c: usize, t: usize, org: usize },
    /// bad: 0 the token as it is, 1 without one, 2 changed, 3 a refresh token instead, 4 signed with another key
    Call { c: usize, t: usize, bad: u64, ep: u64, p: usize, org: usize },
    Profile { c: usize, t: usize },
    NewPassword { c: usize, t: usize, how: u64, n: u64, weak: bool },
    SetPassword { c: usize, t: usize, n: u64 },
    NewEmail { c: usize, t: usize, n: u64, how: u64, kind: u64 },
    SignUp { c: usize, n: u64, kind: u64 },
    /// by the administrator
    Roles { a: usize, roles: Roles },
    ResetPassword { a: usize, n: u64, force: Option<bool> },
    Delete { a: usize },
    Sleep { c: usize, ms: u64 },
}

impl Op {
    fn client(&self) -> usize {
        match self {
            Op::Login { c, .. }
            | Op::Refresh { c, .. }
            | Op::Switch { c, .. }
            | Op::Call { c, .. }
            | Op::Profile { c, .. }
            | Op::NewPassword { c, .. }
            | Op::SetPassword { c, .. }
            | Op::NewEmail { c, .. }
            | Op::SignUp { c, .. }
            | Op::Sleep { c, .. } => *c,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Life {
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct User {
    pub roles: Roles,
    pub force_pw: bool,
    pub force_em: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub variant: String,
    pub conf: Conf,
    pub users: Vec<User>,
    /// organization of each project
    pub projects: Vec<usize>,
    /// the last project may be deleted
    #[serde(default)]
    pub doom: bool,
    pub orgs: usize,
    pub lives: Vec<Life>,
}

/// one attempt to change a value
#[derive(Clone, Debug)]
struct W<T> {
    inv: u64,
    ack: Option<u64>,
    ok: bool,
    void: bool,
    v: T,
}

/// a value under concurrent changes
#[derive(Clone, Debug)]
struct Reg<T>(Vec<W<T>>);

impl<T: Clone + PartialEq> Reg<T> {
    fn new(v: T, at: u64) -> Self {
        Reg(vec![W { inv: at, ack: Some(at), ok: true, void: false, v }])
    }
    fn start(&mut self, v: T, at: u64) -> usize {
        self.0.push(W { inv: at, ack: None, ok: false, void: false, v });
        self.0.len() - 1
    }
    fn end(&mut self, i: usize, at: u64, status: u16) {
        let w = &mut self.0[i];
        w.ack = Some(at);
        w.ok = (200..300).contains(&status);
        w.void = (400..500).contains(&status);
    }
    /// the process ended: nothing takes effect later
    fn close(&mut self, at: u64) {
        for w in &mut self.0 {
            w.ack.get_or_insert(at);
        }
    }
    /// values a read between these times may see
    fn seen(&self, a: u64, b: u64) -> Vec<T> {
        let mut out: Vec<T> = vec![];
        for w in self.0.iter().filter(|w| !w.void && w.inv < b) {
            let over = w.ack.is_some_and(|ack| self.0.iter().any(|x| x.ok && x.inv > ack && x.ack.is_some_and(|z| z < a)));
            if !over && !out.contains(&w.v) {
                out.push(w.v.clone());
            }
        }
        out
    }
    fn latest(&self) -> Option<T> {
        self.0.iter().rev().find(|w| w.ok).map(|w| w.v.clone())
    }
}

#[derive(Clone)]
struct Acc {
    id: u64,
    email: Reg<String>,
    pw: Reg<String>,
    roles: Reg<Roles>,
    alive: Reg<bool>,
    force_pw: Reg<bool>,
    force_em: Reg<bool>,
}

#[derive(Clone, Debug)]
struct Tok {
    acc: usize,
    access: String,
    refresh: String,
    /// the organization it is for, by place; none of the known ones otherwise
    org: Option<usize>,
    /// sim ms within which it was made
    from: i64,
    to: i64,
}

#[derive(Clone, Debug, Default)]
struct Proj {
    id: u64,
    org: usize,
    dash: u64,
    report: u64,
    mark: String,
    /// bookmarks of accounts
    marks: BTreeMap<usize, String>,
    event: u64,
    custom: u64,
    prop: u64,
    gprop: u64,
}

#[derive(Default)]
struct Hist {
    clock: u64,
    accs: Vec<Acc>,
    toks: Vec<Tok>,
    orgs: Vec<u64>,
    projects: Vec<Proj>,
    /// markers of requests that were refused
    refused: Vec<(String, String)>,
    /// markers of objects created
    kept: Vec<(String, String)>,
    gone_org: BTreeSet<usize>,
    failed: Option<String>,
    ops: u64,
    marks: u64,
    violations: Vec<(String, String, String)>,
    digest: u64,
    kinds: BTreeMap<&'static str, u64>,
    overlap: u64,
    open: u64,
}

struct Ctx {
    work: Work,
    h: Mutex<Hist>,
}

fn now_ms() -> i64 {
    chrono::Utc::now().timestamp_millis()
}

impl Ctx {
    fn h(&self) -> std::sync::MutexGuard<'_, Hist> {
        self.h.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn violate(&self, p: &str, class: &str, d: String) {
        simrt::logf(|| format!("VIOLATION {p} {class}: {d}"));
        self.h().violations.push((p.into(), class.to_string(), d));
    }
    fn tick(&self) -> u64 {
        let mut h = self.h();
        h.clock += 1;
        h.clock
    }
    fn begin(&self) -> u64 {
        let mut h = self.h();
        h.ops += 1;
        h.overlap += (h.open > 0) as u64;
        h.open += 1;
        h.clock += 1;
        h.clock
    }
    fn end(&self, kind: &'static str, status: u16) -> u64 {
        let mut h = self.h();
        h.open -= 1;
        *h.kinds.entry(kind).or_default() += 1;
        h.digest = simrt::rng::mix(h.digest ^ simdrv::util::hash(&format!("{kind}{status}")));
        h.clock += 1;
        h.clock
    }
}

// ---- what the roles allow: the role tables of the product, read as its specification

fn org_allows(role: &str, what: &str) -> bool {
    match role {
        "Owner" => true,
        "Admin" => what == "ManageProjects",
        _ => false,
    }
}

fn project_allows(role: &str, what: &str) -> bool {
    match role {
        "Owner" => true,
        "Admin" => matches!(
            what,
            "ManageProject" | "InviteMembers" | "ManageMembers" | "ExploreReports" | "ManageReports" | "ViewSchema" | "ManageSchema"
        ),
        "Member" => matches!(what, "ExploreReports" | "ManageReports" | "ViewSchema" | "ManageSchema"),
        _ => matches!(what, "ExploreReports" | "ViewSchema"),
    }
}

#[derive(Clone, Debug)]
enum Need {
    /// the administrator of the server
    Server,
    Org(usize, &'static str),
    /// in the organization the token is for
    Here(&'static str),
    Project(usize, &'static str),
}

fn allowed(need: &Need, r: &Roles, here: Option<usize>, projects: &[Proj]) -> bool {
    if r.admin {
        return true;
    }
    let in_org = |o: usize| r.orgs.iter().find(|x| x.0 == o).map(|x| x.1.as_str());
    match need {
        Need::Server => false,
        Need::Org(o, what) => in_org(*o).is_some_and(|x| org_allows(x, what)),
        Need::Here(what) => here.and_then(in_org).is_some_and(|x| org_allows(x, what)),
        Need::Project(p, what) => {
            let own = here == Some(projects[*p].org) && here.and_then(in_org).is_some_and(|x| x != "Member");
            own || r.projects.iter().find(|x| x.0 == *p).is_some_and(|x| project_allows(&x.1, what))
        }
    }
}

const ENDPOINTS: u64 = 67;

struct Call {
    m: &'static str,
    path: String,
    body: Option<J>,
    need: Need,
    /// what the administrator does before; the id of what it made is put in place of `{id}`
    prep: Option<(&'static str, String, Option<J>)>,
}

/// every operation of the API that needs a permission
fn endpoint(ep: u64, h: &Hist, p: usize, o: usize, mark: &str) -> Call {
    let pr = &h.projects[p];
    let base = format!("/api/v1/projects/{}", pr.id);
    let org = h.orgs[o];
    let seg = json!({
        "type": "eventSegmentation",
        "time": {"type": "last", "last": 1, "unit": "day"}, "group": 0, "intervalUnit": "day", "chartType": "line",
        "analysis": {"type": "linear"},
        "events": [{"eventType": "regular", "eventName": "e", "queries": [{"type": "countEvents"}]}]
    });
    let pj = |w| Need::Project(p, w);
    let find = json!({"time": {"type": "last", "last": 30, "unit": "day"}});
    let c = |m, path: String, body: Option<J>, need| Call { m, path, body, need, prep: None };
    let gone = |path: String, made: u64, need| {
        let x = endpoint(made, h, p, o, mark);
        Call { m: "DELETE", path: path + "/{id}", body: None, need, prep: Some((x.m, x.path, x.body)) }
    };
    // a property nothing else is about
    let spare = |m, path: String, tail: &str, body: Option<J>, need| Call {
        m,
        path: format!("{path}/{{id}}{tail}"),
        body,
        need,
        prep: Some(("GET", format!("{base}/schema/event-properties/name/spare{}", h.marks % 3), None)),
    };
    match ep {
        0 => c("GET", base, None, pj("ViewProject")),
        1 => c("PUT", base, Some(json!({"description": mark})), pj("ManageProject")),
        2 => c("GET", format!("{base}/dashboards"), None, pj("ExploreReports")),
        3 => c("POST", format!("{base}/dashboards"), Some(json!({"name": mark, "panels": []})), pj("ManageReports")),
        4 => c("GET", format!("{base}/dashboards/{}", pr.dash), None, pj("ExploreReports")),
        5 => c("PUT", format!("{base}/dashboards/{}", pr.dash), Some(json!({"description": mark})), pj("ManageReports")),
        6 => c("GET", format!("{base}/reports"), None, pj("ExploreReports")),
        7 => c("POST", format!("{base}/reports"), Some(json!({"name": mark, "type": "eventSegmentation", "query": seg})), pj("ManageReports")),
        8 => c("GET", format!("{base}/reports/{}", pr.report), None, pj("ExploreReports")),
        9 => c("PUT", format!("{base}/reports/{}", pr.report), Some(json!({"description": mark})), pj("ManageReports")),
        10 => c("POST", format!("{base}/bookmarks"), Some(json!({"query": seg})), pj("ExploreReports")),
        11 => c("GET", format!("{base}/bookmarks/{}", pr.mark), None, pj("ExploreReports")),
        12 => c("GET", format!("{base}/schema/events"), None, pj("ViewSchema")),
        13 => c("POST", format!("{base}/schema/events"), Some(json!({"name": mark, "status": "enabled", "isSystem": false})), pj("ManageSchema")),
        14 => c("GET", format!("{base}/schema/events/{}", pr.event), None, pj("ViewSchema")),
        15 => c("GET", format!("{base}/schema/events/name/e"), None, pj("ViewSchema")),
        16 => c("PUT", format!("{base}/schema/events/{}", pr.event), Some(json!({"description": mark})), pj("ManageSchema")),
        17 => c("GET", format!("{base}/schema/custom-events"), None, pj("ViewSchema")),
        18 => c(
            "POST",
            format!("{base}/schema/custom-events"),
            Some(json!({"name": mark, "status": "enabled", "isSystem": false, "events": [{"eventType": "regular", "eventName": "e"}]})),
            pj("ManageSchema"),
        ),
        19 => c("GET", format!("{base}/schema/custom-events/{}", pr.custom), None, pj("ViewSchema")),
        20 => c("PUT", format!("{base}/schema/custom-events/{}", pr.custom), Some(json!({"description": mark})), pj("ManageSchema")),
        21 => c("GET", format!("{base}/schema/event-properties"), None, pj("ViewSchema")),
        22 => c("PUT", format!("{base}/schema/event-properties/{}", pr.prop), Some(json!({"description": mark})), pj("ManageSchema")),
        23 => c("GET", format!("{base}/schema/group-properties/0"), None, pj("ViewSchema")),
        24 => c("GET", format!("{base}/groups"), None, pj("ViewSchema")),
        25 => c("POST", format!("{base}/groups"), Some(json!({"name": mark, "displayName": mark})), pj("ManageSchema")),
        26 => c("POST", format!("{base}/event-records/search"), Some(find), pj("ExploreReports")),
        27 => c("GET", format!("{base}/event-records/1"), None, pj("ExploreReports")),
        28 => c("POST", format!("{base}/queries/event-segmentation"), Some(seg), pj("ExploreReports")),
        29 => c(
            "POST",
            format!("{base}/property-values"),
            Some(json!({"propertyType": "event", "propertyName": "secret", "eventType": "regular", "eventName": "e"})),
            pj("ExploreReports"),
        ),
        30 => c("GET", format!("{base}/schema/event-properties/{}", pr.prop), None, pj("ViewSchema")),
        31 => c("GET", format!("/api/v1/organizations/{org}"), None, Need::Org(o, "ViewOrganization")),
        32 => c("PUT", format!("/api/v1/organizations/{org}"), Some(json!({"name": mark})), Need::Org(o, "ManageOrganization")),
        33 => c("POST", "/api/v1/organizations".into(), Some(json!({"name": mark})), Need::Server),
        34 => c("GET", "/api/v1/organizations".into(), None, Need::Server),
        35 => c("POST", "/api/v1/projects".into(), Some(json!({"name": mark})), Need::Here("ManageProjects")),
        36 => c("GET", "/api/v1/projects".into(), None, Need::Here("ExploreProjects")),
        37 => c("GET", "/api/v1/accounts".into(), None, Need::Server),
        38 => c("GET", format!("/api/v1/accounts/{}", h.accs[0].id), None, Need::Server),
        39 => c(
            "POST",
            "/api/v1/accounts".into(),
            Some(json!({"email": format!("{mark}@x.com"), "password": "some long password", "forceUpdatePassword": false, "forceUpdateEmail": false, "role": "Admin"})),
            Need::Server,
        ),
        40 => c("GET", "/api/v1/admin/settings".into(), None, Need::Server),
        41 => c("PUT", "/api/v1/admin/settings".into(), Some(json!({"backupProviderGcpPath": mark})), Need::Server),
        42 => c("GET", "/api/v1/admin/backups".into(), None, Need::Server),
        43 => gone(format!("{base}/schema/custom-events"), 18, pj("DeleteSchema")),
        44 => gone(format!("{base}/dashboards"), 3, pj("ManageReports")),
        45 => gone(format!("{base}/reports"), 7, pj("ManageReports")),
        46 => gone(format!("{base}/schema/events"), 13, pj("DeleteSchema")),
        47 => gone("/api/v1/organizations".into(), 33, Need::Server),
        48 => gone("/api/v1/accounts".into(), 39, Need::Server),
        49 => spare("DELETE", format!("{base}/schema/event-properties"), "", None, pj("DeleteSchema")),
        50 => spare("DELETE", format!("{base}/schema/events/{}/properties", pr.event), "", None, pj("ManageSchema")),
        51 => spare("POST", format!("{base}/schema/events/{}/properties", pr.event), "", None, pj("ManageSchema")),
        52 => c("GET", format!("{base}/schema/event-properties/name/secret"), None, pj("ViewSchema")),
        53 => c("GET", format!("{base}/schema/group-properties/0/{}", pr.gprop), None, pj("ViewSchema")),
        54 => c("GET", format!("{base}/schema/group-properties/0/name/plan"), None, pj("ViewSchema")),
        55 => c("PUT", format!("{base}/schema/group-properties/0/{}", pr.gprop), Some(json!({"description": mark})), pj("ManageSchema")),
        56 => Call {
            m: "DELETE",
            path: format!("{base}/schema/group-properties/0/{{id}}"),
            body: None,
            need: pj("DeleteSchema"),
            prep: Some(("GET", format!("{base}/schema/group-properties/0/name/spare{}", h.marks % 3), None)),
        },
        57 => c(
            "POST",
            format!("{base}/queries/funnel"),
            Some(json!({
                "time": {"type": "last", "last": 1, "unit": "day"}, "group": 0,
                "steps": [
                    {"events": [{"eventType": "regular", "eventName": "e"}], "order": {"type": "exact"}},
                    {"events": [{"eventType": "regular", "eventName": "e"}], "order": {"type": "exact"}}
                ],
                "timeWindow": {"n": 1, "unit": "day"},
                "chartType": {"type": "steps"},
                "count": "unique",
                "touch": {"type": "first"}
            })),
            pj("ExploreReports"),
        ),
        58 => c("POST", "/api/v1/admin/backups/backup".into(), None, Need::Server),
        59 => c("GET", "/api/v1/admin/backups/1".into(), None, Need::Server),
        60 | 61 => c("DELETE", base, None, pj("DeleteProject")),
        62 => c("PUT", format!("{base}/schema/events/{}", pr.event), Some(json!({"status": "enabled"})), pj("ManageSchema")),
        63 => c("GET", format!("{base}/schema/custom-events"), None, pj("ViewSchema")),
        64 => c("POST", format!("{base}/group-records/search"), Some(json!({"group": 0, "time": {"type": "last", "last": 30, "unit": "day"}})), pj("ExploreReports")),
        65 => c("GET", format!("{base}/group-records/0/u-zz{p}zz"), None, pj("ExploreReports")),
        _ => c("PUT", format!("/api/v1/accounts/{}", h.accs[0].id), Some(json!({"name": mark})), Need::Server),
    }
}

/// objects that the answer of a call is about, for `kept`
fn creates(ep: u64) -> bool {
    matches!(ep, 3 | 7 | 13 | 18 | 25 | 33 | 35)
}

fn claims(t: &str) -> Option<J> {
    let p = t.split('.').nth(1)?;
    let mut bits = 0u32;
    let mut n = 0;
    let mut out = vec![];
    for ch in p.bytes() {
        let v = match ch {
            b'A'..=b'Z' => ch - b'A',
            b'a'..=b'z' => ch - b'a' + 26,
            b'0'..=b'9' => ch - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        };
        bits = bits << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
        }
    }
    serde_json::from_slice(&out).ok()
}

fn changed(t: &str, n: usize) -> String {
    let mut b: Vec<u8> = t.bytes().collect();
    let at: Vec<usize> = (0..b.len()).filter(|i| b[*i] != b'.').collect();
    // not the very last letter, some of its bits mean nothing
    let i = at[n % (at.len() - 1)];
    let i = if b.get(i + 1).is_none_or(|c| *c == b'.') { i - 1 } else { i };
    b[i] = if b[i] == b'A' { b'B' } else { b'A' };
    String::from_utf8(b).unwrap()
}

fn keep_token(cx: &Ctx, r: &Resp, acc: usize, from: i64, org: Option<Option<usize>>, what: &str) {
    let (access, refresh) = (r.s("accessToken"), r.s("refreshToken"));
    let to = now_ms();
    let Some(cl) = claims(&access) else { return };
    let mut h = cx.h();
    let id = h.accs[acc].id;
    let o = cl["organizationId"].as_u64().unwrap_or(u64::MAX);
    let place = h.orgs.iter().position(|x| *x == o);
    if id != 0 && cl["accountId"].as_u64().is_some_and(|x| x != id) {
        let v = ("C25".into(), "token-of-another".into(), format!("{what}: account {id}, token {cl}"));
        h.violations.push(v);
    }
    if let Some(want) = org {
        if want != place {
            let v = ("C25".into(), "token-of-another-organization".into(), format!("{what}: {want:?}, token {cl} {place:?}"));
            h.violations.push(v);
        }
    }
    h.toks.push(Tok { acc, access, refresh, org: place, from, to });
}

/// may it be accepted, must it be
fn valid(from: i64, to: i64, secs: u64, a: i64, b: i64) -> (bool, bool) {
    let d = secs as i64 * 1000;
    // the leeway of the token library is a minute
    (a < to + d + 62_000, b + 1_000 < from + d)
}

fn client(cx: Arc<Ctx>, srv: Arc<Server>, ops: Vec<Op>, faults: bool) {
    for op in &ops {
        step(&cx, &srv, op, faults);
    }
}

fn tok_of(cx: &Ctx, t: usize) -> Option<(usize, Tok)> {
    let h = cx.h();
    if h.toks.is_empty() {
        return None;
    }
    // mostly the latest ones
    let n = h.toks.len();
    let i = if t % 3 == 0 { t / 3 % n } else { n - 1 - (t / 3) % n.min(4) };
    Some((i, h.toks[i].clone()))
}

fn is_server_error(cx: &Ctx, what: &str, r: &Resp, faults: bool) -> bool {
    if r.status >= 500 {
        if !faults {
            cx.violate("C26", "server-error", format!("{what}: {} {}", r.status, r.body));
        }
        return true;
    }
    let t = r.body.to_string();
    if t.contains("$sim$") {
        cx.violate("C25", "password-hash-shown", format!("{what}: {t}"));
    }
    false
}

/// an answer to a request that carries a token: (was it let in, may its account be gone)
fn check_token(cx: &Ctx, what: &str, r: &Resp, tok: &Tok, a: u64, b: u64, am: i64, bm: i64, faults: bool) -> bool {
    let (may, must) = valid(tok.from, tok.to, cx.work.conf.access_s, am, bm);
    let alive = cx.h().accs[tok.acc].alive.seen(a, b);
    if r.status < 300 && (!may || !alive.contains(&true)) {
        let why = if may { "deleted-account-let-in" } else { "expired-token-accepted" };
        cx.violate("C25", why, format!("{what}: {}", r.status));
        return false;
    }
    if r.status == 401 && must && alive == [true] && !faults {
        cx.violate("C25", "valid-token-refused", format!("{what}: {}", r.body));
        return false;
    }
    may && alive.contains(&true)
}

fn step(cx: &Ctx, srv: &Server, op: &Op, faults: bool) {
    // the administrator logs in for each request, tokens may live for seconds only
    let mut at = String::new();
    if matches!(op, Op::Roles { .. } | Op::ResetPassword { .. } | Op::Delete { .. }) || matches!(op, Op::Call { ep: 43..=51 | 56, .. }) {
        match srv.admin() {
            Ok(t) => at = t,
            Err(e) => {
                if !faults {
                    cx.violate("C25", "admin-locked-out", e);
                }
                return;
            }
        }
    }
    simrt::logf(|| format!("{op:?}"));
    let w = &cx.work;
    match op {
        Op::Sleep { ms, .. } => simrt::sleep(Duration::from_millis(*ms)),
        Op::Login { a, how, org, .. } => {
            let (acc, email, pw) = {
                let h = cx.h();
                let i = *a % h.accs.len();
                let acc = &h.accs[i];
                let cur = acc.pw.latest().unwrap_or_default();
                let pw = match how {
                    0 => cur,
                    1 => acc.pw.0.iter().rev().find(|x| x.v != cur).map(|x| x.v.clone()).unwrap_or(cur),
                    _ => "not the password".to_string(),
                };
                (i, if *how == 3 { "nobody@x.com".into() } else { acc.email.latest().unwrap_or_default() }, pw)
            };
            let cookie = org.map(|o| cx.h().orgs[o].to_string());
            let ck: Vec<(&str, &str)> = cookie.iter().map(|c| ("organization_id", c.as_str())).collect();
            let (s, am) = (cx.begin(), now_ms());
            let r = srv.send("POST", "/api/v1/auth/login", None, &ck, Some(&json!({"email": email, "password": pw})));
            let e = cx.end("login", r.status);
            simrt::logf(|| format!("login {email} {pw} -> {} {}", r.status, r.body));
            if is_server_error(cx, "login", &r, faults) {
                return;
            }
            // who can it be
            let (mut may, mut must) = (vec![], false);
            for (i, acc) in cx.h().accs.iter().enumerate() {
                let (em, ps, al) = (acc.email.seen(s, e), acc.pw.seen(s, e), acc.alive.seen(s, e));
                if em.contains(&email) && ps.contains(&pw) && al.contains(&true) {
                    may.push(i);
                    must |= em.len() == 1 && ps.len() == 1 && al.len() == 1;
                }
            }
            if r.ok() && may.is_empty() {
                cx.violate("C25", "logged-in-without-password", format!("{email} {pw}"));
            } else if !r.ok() && must && !faults {
                cx.violate("C25", "login-refused", format!("{email} {pw}: {} {}", r.status, r.body));
            }
            if r.ok() && !may.is_empty() {
                let i = if may.contains(&acc) { acc } else { may[0] };
                let seen = cx.h().accs[i].roles.seen(s, e);
                let member = |o: usize| seen.iter().any(|r| r.orgs.iter().any(|x| x.0 == o));
                keep_token(cx, &r, i, am, None, "login");
                let got = cx.h().toks.last().and_then(|t| t.org);
                if let Some(o) = got {
                    if !member(o) {
                        cx.violate("C25", "logged-in-to-a-foreign-organization", format!("account {i}, organization {o}"));
                    }
                }
                if org.is_none() && got.is_none() && seen.len() == 1 && !seen[0].orgs.is_empty() && cx.h().gone_org.is_empty() && may.len() == 1 {
                    cx.violate("C25", "logged-in-to-no-organization", format!("account {i}, {seen:?}"));
                }
                if let Some(o) = org {
                    if seen.len() == 1 && member(*o) && got != Some(*o) && may.len() == 1 {
                        cx.violate("C25", "organization-cookie-ignored", format!("account {i}, {seen:?}, wanted {o}, got {got:?}"));
                    }
                }
            }
        }
        Op::Refresh { t, with_access, bad, .. } => {
            let Some((_, tok)) = tok_of(cx, *t) else { return };
            let rt = if *bad { changed(&tok.refresh, *t) } else { tok.refresh.clone() };
            let (s, am) = (cx.begin(), now_ms());
            let hdr = with_access.then_some(tok.access.as_str());
            let r = srv.send("POST", "/api/v1/auth/refresh-token", hdr, &[], Some(&json!({"refreshToken": rt})));
            let e = cx.end("refresh", r.status);
            simrt::logf(|| format!("refresh -> {} {}", r.status, r.body));
            if is_server_error(cx, "refresh", &r, faults) {
                return;
            }
            let (may, must) = valid(tok.from, tok.to, w.conf.refresh_s, am, now_ms());
            let alive = cx.h().accs[tok.acc].alive.seen(s, e);
            if r.ok() && (*bad || !may || !alive.contains(&true)) {
                cx.violate("C25", "refreshed-without-right", format!("bad={bad} expired={} alive={alive:?}", !may));
            }
            if !r.ok() && !bad && must && alive == [true] && !faults {
                cx.violate("C25", "refresh-refused", format!("with_access={with_access}: {} {}", r.status, r.body));
            }
            if r.ok() && !bad {
                keep_token(cx, &r, tok.acc, am, None, "refresh");
            }
        }
        Op::Switch { t, org, .. } => {
            let Some((_, tok)) = tok_of(cx, *t) else { return };
            let id = cx.h().orgs[*org];
            let (s, am) = (cx.begin(), now_ms());
            let r = srv.post(&format!("/api/v1/auth/switch-organization/{id}"), Some(&tok.access), json!({}));
            let e = cx.end("switch", r.status);
            simrt::logf(|| format!("switch -> {} {}", r.status, r.body));
            if is_server_error(cx, "switch", &r, faults) || !check_token(cx, "switch", &r, &tok, s, e, am, now_ms(), faults) {
                return;
            }
            judge_need(cx, "switch organization", &r, &Need::Org(*org, "ViewOrganization"), &tok, s, e, faults);
            if r.ok() {
                keep_token(cx, &r, tok.acc, am, Some(Some(*org)), "switch");
            }
        }
        Op::Profile { t, .. } => {
            let Some((_, tok)) = tok_of(cx, *t) else { return };
            let (s, am) = (cx.begin(), now_ms());
            let r = srv.get("/api/v1/profile", Some(&tok.access));
            let e = cx.end("profile", r.status);
            if is_server_error(cx, "profile", &r, faults) || !check_token(cx, "profile", &r, &tok, s, e, am, now_ms(), faults) {
                return;
            }
            if r.ok() {
                let h = cx.h();
                let acc = &h.accs[tok.acc];
                let ok = acc.email.seen(s, e).contains(&r.s("email"))
                    && acc.force_pw.seen(s, e).iter().any(|f| r.body["forceUpdatePassword"] == *f)
                    && acc.force_em.seen(s, e).iter().any(|f| r.body["forceUpdateEmail"] == *f);
                let d = format!("account {}: {} instead of {:?} {:?}", tok.acc, r.body, acc.email.seen(s, e), acc.force_pw.seen(s, e));
                drop(h);
                if !ok {
                    cx.violate("C25", "profile-of-another", d);
                }
            }
        }
        Op::Call { t, bad, ep, p, org, .. } => {
            let Some((ti, tok)) = tok_of(cx, *t) else { return };
            let last = w.projects.len() - 1;
            let (ep, p) = match (*ep, *p) {
                (60 | 61, _) if w.doom => (60, last),
                (60 | 61, p) => (0, p),
                (ep, p) if w.doom && p == last => (if ep % 2 == 0 { 0 } else { ep }, ep as usize % last),
                x => x,
            };
            let (p, ep) = if w.doom && p == last && ep != 60 { (p, 0) } else { (p, ep) };
            let doomed = w.doom && p == last;
            let (mut call, mark) = {
                let mut h = cx.h();
                h.marks += 1;
                let mark = format!("zz{p}zz-m{}m", h.marks);
                let mut call = endpoint(ep, &h, p, *org, &mark);
                if let (11, Some(id)) = (ep, h.projects[p].marks.get(&tok.acc)) {
                    call.path = format!("/api/v1/projects/{}/bookmarks/{id}", h.projects[p].id);
                }
                (call, mark)
            };
            let prepared = call.prep.is_some();
            if let Some((m, path, body)) = call.prep.take() {
                let r = srv.send(m, &path, Some(&at), &[], body.as_ref());
                let id = r.u("id");
                if !r.ok() || id == 0 {
                    simrt::logf(|| format!("{m} {path} -> {} {}", r.status, r.body));
                    return;
                }
                simrt::probe("prepared");
                call.path = call.path.replace("{id}", &id.to_string());
            }
            let hdr = match bad {
                0 => Some(tok.access.clone()),
                1 => None,
                2 => Some(changed(&tok.access, *t * 7 + p)),
                3 => Some(tok.refresh.clone()),
                _ => {
                    let key = if *t % 2 == 0 { "another key" } else { "" };
                    Some(platform::auth::token::make_access_token(1, 1, chrono::Duration::hours(1), key).unwrap())
                }
            };
            let what = format!("{} {}", call.m, call.path);
            let (s, am) = (cx.begin(), now_ms());
            let r = srv.send(call.m, &call.path, hdr.as_deref(), &[], call.body.as_ref());
            let e = cx.end("call", r.status);
            simrt::logf(|| format!("{what} by token {ti} of account {} for {:?} -> {} {}", tok.acc, tok.org, r.status, r.body));
            if (400..500).contains(&r.status) && call.m != "GET" && !prepared {
                cx.h().refused.push((mark.clone(), what.clone()));
            }
            if *bad > 0 {
                if r.status != 401 && r.status < 500 || r.ok() {
                    cx.violate("C25", "let-in-without-token", format!("{what}, kind {bad}: {} {}", r.status, r.body));
                }
                return;
            }
            if is_server_error(cx, &what, &r, faults) || !check_token(cx, &what, &r, &tok, s, e, am, now_ms(), faults) {
                return;
            }
            // (a deleted project is nobody's)
            let off = ep == 58 && r.body.to_string().contains("backup is disabled");
            judge_need(cx, &what, &r, &call.need, &tok, s, e, faults || doomed || off);
            if r.ok() {
                if creates(ep) {
                    cx.h().kept.push((mark.clone(), what.clone()));
                }
                // what belongs to other projects does not show
                let text = r.body.to_string();
                if let Need::Project(p, _) = call.need {
                    for q in 0..w.projects.len() {
                        if q != p && text.contains(&format!("zz{q}zz")) {
                            cx.violate("C26", "foreign-data", format!("{what} of project {p} shows project {q}: {text}"));
                        }
                    }
                }
                if ep == 36 {
                    for q in 0..w.projects.len() {
                        if Some(w.projects[q]) != tok.org && text.contains(&format!("\"P-zz{q}zz\"")) {
                            cx.violate("C26", "foreign-data", format!("projects of organization {:?} list project {q}", tok.org));
                        }
                    }
                }
            }
        }
        Op::NewPassword { t, how, n, weak, .. } => {
            let Some((_, tok)) = tok_of(cx, *t) else { return };
            let new = if *weak { format!("{n}") } else { format!("a new password {n}") };
            let cur = cx.h().accs[tok.acc].pw.latest().unwrap_or_default();
            let old = if *how == 0 { cur } else { "not the password".into() };
            let (s, am) = (cx.begin(), now_ms());
            let i = cx.h().accs[tok.acc].pw.start(new.clone(), s);
            let r = srv.put("/api/v1/profile/password", Some(&tok.access), json!({"password": old, "newPassword": new}));
            let e = cx.end("new password", r.status);
            simrt::logf(|| format!("new password {new} of account {} -> {} {}", tok.acc, r.status, r.body));
            // (itself not counted)
            let before = {
                let mut h = cx.h();
                h.accs[tok.acc].pw.0[i].void = true;
                let b = h.accs[tok.acc].pw.seen(s, e);
                h.accs[tok.acc].pw.end(i, e, r.status);
                b
            };
            if is_server_error(cx, "new password", &r, faults) || !check_token(cx, "new password", &r, &tok, s, e, am, now_ms(), faults) {
                return;
            }
            if r.ok() && (*weak || !before.contains(&old)) {
                cx.violate("C25", "password-changed-without-right", format!("{old} -> {new}, was {before:?}"));
            }
            if r.ok() {
                keep_token(cx, &r, tok.acc, am, Some(tok.org), "new password");
            } else if !weak && before == [old] && r.status == 400 && !faults {
                cx.violate("C25", "password-change-refused", format!("{} {}", r.status, r.body));
            }
        }
        Op::SetPassword { t, n, .. } => {
            let Some((_, tok)) = tok_of(cx, *t) else { return };
            let new = format!("a set password {n}");
            let (s, am) = (cx.begin(), now_ms());
            let (i, j) = {
                let mut h = cx.h();
                let a = &mut h.accs[tok.acc];
                (a.pw.start(new.clone(), s), a.force_pw.start(false, s))
            };
            let r = srv.put("/api/v1/profile/set-password", Some(&tok.access), json!({"password": new}));
            let e = cx.end("set password", r.status);
            simrt::logf(|| format!("set password {new} of account {} -> {} {}", tok.acc, r.status, r.body));
            let forced = {
                let mut h = cx.h();
                let a = &mut h.accs[tok.acc];
                a.force_pw.0[j].void = true;
                let f = a.force_pw.seen(s, e);
                a.pw.end(i, e, r.status);
                a.force_pw.end(j, e, r.status);
                f
            };
            if is_server_error(cx, "set password", &r, faults) || !check_token(cx, "set password", &r, &tok, s, e, am, now_ms(), faults) {
                return;
            }
            if r.ok() && !forced.contains(&true) {
                cx.violate("C25", "password-set-without-right", format!("account {}", tok.acc));
            }
            if r.ok() {
                keep_token(cx, &r, tok.acc, am, Some(tok.org), "set password");
            }
        }
        Op::NewEmail { t, n, how, kind, .. } => {
            // kind: 0 a new one, 1 of somebody else, 2 not an address; how: 0 with the password, 1 with a wrong one, 2 set
            let Some((_, tok)) = tok_of(cx, *t) else { return };
            let (new, old) = {
                let h = cx.h();
                let other = (tok.acc + 1) % h.accs.len();
                let new = match kind {
                    0 => format!("new{n}@x.com"),
                    1 => h.accs[other].email.latest().unwrap_or_default(),
                    _ => format!("no address {n}"),
                };
                let cur = h.accs[tok.acc].pw.latest().unwrap_or_default();
                (new, if *how == 1 { "not the password".to_string() } else { cur })
            };
            let (s, am) = (cx.begin(), now_ms());
            let (i, j) = {
                let mut h = cx.h();
                let a = &mut h.accs[tok.acc];
                let j = if *how == 2 { a.force_em.start(false, s) } else { usize::MAX };
                (a.email.start(new.clone(), s), j)
            };
            let r = if *how == 2 {
                srv.put("/api/v1/profile/set-email", Some(&tok.access), json!({"email": new}))
            } else {
                srv.put("/api/v1/profile/email", Some(&tok.access), json!({"email": new, "password": old}))
            };
            let e = cx.end("new email", r.status);
            simrt::logf(|| format!("new email {new} of account {} -> {} {}", tok.acc, r.status, r.body));
            let (forced, pws, taken, mine) = {
                let mut h = cx.h();
                let a = &mut h.accs[tok.acc];
                let pws = a.pw.seen(s, e);
                a.email.0[i].void = true;
                let mine = a.email.seen(s, e);
                a.email.end(i, e, r.status);
                let mut f = vec![true];
                if j != usize::MAX {
                    a.force_em.0[j].void = true;
                    f = a.force_em.seen(s, e);
                    a.force_em.end(j, e, r.status);
                }
                let taken = h.accs.iter().enumerate().any(|(k, a)| {
                    k != tok.acc && a.email.seen(s, e) == [new.clone()] && a.alive.seen(s, e) == [true]
                });
                (f, pws, taken, mine)
            };
            if is_server_error(cx, "new email", &r, faults) || !check_token(cx, "new email", &r, &tok, s, e, am, now_ms(), faults) {
                return;
            }
            if r.ok() {
                let right = if *how == 2 { forced.contains(&true) } else { pws.contains(&old) };
                if !right {
                    cx.violate("C25", "address-changed-without-right", format!("account {} {new}", tok.acc));
                }
                if *kind == 2 {
                    cx.violate("C25", "unusable-address", format!("account {} {new}", tok.acc));
                }
                if taken && mine != [new.clone()] {
                    cx.violate("C25", "address-of-another", format!("account {} {new}", tok.acc));
                }
                keep_token(cx, &r, tok.acc, am, Some(tok.org), "new email");
            }
        }
        Op::SignUp { n, kind, .. } => {
            // kind: 0 right, 1 passwords differ, 2 an address in use, 3 no address, 4 weak
            let mut email = format!("sign{n}@x.com");
            let mut pw = format!("a sign up password {n}");
            match kind {
                2 => email = cx.h().accs[0].email.latest().unwrap_or_default(),
                3 => email = format!("sign{n}"),
                4 => pw = "x".into(),
                _ => {}
            }
            let rep = if *kind == 1 { format!("{pw}!") } else { pw.clone() };
            let (s, am) = (cx.begin(), now_ms());
            let i = {
                let mut h = cx.h();
                let mut alive = Reg::new(false, s);
                alive.start(true, s);
                h.accs.push(Acc {
                    id: 0,
                    email: Reg::new(email.clone(), s),
                    pw: Reg::new(pw.clone(), s),
                    roles: Reg::new(Roles::default(), s),
                    alive,
                    force_pw: Reg::new(false, s),
                    force_em: Reg::new(false, s),
                });
                h.accs.len() - 1
            };
            let r = srv.post("/api/v1/auth/signup", None, json!({"email": email, "password": pw, "passwordRepeat": rep, "name": "n"}));
            let e = cx.end("sign up", r.status);
            simrt::logf(|| format!("sign up {email} -> {} {}", r.status, r.body));
            let (taken, free) = {
                let mut h = cx.h();
                let taken = h.accs.iter().enumerate().any(|(k, a)| {
                    k != i && a.email.seen(s, e) == [email.clone()] && a.alive.seen(s, e) == [true]
                });
                let free = !h.accs.iter().enumerate().any(|(k, a)| k != i && a.email.0.iter().any(|w| w.v == email));
                h.accs[i].alive.end(1, e, r.status);
                if r.ok() {
                    h.accs[i].id = claims(&r.s("accessToken")).and_then(|c| c["accountId"].as_u64()).unwrap_or(0);
                }
                (taken, free)
            };
            if is_server_error(cx, "sign up", &r, faults) {
                return;
            }
            if r.ok() && (matches!(kind, 1 | 3 | 4) || taken) {
                cx.violate("C25", "wrong-sign-up-accepted", format!("kind {kind} {email}"));
            } else if !r.ok() && *kind == 0 && free && !faults {
                cx.violate("C25", "sign-up-refused", format!("{email}: {} {}", r.status, r.body));
            }
            if r.ok() {
                keep_token(cx, &r, i, am, None, "sign up");
            }
        }
        Op::Roles { a, roles } => {
            let (i, id, body) = {
                let h = cx.h();
                let i = a % h.accs.len();
                (i, h.accs[i].id, roles_json(&h, roles))
            };
            if id == 0 {
                return;
            }
            let s = cx.begin();
            let k = cx.h().accs[i].roles.start(roles.clone(), s);
            let r = srv.put(&format!("/api/v1/accounts/{id}"), Some(&at), body);
            let e = cx.end("roles", r.status);
            simrt::logf(|| format!("roles of account {i} -> {} {}", r.status, r.body));
            let alive = cx.h().accs[i].alive.seen(s, e);
            cx.h().accs[i].roles.end(k, e, r.status);
            if !is_server_error(cx, "roles", &r, faults) && !r.ok() && alive == [true] && !faults {
                cx.violate("C26", "roles-refused", format!("{} {}", r.status, r.body));
            }
        }
        Op::ResetPassword { a, n, force } => {
            let (i, id) = {
                let h = cx.h();
                let i = a % h.accs.len();
                (i, h.accs[i].id)
            };
            if id == 0 {
                return;
            }
            let new = format!("a reset password {n}");
            let mut body = json!({"password": new});
            let s = cx.begin();
            let (k, f) = {
                let mut h = cx.h();
                let a = &mut h.accs[i];
                let f = force.map(|v| a.force_pw.start(v, s));
                (a.pw.start(new, s), f)
            };
            if let Some(v) = force {
                body["forceUpdatePassword"] = (*v).into();
            }
            let r = srv.put(&format!("/api/v1/accounts/{id}"), Some(&at), body);
            let e = cx.end("reset password", r.status);
            simrt::logf(|| format!("reset password of account {i} -> {} {}", r.status, r.body));
            let alive = {
                let mut h = cx.h();
                let a = &mut h.accs[i];
                a.pw.end(k, e, r.status);
                if let Some(f) = f {
                    a.force_pw.end(f, e, r.status);
                }
                a.alive.seen(s, e)
            };
            if !is_server_error(cx, "reset password", &r, faults) && !r.ok() && alive == [true] && !faults {
                cx.violate("C25", "reset-refused", format!("{} {}", r.status, r.body));
            }
        }
        Op::Delete { a } => {
            let (i, id) = {
                let h = cx.h();
                let i = a % h.accs.len();
                (i, h.accs[i].id)
            };
            if id == 0 {
                return;
            }
            let s = cx.begin();
            let k = cx.h().accs[i].alive.start(false, s);
            let r = srv.send("DELETE", &format!("/api/v1/accounts/{id}"), Some(&at), &[], None);
            let e = cx.end("delete", r.status);
            simrt::logf(|| format!("delete account {i} -> {} {}", r.status, r.body));
            let was = {
                let mut h = cx.h();
                h.accs[i].alive.0[k].void = true;
                let was = h.accs[i].alive.seen(s, e);
                h.accs[i].alive.end(k, e, r.status);
                was
            };
            if !is_server_error(cx, "delete", &r, faults) && !r.ok() && was == [true] && !faults {
                cx.violate("C25", "delete-refused", format!("{} {}", r.status, r.body));
            }
        }
    }
}

fn judge_need(cx: &Ctx, what: &str, r: &Resp, need: &Need, tok: &Tok, s: u64, e: u64, faults: bool) {
    let (some, all, seen) = {
        let h = cx.h();
        let seen = h.accs[tok.acc].roles.seen(s, e);
        let ok: Vec<bool> = seen.iter().map(|r| allowed(need, r, tok.org, &h.projects)).collect();
        (ok.contains(&true), !ok.contains(&false) && h.accs[tok.acc].alive.seen(s, e) == [true], seen)
    };
    if some {
        simrt::probe("permitted");
    } else {
        simrt::probe("denied");
    }
    let d = || format!("{what} needs {need:?}, account {} has {seen:?}, token for organization {:?}: {} {}", tok.acc, tok.org, r.status, r.body);
    if r.ok() && !some {
        cx.violate("C26", "done-without-permission", d());
    } else if all && matches!(r.status, 401 | 403) && !faults {
        let expired = r.status == 401 && !valid(tok.from, tok.to, cx.work.conf.access_s, now_ms(), now_ms()).1;
        if !expired {
            cx.violate("C26", "refused-with-permission", d());
        }
    } else if !r.ok() && !some && !matches!(r.status, 401 | 403 | 404) && r.status < 500 {
        // it would tell about what is not to be seen
        cx.violate("C26", "answered-without-permission", d());
    }
}

fn roles_json(h: &Hist, r: &Roles) -> J {
    let orgs: Vec<J> = r.orgs.iter().map(|(o, x)| json!([h.orgs[*o], x])).collect();
    let projects: Vec<J> = r.projects.iter().map(|(p, x)| json!([h.projects[*p].id, x])).collect();
    json!({
        "role": if r.admin { json!("Admin") } else { J::Null },
        "organizations": orgs,
        "projects": projects,
    })
}

/// organizations, projects with something in them, and accounts
fn setup(cx: &Ctx, srv: &Server, at: &str) -> Result<(), String> {
    let need = |r: &Resp, what: &str| if r.ok() { Ok(()) } else { Err(format!("{what}: {} {}", r.status, r.body)) };
    if cx.work.doom {
        let r = srv.put(
            "/api/v1/admin/settings",
            Some(at),
            json!({"backupEnabled": true, "backupProvider": "gcp", "backupProviderGcpBucket": "b", "backupProviderGcpPath": "p", "backupProviderGcpKey": "k", "backupScheduleInterval": "weekly", "backupScheduleStartHour": 3}),
        );
        need(&r, "settings")?;
    }
    let mut toks = vec![];
    for o in 0..cx.work.orgs {
        let id = if o == 0 {
            let r = srv.get("/api/v1/organizations", Some(at));
            need(&r, "organizations")?;
            r.body["data"][0]["id"].as_u64().unwrap_or(0)
        } else {
            let r = srv.post("/api/v1/organizations", Some(at), json!({"name": format!("O{o}")}));
            need(&r, "organization")?;
            r.u("id")
        };
        let r = srv.post(&format!("/api/v1/auth/switch-organization/{id}"), Some(at), json!({}));
        need(&r, "switch")?;
        toks.push(r.s("accessToken"));
        cx.h().orgs.push(id);
    }
    for (i, o) in cx.work.projects.iter().enumerate() {
        let t = &toks[*o];
        let name = format!("zz{i}zz");
        let r = srv.post("/api/v1/projects", Some(t), json!({"name": format!("P-{name}")}));
        need(&r, "project")?;
        let (id, tok) = (r.u("id"), r.s("sdkToken"));
        let base = format!("/api/v1/projects/{id}");
        let r = srv.post(
            &format!("/api/v1/ingest/{tok}/track"),
            None,
            json!({"event": "e", "userId": format!("u-{name}"), "context": {}, "properties": {"secret": format!("s-{name}"), "spare0": "0", "spare1": "1", "spare2": "2"}}),
        );
        need(&r, "track")?;
        let mut p = Proj { id, org: *o, ..Default::default() };
        let r = srv.post(
            &format!("/api/v1/ingest/{tok}/identify"),
            None,
            json!({"group": "user", "id": format!("u-{name}"), "context": {}, "properties": {"plan": format!("p-{name}"), "spare0": "0", "spare1": "1", "spare2": "2"}}),
        );
        need(&r, "identify")?;
        let r = srv.get(&format!("{base}/schema/group-properties/0/name/plan"), Some(t));
        need(&r, "group property")?;
        p.gprop = r.u("id");
        let r = srv.post(&format!("{base}/dashboards"), Some(t), json!({"name": format!("D-{name}"), "panels": []}));
        need(&r, "dashboard")?;
        p.dash = r.u("id");
        let q = endpoint(7, &hist_stub(id), 0, 0, &format!("R-{name}"));
        let r = srv.post(&q.path, Some(t), q.body.clone().unwrap());
        need(&r, "report")?;
        p.report = r.u("id");
        let r = srv.post(&format!("{base}/bookmarks"), Some(t), json!({"query": q.body.unwrap()["query"]}));
        need(&r, "bookmark")?;
        p.mark = r.s("id");
        let r = srv.get(&format!("{base}/schema/events/name/e"), Some(t));
        need(&r, "event")?;
        p.event = r.u("id");
        let q = endpoint(18, &hist_stub(id), 0, 0, &format!("C-{name}"));
        let r = srv.post(&q.path, Some(t), q.body.unwrap());
        need(&r, "custom event")?;
        p.custom = r.u("id");
        let r = srv.get(&format!("{base}/schema/event-properties/name/secret"), Some(t));
        need(&r, "property")?;
        p.prop = r.u("id");
        cx.h().projects.push(p);
    }
    for (i, u) in cx.work.users.iter().enumerate() {
        let (email, pw) = (format!("user{i}@x.com"), format!("the password of {i}"));
        let mut b = roles_json(&cx.h(), &u.roles);
        b["email"] = email.clone().into();
        b["password"] = pw.clone().into();
        b["forceUpdatePassword"] = u.force_pw.into();
        b["forceUpdateEmail"] = u.force_em.into();
        // bookmarks are one's own, so this account makes some before it gets its roles
        let role = b["role"].take();
        b["role"] = if i == 0 { json!("Admin") } else { role.clone() };
        let r = srv.post("/api/v1/accounts", Some(at), b.clone());
        need(&r, "account")?;
        if i == 0 {
            let l = srv.post("/api/v1/auth/login", None, json!({"email": email, "password": pw}));
            need(&l, "login")?;
            let t = l.s("accessToken");
            let (ids, me): (Vec<u64>, usize) = {
                let h = cx.h();
                (h.projects.iter().map(|p| p.id).collect(), h.accs.len())
            };
            for (p, id) in ids.into_iter().enumerate() {
                let q = endpoint(10, &hist_stub(id), 0, 0, "");
                let m = srv.post(&q.path, Some(&t), q.body.unwrap());
                need(&m, "bookmark")?;
                cx.h().projects[p].marks.insert(me, m.s("id"));
            }
            let mut u = roles_json(&cx.h(), &cx.work.users[0].roles);
            u["role"] = role;
            need(&srv.put(&format!("/api/v1/accounts/{}", r.u("id")), Some(at), u), "roles")?;
        }
        let now = cx.tick();
        cx.h().accs.push(Acc {
            id: r.u("id"),
            email: Reg::new(email, now),
            pw: Reg::new(pw, now),
            roles: Reg::new(u.roles.clone(), now),
            alive: Reg::new(true, now),
            force_pw: Reg::new(u.force_pw, now),
            force_em: Reg::new(u.force_em, now),
        });
        cx.tick();
    }
    Ok(())
}

fn hist_stub(id: u64) -> Hist {
    Hist { projects: vec![Proj { id, ..Default::default() }], orgs: vec![0], ..Default::default() }
}

fn life_main(cx: Arc<Ctx>, life: usize) {
    let l = cx.work.lives[life].clone();
    simrt::arm_faults(false);
    let srv = match Server::start(cx.work.conf.config()) {
        Ok(s) => Arc::new(s),
        Err(e) => {
            cx.h().failed = Some(e);
            return;
        }
    };
    let at = match srv.admin() {
        Ok(t) => t,
        Err(e) => {
            cx.violate("C22", "admin-locked-out", e);
            return;
        }
    };
    if life == 0 {
        if let Err(e) = setup(&cx, &srv, &at) {
            cx.violate("C22", "setup-failed", e);
            return;
        }
    }
    let faults = !cx.work.variant.is_empty() && cx.work.variant == "err" && life + 1 < cx.work.lives.len();
    simrt::arm_faults(life + 1 < cx.work.lives.len());
    let n = l.ops.iter().map(|o| o.client() + 1).max().unwrap_or(0);
    let hs: Vec<_> = (0..n)
        .map(|c| {
            let (cx, srv) = (cx.clone(), srv.clone());
            let ops: Vec<Op> = l.ops.iter().filter(|o| o.client() == c).cloned().collect();
            simrt::spawn("client", move || client(cx, srv, ops, faults))
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    simrt::arm_faults(false);
    if let Some(e) = srv.failed() {
        cx.violate("*", "server-ended", format!("life {life}: {e}"));
    }
    if !simrt::panics().is_empty() {
        cx.violate("*", "panic", format!("life {life}: {:?}", simrt::panics()));
    }
}

fn judge(cx: &Ctx) -> Result<(), String> {
    let rd = Reader::open()?;
    let all: Vec<u8> = rd
        .rocks
        .prefix_iterator(b"")
        .flat_map(|kv| {
            let (k, v) = kv.expect("read");
            let mut b = k.to_vec();
            b.push(b'\n');
            b.extend_from_slice(&v);
            b.push(b'\n');
            b
        })
        .collect();
    let text = String::from_utf8_lossy(&all).to_string();
    let (refused, kept, pws) = {
        let h = cx.h();
        let pws: BTreeSet<String> = h.accs.iter().flat_map(|a| a.pw.0.iter().map(|w| w.v.clone())).filter(|p| p.len() > 3).collect();
        (h.refused.clone(), h.kept.clone(), pws)
    };
    for (m, what) in refused {
        if text.contains(&m) {
            cx.violate("C26", "refused-but-done", format!("{what}: {m} is stored"));
        }
    }
    for (m, what) in kept {
        if !text.contains(&m) {
            cx.violate("C26", "done-but-lost", format!("{what}: {m} is not stored"));
        }
    }
    for p in pws {
        if text.contains(&p) {
            cx.violate("C25", "password-stored", p);
        }
    }
    Ok(())
}

pub struct Auth;

fn gen_roles(r: &mut Rng, orgs: usize, projects: usize) -> Roles {
    let mut x = Roles { admin: r.below(10) == 0, ..Default::default() };
    for o in 0..orgs {
        if r.below(3) == 0 {
            x.orgs.push((o, r.pick(&["Owner", "Admin", "Admin", "Member"]).to_string()));
        }
    }
    for p in 0..projects {
        if r.below(3) == 0 {
            x.projects.push((p, r.pick(&["Owner", "Admin", "Member", "Reader"]).to_string()));
        }
    }
    x
}

impl Scenario for Auth {
    fn name(&self) -> &'static str {
        "auth"
    }

    fn generate(&self, r: &mut Rng, variant: &str, tier: &str) -> Plan {
        let mut conf = Conf::default();
        conf.access_s = *r.pick(&[20, 100, 3600, 3600]);
        conf.refresh_s = *r.pick(&[60, 4000, 86400]);
        let nl = if variant == "conc" { 1 } else { 2 + r.usize(2) };
        let orgs = 2 + r.usize(2);
        let projects: Vec<usize> = (0..2 + r.usize(2)).map(|i| if i < 2 { i } else { r.usize(orgs) }).collect();
        let doom = r.below(3) == 0;
        let users: Vec<User> = (0..2 + r.usize(3))
            .map(|_| User { roles: gen_roles(r, orgs, projects.len()), force_pw: r.below(4) == 0, force_em: r.below(4) == 0 })
            .collect();
        let (mut lives, mut cfgs) = (vec![], vec![]);
        let mut n = 0;
        for life in 0..nl {
            let mut l = Life::default();
            // everyone logs in
            for a in 0..users.len() {
                l.ops.push(Op::Login { c: r.usize(3), a, how: 0, org: None });
            }
            let m = 8 + r.below(if tier == "thorough" { 60 } else { 30 });
            for _ in 0..m {
                n += 1;
                let (c, t, a) = (r.usize(3), r.usize(1000), r.usize(users.len() + 1));
                let (p, org) = (r.usize(projects.len()), r.usize(orgs));
                l.ops.push(match r.below(30) {
                    0..=2 => Op::Login { c, a, how: *r.pick(&[0, 0, 0, 1, 2, 3]), org: (r.below(3) == 0).then_some(org) },
                    3 => Op::Refresh { c, t, with_access: r.below(2) == 0, bad: r.below(4) == 0 },
                    4 => Op::Switch { c, t, org },
                    5 => Op::Profile { c, t },
                    6 => Op::NewPassword { c, t, how: (r.below(4) == 0) as u64, n, weak: r.below(6) == 0 },
                    7 => Op::SetPassword { c, t, n },
                    8 => Op::NewEmail { c, t, n, how: r.below(3), kind: *r.pick(&[0, 0, 1, 2]) },
                    9 => Op::SignUp { c, n, kind: *r.pick(&[0, 0, 1, 2, 3, 4]) },
                    10 | 11 => Op::Roles { a, roles: gen_roles(r, orgs, projects.len() - doom as usize) },
                    12 => Op::ResetPassword { a, n, force: *r.pick(&[None, Some(true), Some(false)]) },
                    13 if r.below(2) == 0 => Op::Delete { a },
                    14 => Op::Sleep { c, ms: *r.pick(&[500, 5_000, 30_000, 100_000]) + r.below(3000) },
                    _ => Op::Call { c, t, bad: if r.below(6) == 0 { 1 + r.below(4) } else { 0 }, ep: r.below(ENDPOINTS), p, org },
                });
            }
            let mut c = simdrv::util::cfg(r);
            c.tick_ns = *r.pick(&[0, 1000, 20_000]);
            c.step_limit = 3_000_000;
            if life + 1 < nl {
                let span = *r.pick(&[20, 60, 150]);
                let op = 1 + r.below(span);
                c.faults.push(match if variant == "err" { 4 + r.below(4) } else { r.below(4) } {
                    0 => Fault::CrashStep { step: 1 + r.below(span * 60) },
                    1 | 2 => Fault::CrashCommit { op: 1 + r.below(15), after: r.below(2) == 0 },
                    3 => Fault::Crash { op, keep: *r.pick(&[0, 300, 1000]) },
                    4 => Fault::WriteErr { op, errno: *r.pick(&[5, 28]), keep: *r.pick(&[0, 300, 999]) },
                    _ => Fault::CommitErr { op: 1 + r.below(15) },
                });
            }
            cfgs.push(c);
            lives.push(l);
        }
        let work = Work { variant: variant.to_string(), conf, users, projects, doom, orgs, lives };
        Plan { scenario: String::new(), seed: 0, cfgs, data: serde_json::to_value(&work).unwrap() }
    }

    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        let mut out = Outcome::default();
        let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
        let cx = Arc::new(Ctx { work, h: Mutex::new(Hist::default()) });
        let (c2, c3, c4, c5) = (cx.clone(), cx.clone(), cx.clone(), cx.clone());
        let seen = crate::lives::run(
            plan,
            &mut out,
            verbose,
            cx.work.lives.len(),
            Arc::new(move |life| life_main(c2.clone(), life)),
            Some(Box::new(move |_| {
                if let Err(e) = judge(&c5) {
                    c5.violate("C26", "unreadable", e);
                }
            })),
            &|| c3.h().violations.is_empty(),
            &|life, rep| {
                let errs = crate::lives::error_faults(rep);
                let mut h = c4.h();
                h.open = 0;
                h.clock += 1;
                let now = h.clock;
                for a in &mut h.accs {
                    a.email.close(now);
                    a.pw.close(now);
                    a.roles.close(now);
                    a.alive.close(now);
                    a.force_pw.close(now);
                    a.force_em.close(now);
                }
                h.clock += 1;
                let failed = h.failed.take();
                drop(h);
                if let Some(e) = failed {
                    if !errs {
                        c4.violate("C22", "start-failed", format!("life {life}: {e}"));
                    }
                }
            },
        );
        let mut h = cx.h();
        for (p, c, d) in std::mem::take(&mut h.violations) {
            out.violate(&p, c, d);
        }
        out.nontrivial = match cx.work.variant.as_str() {
            "conc" => h.overlap > 0,
            "crash" => seen.crashed,
            _ => seen.faulted,
        };
        out.ops = h.ops;
        out.digest = h.digest;
        for t in &h.toks {
            let r = &h.accs[t.acc].roles.latest();
            out.states.push(simdrv::util::hash(&format!("{r:?}{:?}", t.org)));
        }
        out.summary = format!("{} lives, {} requests, {} tokens, {:?}, crashed={}, faulted={}", out.stats.len(), h.ops, h.toks.len(), h.kinds, seen.crashed, seen.faulted);
        out
    }
}
