//! Queries over events that clients send: the answers of the search and of the reports, compared with a
//! direct evaluation over the events that were accepted.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::sync::Mutex;

use chrono::DateTime;
use chrono::Datelike;
use chrono::Duration;
use chrono::Months;
use chrono::TimeZone;
use chrono::Timelike;
use chrono::Utc;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value as J;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Fault;

use crate::app::*;
use crate::qfunnel;

#[derive(Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub enum V {
    S(String),
    /// hundredths
    N(i64),
    B(bool),
    /// milliseconds
    D(i64),
}

impl V {
    /// as a client sends it with an event
    fn json(&self) -> J {
        match self {
            V::S(s) => J::from(s.clone()),
            V::N(n) => num(*n),
            V::B(b) => J::from(*b),
            V::D(ms) => J::from(rfc(*ms)),
        }
    }
    /// as a value of a filter
    fn fjson(&self) -> J {
        match self {
            V::D(ms) => J::from(*ms),
            v => v.json(),
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            V::N(n) => *n as f64 / 100.0,
            V::D(n) => *n as f64,
            _ => 0.0,
        }
    }
}

fn num(n: i64) -> J {
    let s = if n % 100 == 0 { format!("{}", n / 100) } else { format!("{}{}.{:02}", if n < 0 { "-" } else { "" }, n.abs() / 100, n.abs() % 100) };
    serde_json::from_str(&s).unwrap()
}

pub fn rfc(ms: i64) -> String {
    DateTime::from_timestamp_millis(ms).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Millis, true)
}

pub type Props = BTreeMap<String, V>;

/// a property: of the event, of its user (0) or of its company (1)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct P {
    pub n: String,
    pub g: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filt {
    pub p: P,
    pub op: String,
    pub vals: Option<Vec<V>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Reg(String),
    Cust(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sel {
    pub ev: Ev,
    pub filters: Vec<Filt>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    Between(i64, i64),
    From(i64),
    Last(i64, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Span {
    pub t: T,
    /// seconds
    pub cur: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Q {
    Count,
    Unique,
    Daily,
    PerGroup(String),
    PropPerGroup(P, String, String),
    Prop(P, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SegEv {
    pub sel: Sel,
    pub breakdowns: Vec<P>,
    pub queries: Vec<Q>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Search { span: Span, events: Option<Vec<Sel>>, filters: Vec<Filt>, props: Option<Vec<P>>, compact: bool },
    Get { rid: u64 },
    /// records of users (0) or companies (1)
    Recs { span: Option<Span>, cur: i64, g: usize, filters: Vec<Filt>, props: Option<Vec<P>>, compact: bool },
    Rec { g: usize, id: usize },
    /// the values that a property has
    Vals { ev: Option<Ev>, p: P, filt: Option<Filt> },
    Seg { span: Span, group: usize, unit: String, events: Vec<SegEv>, filters: Vec<Filt>, breakdowns: Vec<P>, compact: bool },
    Fun(qfunnel::Funnel),
}

impl Ask {
    fn prop(&self) -> &'static str {
        match self {
            Ask::Search { .. } | Ask::Get { .. } => "C29",
            Ask::Seg { .. } => "C27",
            Ask::Fun(_) => "C28",
            Ask::Recs { .. } | Ask::Rec { .. } => "C30",
            Ask::Vals { .. } => "C31",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Track { c: usize, p: usize, rid: u64, u: usize, co: Option<usize>, ev: String, ts: i64, props: Props },
    Ask { c: usize, p: usize, ask: Ask },
    Ident { c: usize, i: Ident },
}

impl Op {
    fn client(&self) -> usize {
        match self {
            Op::Track { c, .. } | Op::Ask { c, .. } | Op::Ident { c, .. } => *c,
        }
    }
}

/// new values of a user or a company, set before the clients of a life begin
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ident {
    pub p: usize,
    /// 0 user, 1 company
    pub g: usize,
    pub id: usize,
    #[serde(default)]
    pub ts: i64,
    pub props: Props,
}

/// an attempt to set values of a user or a company
#[derive(Clone, Debug)]
struct Att {
    inv: u64,
    ack: Option<u64>,
    ok: bool,
    ts: i64,
    props: Props,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Life {
    pub ops_ids: Vec<Ident>,
    pub ops: Vec<Op>,
    /// asked when nobody else is active
    pub ops_asks: Vec<(usize, Ask)>,
    pub armed_boot: bool,
    /// the projects get other names
    #[serde(default)]
    pub rename: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub variant: String,
    pub conf: Conf,
    pub projects: usize,
    /// some of the events and records bring properties that are new, nobody asks for them by name
    #[serde(default)]
    pub extra: bool,
    /// custom events: parts of each; a part refers to earlier ones only
    pub custom: Vec<Vec<Sel>>,
    pub lives: Vec<Life>,
}

/// one event as it was sent
#[derive(Clone, Debug)]
pub struct Row {
    pub rid: u64,
    pub p: usize,
    pub ev: String,
    pub ts: i64,
    pub u: usize,
    pub co: Option<usize>,
    pub e: Props,
    pub up: Props,
    pub cp: Props,
    inv: u64,
    ack: Option<u64>,
    /// accepted
    ok: bool,
    /// found when all was quiet
    stored: Option<bool>,
    pub id: Option<u64>,
}

impl Row {
    pub fn get(&self, p: &P) -> Option<V> {
        match p.g {
            None if p.n == "event" => Some(V::S(self.ev.clone())),
            None => self.e.get(&p.n).cloned(),
            Some(0) => self.up.get(&p.n).cloned(),
            _ => self.cp.get(&p.n).cloned(),
        }
    }
    /// who it counts for
    pub fn part(&self, g: usize) -> Option<usize> {
        if g == 0 {
            Some(self.u)
        } else {
            self.co
        }
    }
}

#[derive(Default)]
struct Proj {
    id: u64,
    token: String,
    name: String,
    company: u64,
    custom: Vec<u64>,
    users: BTreeMap<usize, Props>,
    companies: BTreeMap<usize, Props>,
    /// how the record of a user or a company came to be
    atts: BTreeMap<(usize, usize), Vec<Att>>,
    /// records as they are when all is quiet
    recs: BTreeMap<(usize, usize), Props>,
}

#[derive(Default)]
struct Hist {
    clock: u64,
    admin: String,
    projects: Vec<Proj>,
    rows: Vec<Row>,
    violations: Vec<(String, String, String)>,
    overlap: bool,
    busy: usize,
    ops: u64,
    asked: u64,
    digest: u64,
    states: Vec<u64>,
}

struct Ctx {
    work: Work,
    h: Mutex<Hist>,
}

impl Ctx {
    fn h(&self) -> std::sync::MutexGuard<'_, Hist> {
        self.h.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn violate(&self, p: &str, class: &str, d: String) {
        simrt::logf(|| format!("VIOLATION {p} {class}: {d}"));
        self.h().violations.push((p.to_string(), class.to_string(), d));
    }
}

// ---------------------------------------------------------------- meaning of a question

pub fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}

/// the few expressions the generator uses
fn regex(s: &str, p: &str) -> bool {
    match p {
        "^b" => s.starts_with('b'),
        "e$" => s.ends_with('e'),
        "l.e" => {
            let c: Vec<char> = s.chars().collect();
            c.windows(3).any(|w| w[0] == 'l' && w[2] == 'e')
        }
        "red|gold" => s.contains("red") || s.contains("gold"),
        "^$" => s.is_empty(),
        _ => unreachable!(),
    }
}

pub fn fits(r: &Row, f: &Filt) -> bool {
    fits_v(&r.get(&f.p), f)
}

fn fits_v(v: &Option<V>, f: &Filt) -> bool {
    let none = vec![];
    let vals = f.vals.as_ref().unwrap_or(&none);
    let s = |v: &V| match v {
        V::S(s) => s.clone(),
        _ => String::new(),
    };
    let lk = |v: &V, p: &V| like(&s(v).chars().collect::<Vec<_>>(), &s(p).chars().collect::<Vec<_>>());
    match (v, f.op.as_str()) {
        (v, "empty") => v.is_none(),
        (v, "exists") => v.is_some(),
        (None, _) => false,
        (Some(v), "eq") => vals.iter().any(|x| x == v),
        (Some(v), "neq") => vals.iter().all(|x| x != v),
        (Some(v), "gt") => vals.iter().any(|x| v > x),
        (Some(v), "gte") => vals.iter().any(|x| v >= x),
        (Some(v), "lt") => vals.iter().any(|x| v < x),
        (Some(v), "lte") => vals.iter().any(|x| v <= x),
        (Some(v), "true") => *v == V::B(true),
        (Some(v), "false") => *v == V::B(false),
        (Some(v), "like") => vals.iter().any(|x| lk(v, x)),
        (Some(v), "notLike") => !vals.iter().any(|x| lk(v, x)),
        (Some(v), "regex") => vals.iter().any(|x| regex(&s(v), &s(x))),
        (Some(v), "notRegex") => !vals.iter().any(|x| regex(&s(v), &s(x))),
        _ => unreachable!("{f:?}"),
    }
}

pub fn is(w: &[Vec<Sel>], r: &Row, e: &Ev) -> bool {
    match e {
        Ev::Reg(n) => r.ev == *n,
        Ev::Cust(i) => w[*i].iter().any(|s| matches(w, r, s)),
    }
}

pub fn matches(w: &[Vec<Sel>], r: &Row, s: &Sel) -> bool {
    is(w, r, &s.ev) && s.filters.iter().all(|f| fits(r, f))
}

fn utc(ms: i64) -> DateTime<Utc> {
    DateTime::from_timestamp_millis(ms).unwrap()
}

impl Span {
    pub fn range(&self) -> (i64, i64) {
        let cur = self.cur * 1000;
        match &self.t {
            T::Between(a, b) => (*a, *b),
            T::From(a) => (*a, cur),
            T::Last(n, u) => (back(cur, *n, u), cur),
        }
    }
    pub fn json(&self) -> J {
        match &self.t {
            T::Between(a, b) => json!({"type": "between", "from": rfc(*a), "to": rfc(*b)}),
            T::From(a) => json!({"type": "from", "from": rfc(*a)}),
            T::Last(n, u) => json!({"type": "last", "last": n, "unit": u}),
        }
    }
    pub fn has(&self, ts: i64) -> bool {
        let (a, b) = self.range();
        a <= ts && ts <= b
    }
}

fn back(cur: i64, n: i64, u: &str) -> i64 {
    let d = utc(cur);
    let d = match u {
        "hour" => d - Duration::hours(n),
        "day" => d - Duration::days(n),
        "week" => d - Duration::weeks(n),
        "month" => d - Months::new(n as u32),
        _ => d - Months::new(12 * n as u32),
    };
    d.timestamp_millis()
}

pub fn trunc(ms: i64, u: &str) -> i64 {
    let d = utc(ms);
    let (y, m, day) = (d.year(), d.month(), d.day());
    let at = |y, m, d, h| Utc.with_ymd_and_hms(y, m, d, h, 0, 0).unwrap();
    let r = match u {
        "hour" => at(y, m, day, d.hour()),
        "day" => at(y, m, day, 0),
        "week" => at(y, m, day, 0) - Duration::days(d.weekday().num_days_from_monday() as i64),
        "month" => at(y, m, 1, 0),
        _ => at(y, 1, 1, 0),
    };
    r.timestamp_millis()
}

fn next(ms: i64, u: &str) -> i64 {
    let d = utc(ms);
    let d = match u {
        "hour" => d + Duration::hours(1),
        "day" => d + Duration::days(1),
        "week" => d + Duration::weeks(1),
        "month" => d + Months::new(1),
        _ => d + Months::new(12),
    };
    d.timestamp_millis()
}

/// the intervals a report shows
fn buckets(span: &Span, u: &str) -> Vec<(i64, String)> {
    let (from, to) = span.range();
    let mut t = trunc(from, u);
    let mut out = vec![];
    while t <= trunc(to, u) {
        out.push((t, utc(t).format("%Y-%m-%dT%H:%M:%S").to_string()));
        t = next(t, u);
    }
    out
}

fn agg(f: &str, v: &[f64]) -> f64 {
    if v.is_empty() {
        return 0.0;
    }
    match f {
        "sum" => v.iter().sum(),
        "min" => v.iter().cloned().fold(f64::INFINITY, f64::min),
        "max" => v.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
        "avg" => v.iter().sum::<f64>() / v.len() as f64,
        "count" => v.len() as f64,
        _ => unreachable!(),
    }
}

fn cap(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}

impl Q {
    fn title(&self) -> String {
        match self {
            Q::Count => "Count".into(),
            Q::Unique => "Count unique".into(),
            Q::Daily => "Daily active".into(),
            Q::PerGroup(f) => cap(f),
            Q::PropPerGroup(p, inner, outer) => format!("{}({}({}))", outer.to_uppercase(), inner.to_uppercase(), p.n),
            Q::Prop(p, f) => format!("{}({})", f.to_uppercase(), p.n),
        }
    }
    fn value(&self, rows: &[&Row], g: usize) -> f64 {
        let mut by: BTreeMap<usize, Vec<&Row>> = BTreeMap::new();
        for r in rows {
            if let Some(k) = r.part(g) {
                by.entry(k).or_default().push(r);
            }
        }
        let nums = |rows: &[&Row], p: &P| rows.iter().filter_map(|r| r.get(p)).map(|v| v.f()).collect::<Vec<_>>();
        match self {
            Q::Count => rows.len() as f64,
            Q::Unique | Q::Daily => by.len() as f64,
            Q::PerGroup(f) => agg(f, &by.values().map(|v| v.len() as f64).collect::<Vec<_>>()),
            Q::PropPerGroup(p, inner, outer) => {
                let per: Vec<f64> =
                    by.values().map(|v| nums(v, p)).filter(|v| !v.is_empty()).map(|v| agg(inner, &v)).collect();
                agg(outer, &per)
            }
            Q::Prop(p, f) => agg(f, &nums(rows, p)),
        }
    }
    fn json(&self, pr: &Proj) -> J {
        match self {
            Q::Count => json!({"type": "countEvents"}),
            Q::Unique => json!({"type": "countUniqueGroups"}),
            Q::Daily => json!({"type": "dailyActiveGroups"}),
            Q::PerGroup(f) => json!({"type": "countPerGroup", "aggregate": f}),
            Q::PropPerGroup(p, i, o) => {
                merge(json!({"type": "aggregatePropertyPerGroup", "aggregatePerGroup": i, "aggregate": o}), pref(pr, p))
            }
            Q::Prop(p, f) => merge(json!({"type": "aggregateProperty", "aggregate": f}), pref(pr, p)),
        }
    }
}

// ---------------------------------------------------------------- requests

fn merge(mut a: J, b: J) -> J {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}

/// what a request needs to know about the project
pub struct Names {
    pub company: u64,
    pub custom: Vec<u64>,
}

fn pref(pr: &Proj, p: &P) -> J {
    pref_n(pr.company, p)
}

fn pref_n(company: u64, p: &P) -> J {
    match p.g {
        None => json!({"propertyType": "event", "propertyName": p.n}),
        Some(0) => json!({"propertyType": "group", "propertyName": p.n, "group": 0}),
        Some(_) => json!({"propertyType": "group", "propertyName": p.n, "group": company}),
    }
}

pub fn fjson(n: &Names, f: &Filt) -> J {
    let mut j = merge(json!({"type": "property", "operation": f.op}), pref_n(n.company, &f.p));
    if let Some(v) = &f.vals {
        j["value"] = J::from(v.iter().map(|v| v.fjson()).collect::<Vec<_>>());
    }
    j
}

pub fn evjson(n: &Names, s: &Sel) -> J {
    let mut j = match &s.ev {
        Ev::Reg(e) => json!({"eventType": "regular", "eventName": e}),
        Ev::Cust(i) => json!({"eventType": "custom", "eventId": n.custom.get(*i).copied().unwrap_or(999)}),
    };
    if !s.filters.is_empty() {
        j["filters"] = J::from(s.filters.iter().map(|f| fjson(n, f)).collect::<Vec<_>>());
    }
    j
}

pub fn bjson(n: &Names, p: &P) -> J {
    merge(json!({"type": "property"}), pref_n(n.company, p))
}

fn names(pr: &Proj) -> Names {
    Names { company: pr.company, custom: pr.custom.clone() }
}

impl Ask {
    fn request(&self, pr: &Proj, rows: &[Row]) -> (String, String, Option<J>) {
        let n = names(pr);
        let base = format!("/api/v1/projects/{}", pr.id);
        let groups = |f: &[Filt]| json!({"groups": [{"filters": f.iter().map(|f| fjson(&n, f)).collect::<Vec<_>>()}]});
        let suffix = |cur: i64, compact: bool| format!("?timestamp={cur}{}", if compact { "&format=jsonCompact" } else { "" });
        match self {
            Ask::Search { span, events, filters, props, compact } => {
                let mut b = json!({"time": span.json()});
                if let Some(e) = events {
                    b["events"] = J::from(e.iter().map(|s| evjson(&n, s)).collect::<Vec<_>>());
                }
                if !filters.is_empty() {
                    b["filters"] = groups(filters);
                }
                if let Some(p) = props {
                    b["properties"] = prefs(pr, p);
                }
                ("POST".into(), format!("{base}/event-records/search{}", suffix(span.cur, *compact)), Some(b))
            }
            Ask::Get { rid } => {
                let id = event_id(rows, *rid);
                ("GET".into(), format!("{base}/event-records/{id}"), None)
            }
            Ask::Seg { span, group, unit, events, filters, breakdowns, compact } => {
                let ev: Vec<J> = events
                    .iter()
                    .map(|e| {
                        let mut j = evjson(&n, &e.sel);
                        j["queries"] = J::from(e.queries.iter().map(|q| q.json(pr)).collect::<Vec<_>>());
                        if !e.breakdowns.is_empty() {
                            j["breakdowns"] = J::from(e.breakdowns.iter().map(|p| bjson(&n, p)).collect::<Vec<_>>());
                        }
                        j
                    })
                    .collect();
                let g = if *group == 0 { 0 } else { pr.company };
                let mut b = json!({
                    "time": span.json(), "group": g, "intervalUnit": unit, "chartType": "line",
                    "analysis": {"type": "linear"}, "events": ev,
                });
                if !filters.is_empty() {
                    b["filters"] = groups(filters);
                }
                if !breakdowns.is_empty() {
                    b["breakdowns"] = J::from(breakdowns.iter().map(|p| bjson(&n, p)).collect::<Vec<_>>());
                }
                ("POST".into(), format!("{base}/queries/event-segmentation{}", suffix(span.cur, *compact)), Some(b))
            }
            Ask::Recs { span, cur, g, filters, props, compact } => {
                let mut b = json!({"group": if *g == 0 { 0 } else { pr.company }});
                if let Some(s) = span {
                    b["time"] = s.json();
                }
                if !filters.is_empty() {
                    b["filters"] = groups(filters);
                }
                if let Some(p) = props {
                    b["properties"] = prefs(pr, p);
                }
                ("POST".into(), format!("{base}/group-records/search{}", suffix(*cur, *compact)), Some(b))
            }
            Ask::Rec { g, id } => {
                let (g, id) = if *g == 0 { (0, format!("u{id}")) } else { (pr.company, format!("c{id}")) };
                ("GET".into(), format!("{base}/group-records/{g}/{id}"), None)
            }
            Ask::Vals { ev, p, filt } => {
                let mut b = pref(pr, p);
                if let Some(e) = ev {
                    b = merge(b, evjson(&n, &Sel { ev: e.clone(), filters: vec![] }));
                }
                if let Some(f) = filt {
                    b["filter"] = json!({"operation": f.op});
                    if let Some(v) = &f.vals {
                        b["filter"]["value"] = J::from(v.iter().map(|v| v.fjson()).collect::<Vec<_>>());
                    }
                }
                ("POST".into(), format!("{base}/property-values"), Some(b))
            }
            Ask::Fun(f) => ("POST".into(), format!("{base}/queries/funnel{}", suffix(f.span.cur, false)), Some(f.json(&n))),
        }
    }
}

// ---------------------------------------------------------------- answers

pub fn cell_is(want: &Option<V>, got: &J) -> bool {
    match want {
        // numbers that are missing are reported as 0
        None => got.is_null() || got.as_f64() == Some(0.0),
        Some(V::S(s)) => got.as_str() == Some(s),
        Some(V::B(b)) => got.as_bool() == Some(*b),
        Some(V::D(ms)) => got.as_i64() == Some(*ms),
        Some(n) => got.as_f64().is_some_and(|x| (x - n.f()).abs() < 0.0006),
    }
}

fn column<'a>(pr: &Proj, cols: &'a [J], p: &P) -> Result<&'a Vec<J>, String> {
    let r = pref(pr, p);
    let c: Vec<&J> = cols.iter().filter(|c| r.as_object().unwrap().iter().all(|(k, v)| c[k] == *v)).collect();
    match c.len() {
        1 => c[0]["data"].as_array().ok_or_else(|| format!("{p:?}: no data")),
        n => Err(format!("{n} columns for {p:?}")),
    }
}

/// rows a search may see, and those it must see
fn search_rows<'a>(w: &[Vec<Sel>], rows: &'a [Row], p: usize, ask: &Ask, see: &dyn Fn(&Row) -> bool) -> Vec<&'a Row> {
    let Ask::Search { span, events, filters, .. } = ask else { return vec![] };
    rows.iter()
        .filter(|r| r.p == p && see(r) && span.has(r.ts))
        .filter(|r| events.as_ref().is_none_or(|e| e.iter().any(|s| matches(w, r, s))))
        .filter(|r| filters.iter().all(|f| fits(r, f)))
        .collect()
}

fn judge_search(w: &[Vec<Sel>], rows: &[Row], pr: &Proj, p: usize, ask: &Ask, r: &Resp) -> Result<usize, String> {
    let Ask::Search { props, .. } = ask else { return Ok(0) };
    let mut want = search_rows(w, rows, p, ask, &|r| r.stored == Some(true));
    want.sort_by_key(|r| std::cmp::Reverse(r.id));
    want.truncate(100);
    let cols = r.body["columns"].as_array().ok_or("no columns")?;
    if want.is_empty() {
        return if cols.is_empty() { Ok(0) } else { Err(format!("nothing matches, answered {}", r.body)) };
    }
    let all = all_props();
    for q in props.as_ref().unwrap_or(&all) {
        let data = column(pr, cols, q)?;
        if data.len() != want.len() {
            return Err(format!("{} rows, {} match; rows {:?}", data.len(), want.len(), want.iter().map(|r| r.rid).collect::<Vec<_>>()));
        }
        for (i, (r, c)) in want.iter().zip(data).enumerate() {
            if !cell_is(&r.get(q), c) {
                return Err(format!("row {i} (rid {}): {q:?} is {c}, should be {:?}", r.rid, r.get(q)));
            }
        }
    }
    Ok(want.len())
}

fn event_id(rows: &[Row], rid: u64) -> u64 {
    rows.iter().find(|r| r.rid == rid).and_then(|r| r.id).unwrap_or(987_654_321)
}

/// properties asked for, some of them twice
fn prefs(pr: &Proj, props: &[P]) -> J {
    let mut out: Vec<J> = props.iter().map(|p| pref(pr, p)).collect();
    if out.len() % 2 == 0 {
        out.extend(out.first().cloned());
    }
    J::from(out)
}

fn judge_get(rows: &[Row], pr: &Proj, p: usize, ask: &Ask, r: &Resp) -> Result<usize, String> {
    let Ask::Get { rid } = ask else { return Ok(0) };
    let id = event_id(rows, *rid);
    let row = rows.iter().find(|r| r.p == p && r.id == Some(id));
    let Some(row) = row else {
        return if r.status == 404 { Ok(0) } else { Err(format!("no such event: {} {}", r.status, r.body)) };
    };
    if r.status != 200 {
        return Err(format!("{} {}", r.status, r.body));
    }
    let got = r.body["properties"].as_array().ok_or("no properties")?;
    for q in all_props() {
        let f = pref(pr, &q);
        let c: Vec<&J> = got.iter().filter(|c| f.as_object().unwrap().iter().all(|(k, v)| c[k] == *v)).collect();
        let want = row.get(&q);
        match c.as_slice() {
            [] if want.is_none() => {}
            [c] if want.is_none() && c["value"].is_null() => {}
            [c] if want.is_some() && cell_is(&want, &c["value"]) => {}
            c => return Err(format!("rid {rid}: {q:?} is {c:?}, should be {want:?}")),
        }
    }
    Ok(1)
}

type SegRow = (Vec<J>, Vec<f64>);

fn norm(v: Option<V>) -> J {
    match v {
        None => J::Null,
        Some(V::S(s)) => J::from(s),
        Some(V::B(b)) => J::from(b),
        Some(V::D(d)) => J::from(d as f64),
        Some(n) => J::from(n.f()),
    }
}

fn same_key(want: &[J], got: &[J]) -> bool {
    want.len() == got.len()
        && want.iter().zip(got).all(|(a, b)| match (a, b) {
            (J::Null, b) => b.is_null() || b.as_f64() == Some(0.0),
            (J::Number(a), J::Number(b)) => (a.as_f64().unwrap() - b.as_f64().unwrap()).abs() < 0.0006,
            (a, b) => a == b,
        })
}

/// columns of the report: a name that occurs again gets a number
fn break_cols(events: &[SegEv], breakdowns: &[P]) -> Vec<(P, String)> {
    let mut out: Vec<(P, String)> = vec![];
    for p in events.iter().flat_map(|e| &e.breakdowns).chain(breakdowns) {
        if out.iter().any(|(q, _)| q == p) {
            continue;
        }
        let n = out.iter().filter(|(q, _)| q.n == p.n).count();
        let name = if n == 0 { p.n.clone() } else { format!("{} {}", p.n, n + 1) };
        out.push((p.clone(), name));
    }
    out
}

fn seg_rows(w: &[Vec<Sel>], rows: &[Row], pr: &Proj, p: usize, ask: &Ask, see: &dyn Fn(&Row) -> bool) -> Vec<SegRow> {
    let Ask::Seg { span, group, unit, events, filters, breakdowns, .. } = ask else { return vec![] };
    let cols = break_cols(events, breakdowns);
    let bs = buckets(span, unit);
    let mut out = vec![];
    for e in events {
        let hit: Vec<&Row> = rows
            .iter()
            .filter(|r| r.p == p && see(r) && span.has(r.ts) && matches(w, r, &e.sel) && filters.iter().all(|f| fits(r, f)))
            .collect();
        let mine: Vec<bool> = cols.iter().map(|(c, _)| e.breakdowns.contains(c) || breakdowns.contains(c)).collect();
        let key = |r: &Row| -> Vec<J> {
            cols.iter().zip(&mine).map(|((c, _), m)| if *m { norm(r.get(c)) } else { J::Null }).collect()
        };
        let mut by: BTreeMap<String, Vec<&Row>> = BTreeMap::new();
        for r in hit {
            by.entry(format!("{:?}", key(r))).or_default().push(r);
        }
        let name = match &e.sel.ev {
            Ev::Reg(n) => n.clone(),
            Ev::Cust(i) => pr.custom[*i].to_string(),
        };
        for rs in by.values() {
            for q in &e.queries {
                let vals: Vec<f64> = bs
                    .iter()
                    .map(|(t, _)| q.value(&rs.iter().copied().filter(|r| trunc(r.ts, unit) == *t).collect::<Vec<_>>(), *group))
                    .collect();
                if vals.iter().all(|v| *v == 0.0) {
                    continue;
                }
                let mut k = vec![J::from(name.clone()), J::from(q.title())];
                k.extend(key(rs[0]));
                out.push((k, vals));
            }
        }
    }
    out
}

fn seg_got(ask: &Ask, r: &Resp) -> Result<Vec<SegRow>, String> {
    let Ask::Seg { span, unit, events, breakdowns, .. } = ask else { return Ok(vec![]) };
    let cols = r.body["columns"].as_array().ok_or("no columns")?;
    if cols.is_empty() {
        return Ok(vec![]);
    }
    let col = |n: &str| -> Result<&Vec<J>, String> {
        let c: Vec<&J> = cols.iter().filter(|c| c["name"] == n).collect();
        match c.as_slice() {
            [c] => c["data"].as_array().ok_or(format!("{n}: no data")),
            c => Err(format!("{} columns {n}", c.len())),
        }
    };
    let mut keys = vec![col("Event")?, col("Formula")?];
    for (_, n) in break_cols(events, breakdowns) {
        keys.push(col(&n)?);
    }
    let mut vals = vec![];
    for (_, n) in buckets(span, unit) {
        vals.push(col(&n)?);
    }
    let n = keys[0].len();
    if keys.iter().chain(&vals).any(|c| c.len() != n) {
        return Err("columns differ in length".into());
    }
    let dim = cols.iter().filter(|c| c["type"] == "metric").count();
    if dim != vals.len() {
        return Err(format!("{dim} intervals, should be {}", vals.len()));
    }
    // rows of an event are ordered by their averages
    let avg = col("Average")?;
    if avg.len() != n {
        return Err("columns differ in length".into());
    }
    for i in 0..n {
        let v: f64 = vals.iter().map(|c| c[i].as_f64().unwrap_or(0.0)).sum::<f64>() / vals.len().max(1) as f64;
        let a = avg[i].as_f64().unwrap_or(0.0);
        if (v - a).abs() > 0.002 + 1e-9 * v.abs() {
            return Err(format!("average {a} should be {v}, row {i} of {}", r.body));
        }
        if i > 0 && keys[0][i] == keys[0][i - 1] && a > avg[i - 1].as_f64().unwrap_or(0.0) + 0.002 && events.len() == 1 {
            return Err(format!("rows are not ordered by averages: row {i} of {}", r.body));
        }
    }
    let mut out = vec![];
    for i in 0..n {
        let v: Vec<f64> = vals.iter().map(|c| c[i].as_f64().unwrap_or(0.0)).collect();
        if v.iter().any(|v| *v != 0.0) {
            out.push((keys.iter().map(|c| c[i].clone()).collect(), v));
        }
    }
    Ok(out)
}

fn judge_seg(w: &[Vec<Sel>], rows: &[Row], pr: &Proj, p: usize, ask: &Ask, r: &Resp) -> Result<usize, String> {
    if matches!(ask, Ask::Seg { compact: true, .. }) {
        return Ok(0);
    }
    let want = seg_rows(w, rows, pr, p, ask, &|r| r.stored == Some(true));
    let mut got = seg_got(ask, r)?;
    let n = want.len();
    let close = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(a, b)| (a - b).abs() < 0.0011 + 1e-9 * a.abs());
    for (k, v) in want {
        match got.iter().position(|(gk, gv)| same_key(&k, gk) && close(&v, gv)) {
            Some(i) => {
                got.remove(i);
            }
            None => {
                let near: Vec<_> = got.iter().filter(|(gk, _)| same_key(&k, gk)).collect();
                return Err(format!("{k:?} should be {v:?}, answered {:?} of {}", near, r.body));
            }
        }
    }
    // rows whose values are nothing but 0 are of no interest, values close to 0 are
    match got.iter().find(|(_, v)| v.iter().any(|v| v.abs() > 0.0011)) {
        Some(x) => Err(format!("{x:?} should not be there; {}", r.body)),
        None => Ok(n),
    }
}

/// A value that is being stored for the first time may be unknown to a negative filter of a
/// question asked meanwhile, so such a filter tells nothing about events not stored before.
fn lax(w: &[Vec<Sel>], ask: &Ask) -> (Vec<Vec<Sel>>, Ask) {
    let neg = |f: &Filt| ["neq", "notLike", "notRegex"].contains(&f.op.as_str());
    let (mut w, mut ask) = (w.to_vec(), ask.clone());
    w.iter_mut().flatten().for_each(|s| s.filters.retain(|f| !neg(f)));
    match &mut ask {
        Ask::Search { events, filters, .. } => {
            filters.retain(|f| !neg(f));
            events.iter_mut().flatten().for_each(|s| s.filters.retain(|f| !neg(f)));
        }
        Ask::Seg { events, filters, .. } => {
            filters.retain(|f| !neg(f));
            events.iter_mut().for_each(|e| e.sel.filters.retain(|f| !neg(f)));
        }
        Ask::Vals { filt, .. } => {
            filt.take_if(|f| neg(f));
        }
        _ => {}
    }
    (w, ask)
}

/// whether an event is counted by any of the events of a segmentation
fn matches_any(w: &[Vec<Sel>], ask: &Ask, r: &Row) -> bool {
    let Ask::Seg { events, filters, .. } = ask else { return false };
    filters.iter().all(|f| fits(r, f)) && events.iter().any(|e| matches(w, r, &e.sel))
}

fn judge_seg_bounds(w: &[Vec<Sel>], rows: &[Row], pr: &Proj, p: usize, ask: &Ask, r: &Resp, t: (u64, u64)) -> Result<usize, String> {
    let total = |v: Vec<SegRow>| -> Vec<f64> {
        let mut s = vec![];
        for (_, x) in v {
            s.resize(x.len(), 0.0);
            for (a, b) in s.iter_mut().zip(x) {
                *a += b;
            }
        }
        s
    };
    let must = total(seg_rows(w, rows, pr, p, ask, &|r| r.ok && r.ack.is_some_and(|a| a < t.0)));
    let (lw, la) = lax(w, ask);
    let may = total(seg_rows(&lw, rows, pr, p, &la, &|r| {
        r.inv < t.1
            && r.stored != Some(false)
            && (!r.ack.is_some_and(|a| a < t.0)
                || matches_any(w, ask, r))
    }));
    let got = total(seg_got(ask, r)?);
    for i in 0..may.len().max(got.len()) {
        let at = |v: &Vec<f64>| v.get(i).copied().unwrap_or(0.0);
        if at(&got) < at(&must) || at(&got) > at(&may) {
            return Err(format!("interval {i}: {}, at least {} and at most {}", at(&got), at(&must), at(&may)));
        }
    }
    Ok(got.len())
}

fn judge_search_bounds(w: &[Vec<Sel>], rows: &[Row], pr: &Proj, p: usize, ask: &Ask, r: &Resp, t: (u64, u64)) -> Result<usize, String> {
    let must = search_rows(w, rows, p, ask, &|r| r.ok && r.ack.is_some_and(|a| a < t.0));
    let mut may = search_rows(w, rows, p, ask, &|r| r.inv < t.1 && r.stored != Some(false));
    let (lw, la) = lax(w, ask);
    may.extend(search_rows(&lw, rows, p, &la, &|r| {
        r.inv < t.1 && r.stored != Some(false) && !r.ack.is_some_and(|a| a < t.0)
    }));
    let cols = r.body["columns"].as_array().ok_or("no columns")?;
    let got: Vec<String> = if cols.is_empty() {
        vec![]
    } else {
        column(pr, cols, &P { n: "rid".into(), g: None })?.iter().map(|v| v.as_str().unwrap_or("").to_string()).collect()
    };
    let set: BTreeSet<&String> = got.iter().collect();
    if set.len() != got.len() {
        return Err(format!("an event twice: {got:?}"));
    }
    if let Some(x) = got.iter().find(|x| !may.iter().any(|r| format!("r{}", r.rid) == **x)) {
        return Err(format!("{x} should not be there"));
    }
    if got.len() < 100 {
        if let Some(m) = must.iter().find(|r| !set.contains(&format!("r{}", r.rid))) {
            return Err(format!("r{} is missing", m.rid));
        }
    }
    Ok(got.len())
}

/// the distinct values of a property, ordered, a missing one last
fn vals_of(w: &[Vec<Sel>], rows: &[Row], p: usize, ask: &Ask, see: &dyn Fn(&Row) -> bool) -> Vec<Option<V>> {
    let Ask::Vals { ev, p: q, filt } = ask else { return vec![] };
    let mut v: Vec<Option<V>> = vec![];
    for r in rows.iter().filter(|r| r.p == p && see(r)) {
        let x = r.get(q);
        if ev.as_ref().is_none_or(|e| is(w, r, e)) && filt.as_ref().is_none_or(|f| fits_v(&x, f)) && !v.contains(&x) {
            v.push(x);
        }
    }
    v.sort_by(|a, b| (a.is_none(), a).partial_cmp(&(b.is_none(), b)).unwrap());
    v
}

fn vals_got(r: &Resp) -> Result<&Vec<J>, String> {
    r.body["data"].as_array().ok_or_else(|| format!("no data: {}", r.body))
}

fn judge_vals(w: &[Vec<Sel>], rows: &[Row], p: usize, ask: &Ask, r: &Resp) -> Result<usize, String> {
    let want = vals_of(w, rows, p, ask, &|r| r.stored == Some(true));
    let got = vals_got(r)?;
    if want.len() != got.len() || !want.iter().zip(got).all(|(w, g)| cell_is(w, g)) {
        return Err(format!("{want:?} should be the values, answered {}", r.body));
    }
    Ok(want.len())
}

fn judge_vals_bounds(w: &[Vec<Sel>], rows: &[Row], p: usize, ask: &Ask, r: &Resp, t: (u64, u64)) -> Result<usize, String> {
    let before = |r: &Row| r.ok && r.ack.is_some_and(|a| a < t.0);
    let must = vals_of(w, rows, p, ask, &before);
    let mut may = vals_of(w, rows, p, ask, &|r| r.inv < t.1 && r.stored != Some(false));
    let (lw, la) = lax(w, ask);
    may.extend(vals_of(&lw, rows, p, &la, &|r| r.inv < t.1 && r.stored != Some(false) && !before(r)));
    let got = vals_got(r)?;
    if let Some(m) = must.iter().find(|m| !got.iter().any(|g| cell_is(m, g))) {
        return Err(format!("{m:?} is missing of {}", r.body));
    }
    if let Some(g) = got.iter().find(|g| !may.iter().any(|m| cell_is(m, g))) {
        return Err(format!("{g} should not be there: {}", r.body));
    }
    // 0 may also stand for a missing number
    if let Some(g) = got.iter().find(|g| g.as_f64() != Some(0.0) && got.iter().filter(|x| x == g).count() > 1) {
        return Err(format!("{g} is there twice: {}", r.body));
    }
    Ok(got.len())
}

fn rec_name(g: usize, id: usize) -> String {
    format!("{}{id}", if g == 0 { "u" } else { "c" })
}

fn rec_props(g: usize) -> Vec<P> {
    let names = if g == 0 { USER } else { COMPANY };
    names.iter().chain(&["id", "created_at"]).map(|n| P { n: n.to_string(), g: Some(g) }).collect()
}

/// values a property of a record may have between two moments, and whether each was known before
fn rec_may(atts: &[Att], g: usize, id: usize, n: &str, t: (u64, u64)) -> Vec<(Option<V>, bool)> {
    if n == "id" {
        return vec![(Some(V::S(rec_name(g, id))), rec_must_be(atts, t.0))];
    }
    let mut out = vec![];
    for a in atts.iter().rev().filter(|a| a.inv < t.1) {
        let v = if n == "created_at" { Some(V::D(a.ts)) } else { a.props.get(n).cloned() };
        let Some(v) = v else { continue };
        let known = a.ok && a.ack.is_some_and(|k| k < t.0);
        out.push((Some(v), known));
        if known {
            return out;
        }
    }
    out.push((None, true));
    out
}

fn rec_must_be(atts: &[Att], t0: u64) -> bool {
    atts.iter().any(|a| a.ok && a.ack.is_some_and(|k| k < t0))
}

/// the record as it is answered
fn rec_got(pr: &Proj, g: usize, id: usize, t: (u64, u64), r: &Resp) -> Result<Option<Props>, String> {
    let none = vec![];
    let atts = pr.atts.get(&(g, id)).unwrap_or(&none);
    let name = rec_name(g, id);
    if r.status == 404 {
        return if rec_must_be(atts, t.0) { Err(format!("{name} is not found: {}", r.body)) } else { Ok(None) };
    }
    if r.status != 200 {
        return Err(format!("{name}: {} {}", r.status, r.body));
    }
    let got = r.body["properties"].as_array().ok_or("no properties")?;
    let mut out = Props::new();
    for q in rec_props(g) {
        let f = pref(pr, &q);
        let c: Vec<&J> = got.iter().filter(|c| f.as_object().unwrap().iter().all(|(k, v)| c[k] == *v)).collect();
        let may = rec_may(atts, g, id, &q.n, t);
        let val = match c.as_slice() {
            [] => J::Null,
            [c] => c["value"].clone(),
            c => return Err(format!("{name}: {q:?} is {c:?}")),
        };
        let hit = may.iter().find(|(m, _)| match m {
            None => val.is_null(),
            m => cell_is(m, &val),
        });
        match hit {
            None => return Err(format!("{name}: {q:?} is {val}, should be one of {may:?}")),
            Some((Some(v), _)) => {
                out.insert(q.n, v.clone());
            }
            Some(_) => {}
        }
    }
    Ok(Some(out))
}

fn judge_recs(pr: &Proj, ask: &Ask, r: &Resp) -> Result<usize, String> {
    let Ask::Recs { span, g, filters, props, .. } = ask else { return Ok(0) };
    let want: Vec<&Props> = pr
        .recs
        .iter()
        .filter(|((kg, _), _)| kg == g)
        .map(|(_, v)| v)
        .filter(|v| span.as_ref().is_none_or(|s| matches!(v.get("created_at"), Some(V::D(t)) if s.has(*t))))
        .filter(|v| filters.iter().all(|f| fits_v(&v.get(&f.p.n).cloned(), f)))
        .collect();
    let cols = r.body["columns"].as_array().ok_or("no columns")?;
    if want.is_empty() {
        return if cols.is_empty() { Ok(0) } else { Err(format!("nothing matches, answered {}", r.body)) };
    }
    let all = rec_props(*g);
    let asked = props.as_ref().unwrap_or(&all);
    let mut data = vec![];
    for q in asked {
        let d = column(pr, cols, q)?;
        if d.len() != want.len() {
            return Err(format!("{} records, {} match: {want:?}; answered {}", d.len(), want.len(), r.body));
        }
        data.push(d);
    }
    let mut left: Vec<usize> = (0..want.len()).collect();
    for w in &want {
        match left.iter().position(|i| asked.iter().zip(&data).all(|(q, d)| cell_is(&w.get(&q.n).cloned(), &d[*i]))) {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("{w:?} is not in {}", r.body)),
        }
    }
    Ok(want.len())
}

fn judge_recs_bounds(pr: &Proj, ask: &Ask, r: &Resp, t: (u64, u64)) -> Result<usize, String> {
    let Ask::Recs { span, g, filters, .. } = ask else { return Ok(0) };
    let cols = r.body["columns"].as_array().ok_or("no columns")?;
    let got: Vec<String> = if cols.is_empty() {
        vec![]
    } else {
        column(pr, cols, &P { n: "id".into(), g: Some(*g) })?.iter().map(|v| v.as_str().unwrap_or("").to_string()).collect()
    };
    let set: BTreeSet<&String> = got.iter().collect();
    if set.len() != got.len() {
        return Err(format!("a record twice: {got:?}"));
    }
    let neg = |f: &Filt| ["neq", "notLike", "notRegex"].contains(&f.op.as_str());
    let in_span = |v: &Option<V>| span.as_ref().is_none_or(|s| matches!(v, Some(V::D(t)) if s.has(*t)));
    for ((_, id), atts) in pr.atts.iter().filter(|((kg, _), _)| kg == g) {
        let name = rec_name(*g, *id);
        let vals = |n: &str| rec_may(atts, *g, *id, n, t);
        let must = rec_must_be(atts, t.0)
            && vals("created_at").iter().all(|(v, _)| in_span(v))
            && filters.iter().all(|f| vals(&f.p.n).iter().all(|(v, _)| fits_v(v, f)));
        let may = vals("created_at").iter().any(|(v, _)| in_span(v))
            && filters.iter().all(|f| vals(&f.p.n).iter().any(|(v, known)| fits_v(v, f) || neg(f) && !known));
        if must && !set.contains(&name) {
            return Err(format!("{name} is missing of {got:?}"));
        }
        if !may && set.contains(&name) {
            return Err(format!("{name} should not be there: {got:?}"));
        }
    }
    if let Some(x) = got.iter().find(|x| !pr.atts.keys().any(|(kg, id)| kg == g && rec_name(*g, *id) == **x)) {
        return Err(format!("{x} was never sent"));
    }
    Ok(got.len())
}

/// looks at every record
fn observe(cx: &Ctx, srv: &Server) -> bool {
    let keys: Vec<(usize, usize, usize)> = {
        let h = cx.h();
        h.projects.iter().enumerate().flat_map(|(p, pr)| pr.atts.keys().map(move |k| (p, k.0, k.1))).collect()
    };
    for (p, g, id) in keys {
        let r = ask(cx, srv, p, &Ask::Rec { g, id });
        let got = {
            let h = cx.h();
            rec_got(&h.projects[p], g, id, (h.clock + 1, h.clock + 1), &r)
        };
        match got {
            Ok(Some(v)) => {
                cx.h().projects[p].recs.insert((g, id), v);
            }
            Ok(None) => {
                cx.h().projects[p].recs.remove(&(g, id));
            }
            Err(e) => {
                cx.violate("C30", "record", e);
                return false;
            }
        }
    }
    true
}

// ---------------------------------------------------------------- the clients

fn ask(cx: &Ctx, srv: &Server, p: usize, a: &Ask) -> Resp {
    let (m, path, body, tok) = {
        let h = cx.h();
        let (m, path, body) = a.request(&h.projects[p], &h.rows);
        (m, path, body, h.admin.clone())
    };
    let r = srv.send(&m, &path, Some(&tok), &[], body.as_ref());
    simrt::logf(|| format!("ask {m} {path} {} -> {} {}", body.unwrap_or(J::Null), r.status, r.body));
    r
}

fn note(cx: &Ctx, a: &Ask, r: &Resp) {
    let mut h = cx.h();
    h.asked += 1;
    h.digest = simrt::rng::mix(h.digest ^ simdrv::util::hash(&format!("{}{}", r.status, blur(&r.body))));
    let s = simdrv::util::hash(&format!("{}{}", a.prop(), blur(&r.body)));
    h.states.push(s);
}

/// columns only: the order of rows with equal values is not defined
fn blur(b: &J) -> String {
    if b["columns"].is_null() && b["data"].is_array() {
        return b["data"].to_string();
    }
    let mut v: Vec<String> = b["columns"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|c| {
            let mut d: Vec<String> = c["data"].as_array().into_iter().flatten().map(|x| x.to_string()).collect();
            d.sort();
            format!("{} {d:?}", c["name"])
        })
        .collect();
    v.sort();
    v.join(";")
}

fn track_body(rid: u64, u: usize, co: &Option<usize>, ev: &str, ts: i64, props: &Props) -> J {
    let mut ps: serde_json::Map<String, J> = props.iter().map(|(k, v)| (k.clone(), v.json())).collect();
    ps.insert("rid".into(), J::from(format!("r{rid}")));
    let mut b = json!({"event": ev, "context": {}, "userId": format!("u{u}"), "timestamp": rfc(ts), "properties": ps});
    if let Some(c) = co {
        b["groups"] = json!({"company": format!("c{c}")});
    }
    b
}

fn extra(cx: &Ctx, n: u64) -> Option<(String, J)> {
    let v = match n % 12 {
        0 => J::from(format!("x{}", n % 7)),
        3 => J::from(n as f64 / 2.0),
        6 => J::from(n % 24 < 12),
        9 => J::from("x"),
        _ => return None,
    };
    cx.work.extra.then(|| (format!("extra{}", n % 36), v))
}

#[allow(clippy::too_many_arguments)]
fn track(cx: &Ctx, srv: &Server, p: usize, rid: u64, u: usize, co: Option<usize>, ev: &str, ts: i64, props: &Props) -> bool {
    let (i, token) = {
        let mut h = cx.h();
        h.clock += 1;
        let pr = &h.projects[p];
        let mut e = props.clone();
        e.insert("rid".into(), V::S(format!("r{rid}")));
        e.insert("project_id".into(), V::S(pr.name.clone()));
        let r = Row {
            rid,
            p,
            ev: ev.to_string(),
            ts,
            u,
            co,
            e,
            up: pr.users.get(&u).cloned().unwrap_or_default(),
            cp: co.and_then(|c| pr.companies.get(&c)).cloned().unwrap_or_default(),
            inv: h.clock,
            ack: None,
            ok: false,
            stored: None,
            id: None,
        };
        let t = pr.token.clone();
        h.rows.push(r);
        (h.rows.len() - 1, t)
    };
    let r = srv.post(&format!("/api/v1/ingest/{token}/track"), None, {
        let mut b = track_body(rid, u, &co, ev, ts, props);
        if let (true, Some((k, v))) = (rid < 900 || rid > 999, extra(cx, rid)) {
            b["properties"][k] = v;
        }
        b
    });
    let mut h = cx.h();
    h.clock += 1;
    let c = h.clock;
    simrt::logf(|| format!("track {:?} -> {} {}", h.rows[i], r.status, r.body));
    h.rows[i].ack = Some(c);
    h.rows[i].ok = r.ok();
    r.ok()
}

fn client(cx: Arc<Ctx>, srv: Arc<Server>, ops: Vec<Op>, calm: bool) {
    for op in ops {
        let start = {
            let mut h = cx.h();
            h.clock += 1;
            h.ops += 1;
            h.busy += 1;
            h.overlap |= h.busy > 1;
            h.clock
        };
        match op {
            Op::Track { p, rid, u, co, ev, ts, props, .. } => {
                let ok = track(&cx, &srv, p, rid, u, co, &ev, ts, &props);
                if !ok && calm {
                    cx.violate("C18", "track-refused", format!("r{rid}"));
                }
            }
            Op::Ask { p, ask: a, .. } => {
                let r = ask(&cx, &srv, p, &a);
                let end = {
                    let mut h = cx.h();
                    h.clock += 1;
                    h.clock
                };
                if let Ask::Rec { g, id } = &a {
                    if calm || r.status == 200 {
                        let res = rec_got(&cx.h().projects[p], *g, *id, (start, end), &r);
                        if let Err(e) = res {
                            cx.violate("C30", "meanwhile", e);
                        }
                    }
                } else if r.status != 200 {
                    if calm {
                        cx.violate(a.prop(), "failed", format!("{a:?}: {} {}", r.status, r.body));
                    }
                } else {
                    let res = {
                        let h = cx.h();
                        let pr = &h.projects[p];
                        match &a {
                            Ask::Search { .. } => judge_search_bounds(&cx.work.custom, &h.rows, pr, p, &a, &r, (start, end)),
                            Ask::Seg { .. } => judge_seg_bounds(&cx.work.custom, &h.rows, pr, p, &a, &r, (start, end)),
                            Ask::Recs { .. } => judge_recs_bounds(pr, &a, &r, (start, end)),
                            Ask::Vals { .. } => judge_vals_bounds(&cx.work.custom, &h.rows, p, &a, &r, (start, end)),
                            _ => Ok(0),
                        }
                    };
                    match res {
                        Ok(n) if n > 0 => simrt::probe("asked_meanwhile"),
                        Ok(_) => {}
                        Err(e) => cx.violate(a.prop(), "meanwhile", format!("{a:?}: {e}")),
                    }
                }
                note(&cx, &a, &r);
            }
            Op::Ident { i, .. } => {
                if let Err(e) = identify(&cx, &srv, &i) {
                    if calm {
                        cx.violate("C20", "identify-refused", e);
                    }
                }
            }
        }
        let mut h = cx.h();
        h.clock += 1;
        h.busy -= 1;
    }
}

/// every event ever sent and the start of every session, by what a search finds
fn resolve(cx: &Ctx, srv: &Server) -> bool {
    let (np, tok) = {
        let h = cx.h();
        (h.projects.len(), h.admin.clone())
    };
    let wide = json!({"type": "between", "from": rfc(0), "to": rfc(BASE * 2)});
    for p in 0..np {
        let (pid, rids) = {
            let h = cx.h();
            (h.projects[p].id, h.rows.iter().filter(|r| r.p == p && r.ev != SESSION && r.stored.is_none()).map(|r| r.rid).collect::<Vec<_>>())
        };
        let props = json!([{"propertyType": "event", "propertyName": "rid"}, {"propertyType": "event", "propertyName": "event"},
            {"propertyType": "event", "propertyName": "event_id"}, {"propertyType": "event", "propertyName": "created_at"}]);
        let mut rows: Vec<(String, String, u64, i64)> = vec![];
        let mut reqs = vec![];
        for c in rids.chunks(40) {
            let v: Vec<String> = c.iter().map(|r| format!("r{r}")).collect();
            let f = json!({"groups": [{"filters": [{"type": "property", "propertyType": "event", "propertyName": "rid", "operation": "eq", "value": v}]}]});
            reqs.push(json!({"time": wide, "filters": f, "properties": props}));
        }
        reqs.push(json!({"time": wide, "events": [{"eventType": "regular", "eventName": SESSION}], "properties": props}));
        for b in reqs {
            let r = srv.post(&format!("/api/v1/projects/{pid}/event-records/search"), Some(&tok), b.clone());
            if r.status != 200 {
                cx.violate("C29", "failed", format!("{b}: {} {}", r.status, r.body));
                return false;
            }
            let cols = r.body["columns"].as_array().cloned().unwrap_or_default();
            let col = |n: &str| cols.iter().find(|c| c["propertyName"] == n).and_then(|c| c["data"].as_array()).cloned().unwrap_or_default();
            let (a, b, c, d) = (col("rid"), col("event"), col("event_id"), col("created_at"));
            if !cols.is_empty() && (a.is_empty() || a.len() != b.len() || a.len() != c.len() || a.len() != d.len()) {
                cx.violate("C29", "columns", format!("{}", r.body));
                return false;
            }
            for i in 0..a.len() {
                let s = |v: &J| v.as_str().unwrap_or("").to_string();
                rows.push((s(&a[i]), s(&b[i]), c[i].as_u64().unwrap_or(0), d[i].as_i64().unwrap_or(0)));
            }
        }
        let mut bad = vec![];
        {
            let mut h = cx.h();
            let mut known: BTreeSet<u64> = h.rows.iter().filter(|r| r.p == p).filter_map(|r| r.id).collect();
            let mut found: BTreeMap<u64, u64> = BTreeMap::new();
            for (rid, ev, id, at) in rows {
                let Some(n) = rid.strip_prefix('r').and_then(|s| s.parse::<u64>().ok()) else {
                    bad.push(("foreign", format!("{rid} {ev} {id}")));
                    continue;
                };
                let Some(src) = h.rows.iter().find(|r| r.rid == n && r.p == p && r.ev != SESSION).cloned() else {
                    bad.push(("foreign", format!("{rid} {ev} {id}")));
                    continue;
                };
                if ev == SESSION {
                    if known.insert(id) {
                        let rid = 1_000_000 * (p as u64 + 1) + id;
                        h.rows.push(Row { rid, ev, ts: at, id: Some(id), stored: Some(true), ok: true, ..src });
                    }
                } else if ev != src.ev || at != src.ts {
                    bad.push(("other", format!("{rid} {ev} at {at}, sent {} at {}", src.ev, src.ts)));
                } else if found.insert(n, id).is_some_and(|o| o != id) {
                    bad.push(("twice", rid));
                }
            }
            for r in h.rows.iter_mut().filter(|r| r.p == p && rids.contains(&r.rid)) {
                let id = found.get(&r.rid).copied();
                if id.is_none() && r.ok {
                    bad.push(("missing", format!("r{} was accepted", r.rid)));
                }
                r.stored = Some(id.is_some());
                r.id = id;
            }
        }
        if !bad.is_empty() {
            cx.violate("C29", bad[0].0, format!("{bad:?}"));
            return false;
        }
    }
    true
}

pub const BASE: i64 = 1_700_000_000_000;
pub const DAY: i64 = 86_400_000;
const SESSION: &str = "Session Begin";

fn setup(cx: &Ctx, srv: &Server) -> Result<(), String> {
    let t = srv.admin()?;
    cx.h().admin = t.clone();
    for p in 0..cx.work.projects {
        let pr = srv.project(&t, &format!("P{p}"), cx.work.conf.session_s)?;
        cx.h().projects.push(Proj { id: pr.id, token: pr.token, name: format!("P{p}"), ..Default::default() });
        // every property exists from the beginning
        for (g, id) in [(0, 0), (1, 0)] {
            let props = full(if g == 0 { USER } else { COMPANY });
            identify(cx, srv, &Ident { p, g, id, ts: BASE, props })?;
        }
        for (i, ev) in EVENTS.iter().enumerate() {
            if !track(cx, srv, p, 900 + (p * 10 + i) as u64, 0, Some(0), ev, BASE - 30 * DAY + i as i64, &full(EVENT)) {
                return Err("seed event refused".into());
            }
        }
        let id = cx.h().projects[p].id;
        let r = srv.get(&format!("/api/v1/projects/{id}/groups"), Some(&t));
        let g = r.body["data"].as_array().into_iter().flatten().find(|g| g["name"] == "company").and_then(|g| g["id"].as_u64());
        cx.h().projects[p].company = g.ok_or(format!("no company: {}", r.body))?;
        for (i, parts) in cx.work.custom.iter().enumerate() {
            let n = names(&cx.h().projects[p]);
            let b = json!({"name": format!("custom{i}"), "status": "enabled", "isSystem": false,
                "events": parts.iter().map(|s| evjson(&n, s)).collect::<Vec<_>>()});
            let r = srv.post(&format!("/api/v1/projects/{id}/schema/custom-events"), Some(&t), b);
            if !r.ok() {
                return Err(format!("custom event: {} {}", r.status, r.body));
            }
            cx.h().projects[p].custom.push(r.u("id"));
        }
    }
    Ok(())
}

fn identify(cx: &Ctx, srv: &Server, i: &Ident) -> Result<(), String> {
    let (g, id) = (if i.g == 0 { "user" } else { "company" }, rec_name(i.g, i.id));
    let mut ps: serde_json::Map<String, J> = i.props.iter().map(|(k, v)| (k.clone(), v.json())).collect();
    ps.extend(extra(cx, if i.ts == BASE { 1 } else { (i.ts / 1000) as u64 }));
    let (token, at) = {
        let mut h = cx.h();
        h.clock += 1;
        let inv = h.clock;
        let pr = &mut h.projects[i.p];
        let a = pr.atts.entry((i.g, i.id)).or_default();
        a.push(Att { inv, ack: None, ok: false, ts: i.ts, props: i.props.clone() });
        (pr.token.clone(), a.len() - 1)
    };
    let b = json!({"group": g, "id": id, "context": {}, "timestamp": rfc(i.ts), "properties": ps});
    let r = srv.post(&format!("/api/v1/ingest/{token}/identify"), None, b);
    simrt::logf(|| format!("identify {i:?} -> {} {}", r.status, r.body));
    let mut h = cx.h();
    h.clock += 1;
    let now = h.clock;
    let pr = &mut h.projects[i.p];
    let a = &mut pr.atts.get_mut(&(i.g, i.id)).unwrap()[at];
    a.ack = Some(now);
    a.ok = r.ok();
    if !r.ok() {
        return Err(format!("identify: {} {}", r.status, r.body));
    }
    let m = if i.g == 0 { &mut pr.users } else { &mut pr.companies };
    m.entry(i.id).or_default().extend(i.props.clone());
    Ok(())
}

fn life_main(cx: Arc<Ctx>, life: usize) {
    simrt::arm_faults(false);
    let l = cx.work.lives[life].clone();
    if l.armed_boot {
        simrt::arm_faults(true);
    }
    let srv = match Server::start(cx.work.conf.config()) {
        Ok(s) => Arc::new(s),
        Err(e) => return cx.violate("*", "start-failed", format!("life {life}: {e}")),
    };
    simrt::arm_faults(false);
    if life == 0 {
        if let Err(e) = setup(&cx, &srv) {
            return cx.violate("*", "setup-failed", e);
        }
    }
    if !resolve(&cx, &srv) {
        return;
    }
    for i in &l.ops_ids {
        if let Err(e) = identify(&cx, &srv, i) {
            return cx.violate("*", "setup-failed", e);
        }
    }
    if l.rename {
        for p in 0..cx.work.projects {
            let (t, id) = {
                let h = cx.h();
                (h.admin.clone(), h.projects[p].id)
            };
            let name = format!("N{life} {p}");
            let r = srv.put(&format!("/api/v1/projects/{id}"), Some(&t), json!({"name": name}));
            if !r.ok() {
                return cx.violate("*", "setup-failed", format!("rename: {} {}", r.status, r.body));
            }
            let mut h = cx.h();
            h.projects[p].name = name.clone();
            for r in h.rows.iter_mut().filter(|r| r.p == p) {
                r.e.insert("project_id".into(), V::S(name.clone()));
            }
        }
    }
    let calm = cx.work.variant.ends_with("conc");
    simrt::arm_faults(true);
    let n = l.ops.iter().map(|o| o.client() + 1).max().unwrap_or(0);
    let hs: Vec<_> = (0..n)
        .map(|c| {
            let (cx, srv) = (cx.clone(), srv.clone());
            let ops: Vec<Op> = l.ops.iter().filter(|o| o.client() == c).cloned().collect();
            simrt::spawn("client", move || client(cx, srv, ops, calm))
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            return cx.violate("*", &panic_class(), format!("life {life}: a request panicked: {:?}", simrt::panics()));
        }
    }
    simrt::arm_faults(false);
    if !resolve(&cx, &srv) {
        return;
    }
    if cx.work.variant.starts_with("records") && !observe(&cx, &srv) {
        return;
    }
    for (p, a) in &l.ops_asks {
        let (cx2, srv2, a2, p2) = (cx.clone(), srv.clone(), a.clone(), *p);
        let h = simrt::spawn("asker", move || {
            let r = ask(&cx2, &srv2, p2, &a2);
            let res = {
                let h = cx2.h();
                let pr = &h.projects[p2];
                let w = &cx2.work.custom;
                let get = matches!(a2, Ask::Get { .. } | Ask::Rec { .. });
                match &a2 {
                    _ if !get && r.status != 200 => Err(format!("{} {}", r.status, r.body)),
                    Ask::Search { compact: true, .. } | Ask::Recs { compact: true, .. } => Ok(0),
                    Ask::Recs { .. } => judge_recs(pr, &a2, &r),
                    Ask::Vals { .. } => judge_vals(w, &h.rows, p2, &a2, &r),
                    Ask::Rec { g, id } => rec_got(pr, *g, *id, (h.clock + 1, h.clock + 1), &r).and_then(|v| {
                        if v.as_ref() == pr.recs.get(&(*g, *id)) {
                            Ok(1)
                        } else {
                            Err(format!("the record was {:?} before", pr.recs.get(&(*g, *id))))
                        }
                    }),
                    Ask::Search { .. } => judge_search(w, &h.rows, pr, p2, &a2, &r),
                    Ask::Get { .. } => judge_get(&h.rows, pr, p2, &a2, &r),
                    Ask::Seg { .. } => judge_seg(w, &h.rows, pr, p2, &a2, &r),
                    Ask::Fun(f) => qfunnel::judge(w, &h.rows.iter().filter(|r| r.p == p2 && r.stored == Some(true)).collect::<Vec<_>>(), f, &r.body),
                }
            };
            match res {
                Ok(n) if n > 0 => simrt::probe("answered"),
                Ok(_) => {}
                Err(e) => {
                    let class = if r.status != 200 && !matches!(a2, Ask::Get { .. } | Ask::Rec { .. }) { "failed" } else { "wrong" };
                    cx2.violate(a2.prop(), class, format!("{a2:?}: {e}"))
                }
            }
            note(&cx2, &a2, &r);
        });
        if h.join().is_err() {
            return cx.violate(a.prop(), &panic_class(), format!("{a:?} panicked: {:?}", simrt::panics()));
        }
    }
    if let Some(e) = srv.failed() {
        cx.violate("*", "server-ended", format!("life {life}: {e}"));
    }
    if !simrt::panics().is_empty() {
        cx.violate("*", &panic_class(), format!("life {life}: {:?}", simrt::panics()));
    }
}

fn panic_class() -> String {
    format!("panic:{}", simrt::panics().first().map(|m| simdrv::util::where_of(&m.1)).unwrap_or_default())
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut out = Outcome::default();
    let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
    let cx = Arc::new(Ctx { work, h: Mutex::new(Hist::default()) });
    let (c1, c2, c3) = (cx.clone(), cx.clone(), cx.clone());
    let seen = crate::lives::run(
        plan,
        &mut out,
        verbose,
        cx.work.lives.len(),
        Arc::new(move |l| life_main(c1.clone(), l)),
        None,
        &move || c2.h().violations.is_empty() && !c2.h().projects.is_empty(),
        &move |_, _| c3.h().busy = 0,
    );
    let mut h = cx.h();
    let vs = std::mem::take(&mut h.violations);
    for (p, c, d) in vs {
        out.violate(&p, c, d);
    }
    let probe = |n: &str| out.stats.iter().map(|s| s.probes.get(n).copied().unwrap_or(0)).sum::<u64>();
    let answered = probe("answered");
    let v = &cx.work.variant;
    out.nontrivial = answered > 0 && (h.overlap || v.ends_with("crash") && seen.crashed || v.ends_with("err") && seen.faulted);
    out.ops = h.ops + h.asked;
    out.digest = h.digest;
    out.states = std::mem::take(&mut h.states);
    out.summary = format!(
        "{} lives, {} events, {} questions, {answered} answered with rows, crashed={}, faulted={}",
        out.stats.len(),
        h.rows.len(),
        h.asked,
        seen.crashed,
        seen.faulted
    );
    out
}

// ---------------------------------------------------------------- generation

const EVENTS: &[&str] = &["buy", "view", "open"];
const EVENT: &[&str] = &["color", "plan", "price", "vip", "when"];
const USER: &[&str] = &["country", "age", "member", "color"];
const COMPANY: &[&str] = &["size", "tier"];

fn kind(n: &str) -> char {
    match n {
        "price" | "age" | "size" => 'n',
        "vip" | "member" => 'b',
        "when" => 'd',
        _ => 's',
    }
}

fn all_props() -> Vec<P> {
    let mut v: Vec<P> = EVENT.iter().chain(&["rid", "event", "project_id"]).map(|n| P { n: n.to_string(), g: None }).collect();
    v.extend(USER.iter().map(|n| P { n: n.to_string(), g: Some(0) }));
    v.extend(COMPANY.iter().map(|n| P { n: n.to_string(), g: Some(1) }));
    v
}

fn full(names: &[&str]) -> Props {
    let mut r = Rng::new(7);
    names.iter().map(|n| (n.to_string(), gval(&mut r, n))).collect()
}

fn gval(r: &mut Rng, n: &str) -> V {
    match kind(n) {
        's' => V::S(r.pick(&["blue", "red", "gold", "", "a%b", "light blue", "ü"]).to_string()),
        'n' => V::N(*r.pick(&[0, 100, 250, -375, 1000, 99999, 1, 700, 700])),
        'b' => V::B(r.below(2) == 0),
        _ => V::D(BASE + r.below(4) as i64 * 1001),
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    rid: u64,
    clients: usize,
    projects: usize,
    custom: usize,
    /// events have times of their own
    apart: bool,
}

impl G<'_> {
    fn some(&mut self, names: &[&str]) -> Props {
        let mut m = Props::new();
        for n in names {
            if self.r.below(3) > 0 {
                let v = gval(self.r, n);
                m.insert(n.to_string(), v);
            }
        }
        m
    }

    fn prop(&mut self) -> P {
        let (n, g) = match self.r.below(10) {
            0..=5 => (*self.r.pick(EVENT), None),
            6 | 7 => (*self.r.pick(USER), Some(0)),
            8 => ("color", Some(0)),
            _ => (*self.r.pick(COMPANY), Some(1)),
        };
        P { n: n.into(), g }
    }

    pub fn numeric(&mut self) -> P {
        let (n, g) = *self.r.pick(&[("price", None), ("price", None), ("age", Some(0)), ("size", Some(1))]);
        P { n: n.into(), g }
    }

    pub fn filt(&mut self) -> Filt {
        let p = self.prop();
        let k = kind(&p.n);
        let ops: &[&str] = match k {
            's' => &["eq", "eq", "neq", "like", "notLike", "regex", "notRegex", "exists", "empty"],
            'n' => &["eq", "neq", "gt", "gte", "lt", "lte", "exists", "empty"],
            'b' => &["true", "false", "eq", "neq", "exists", "empty"],
            _ => &["eq", "neq", "gt", "gte", "lt", "lte", "exists", "empty"],
        };
        let op = *self.r.pick(ops);
        let n = if self.r.below(3) == 0 { 2 + self.r.usize(2) } else { 1 };
        let vals = match op {
            "exists" | "empty" | "true" | "false" => (self.r.below(2) == 0).then(Vec::new),
            "like" | "notLike" => {
                Some((0..n).map(|_| V::S(self.r.pick(&["%b%", "b_ue", "blue", "g%", "", "a%b", "_%", "zzz"]).to_string())).collect())
            }
            "regex" | "notRegex" => Some((0..n).map(|_| V::S(self.r.pick(&["^b", "e$", "l.e", "red|gold", "^$"]).to_string())).collect()),
            _ => Some(
                (0..n)
                    .map(|_| if k == 's' && self.r.below(8) == 0 { V::S("unknown".into()) } else { gval(self.r, &p.n) })
                    .collect(),
            ),
        };
        Filt { p, op: op.into(), vals }
    }

    pub fn filts(&mut self, often: u64) -> Vec<Filt> {
        if self.r.below(often) > 0 {
            return vec![];
        }
        (0..1 + self.r.below(2)).map(|_| self.filt()).collect()
    }

    pub fn sel(&mut self) -> Sel {
        let ev = if self.custom > 0 && self.r.below(4) == 0 { Ev::Cust(self.r.usize(self.custom)) } else { Ev::Reg(self.r.pick(EVENTS).to_string()) };
        Sel { ev, filters: self.filts(3) }
    }

    pub fn at(&mut self) -> i64 {
        BASE + match self.r.below(4) {
            0 => self.r.below(3) as i64 * DAY,
            1 => self.r.below(3) as i64 * DAY + self.r.below(48) as i64 * 1_800_000,
            2 => -13_200_000 + self.r.below(4) as i64 * DAY - self.r.below(2) as i64,
            _ => self.r.below(3 * DAY as u64) as i64,
        }
    }

    pub fn span(&mut self, units: &[&str]) -> Span {
        let cur = BASE / 1000 + self.r.below(4 * 86400) as i64;
        let t = match self.r.below(5) {
            0 => T::From(self.at().min(cur * 1000)),
            1 => {
                let u = *self.r.pick(units);
                let n = match u {
                    "hour" => 1 + self.r.below(72),
                    "day" => 1 + self.r.below(5),
                    _ => 1 + self.r.below(2),
                };
                T::Last(n as i64, u.to_string())
            }
            2 => {
                let (a, b) = (self.at(), self.at());
                T::Between(a.min(b), a.max(b))
            }
            _ => T::Between(BASE - 2 * DAY, BASE + 5 * DAY),
        };
        Span { t, cur }
    }

    fn search(&mut self, calm: bool) -> Ask {
        let events = if !calm || self.r.below(3) > 0 { Some((0..1 + self.r.below(3)).map(|_| self.sel()).collect()) } else { None };
        let props = match self.r.below(4) {
            _ if !calm => Some(vec![P { n: "rid".into(), g: None }]),
            0 => None,
            _ => {
                let mut v = all_props();
                let n = 1 + self.r.usize(6);
                let mut out = vec![];
                for _ in 0..n {
                    let i = self.r.usize(v.len());
                    out.push(v.remove(i));
                }
                Some(out)
            }
        };
        let filters = self.filts(2);
        Ask::Search { span: self.span(&["hour", "day", "week", "month"]), events, filters, props, compact: calm && self.r.below(15) == 0 }
    }

    fn rec(&mut self) -> Ask {
        let g = self.r.usize(2);
        Ask::Rec { g, id: self.r.usize(if g == 0 { 6 } else { 4 }) }
    }

    fn recs(&mut self, calm: bool) -> Ask {
        let g = self.r.usize(2);
        let mut filters = self.filts(2);
        let names = if g == 0 { USER } else { COMPANY };
        while filters.iter().any(|f| f.p.g != Some(g)) {
            filters.retain(|f| f.p.g == Some(g));
            let f = self.filt();
            filters.push(f);
        }
        if self.r.below(8) == 0 {
            let op = *self.r.pick(&["eq", "neq", "like"]);
            let v = if op == "like" { "%1".to_string() } else { rec_name(g, self.r.usize(4)) };
            filters.push(Filt { p: P { n: "id".into(), g: Some(g) }, op: op.into(), vals: Some(vec![V::S(v)]) });
        }
        let span = (self.r.below(2) == 0).then(|| self.span(&["hour", "day", "week", "month"]));
        let id = P { n: "id".into(), g: Some(g) };
        let props = match self.r.below(3) {
            _ if !calm => Some(vec![id]),
            0 => None,
            _ => {
                let mut v: Vec<P> = vec![];
                for _ in 0..1 + self.r.below(4) {
                    let n = if self.r.below(3) == 0 { *self.r.pick(&["id", "created_at"]) } else { *self.r.pick(names) };
                    let p = P { n: n.into(), g: Some(g) };
                    if !v.contains(&p) {
                        v.push(p);
                    }
                }
                Some(v)
            }
        };
        let cur = span.as_ref().map_or(BASE / 1000, |s| s.cur);
        Ask::Recs { span, cur, g, filters, props, compact: calm && self.r.below(15) == 0 }
    }

    /// clients have users and companies of their own
    fn ident(&mut self, c: usize) -> Ident {
        let g = self.r.usize(2);
        let n = if g == 0 { 4 } else { 3 };
        let own: Vec<usize> = (0..n).filter(|i| i % self.clients == c).collect();
        let id = *self.r.pick(&own);
        let props = self.some(if g == 0 { USER } else { COMPANY });
        Ident { p: if self.r.below(4) == 0 { self.r.usize(self.projects) } else { 0 }, g, id, ts: self.at(), props }
    }

    fn query(&mut self) -> Q {
        let f = |s: &mut Self| s.r.pick(&["sum", "min", "max", "avg", "count"]).to_string();
        match self.r.below(8) {
            0..=2 => Q::Count,
            3 => Q::Unique,
            4 => Q::Daily,
            5 => Q::PerGroup(f(self)),
            6 => Q::PropPerGroup(self.numeric(), f(self), f(self)),
            _ => Q::Prop(self.numeric(), f(self)),
        }
    }

    pub fn bds(&mut self, often: u64) -> Vec<P> {
        if self.r.below(often) > 0 {
            return vec![];
        }
        let mut v: Vec<P> = vec![];
        for _ in 0..1 + self.r.below(2) {
            let p = self.prop();
            if !v.contains(&p) {
                v.push(p);
            }
        }
        v
    }

    fn seg(&mut self, calm: bool) -> Ask {
        let unit = self.r.pick(&["hour", "day", "day", "week", "month", "year"]).to_string();
        let group = if self.r.below(3) == 0 { 1 } else { 0 };
        let n = if self.r.below(3) == 0 { 2 } else { 1 };
        let events: Vec<SegEv> = (0..n)
            .map(|_| SegEv {
                sel: self.sel(),
                breakdowns: if calm { self.bds(4) } else { vec![] },
                queries: if !calm {
                    vec![Q::Count]
                } else {
                    let n = if self.r.below(3) == 0 { 2 + self.r.below(2) } else { 1 };
                    (0..n).map(|_| self.query()).collect()
                },
            })
            .collect();
        let mut breakdowns = if calm { self.bds(2) } else { vec![] };
        breakdowns.retain(|b| !events.iter().any(|e| e.breakdowns.contains(b)));
        let filters = self.filts(3);
        Ask::Seg { span: self.span(&["day", "week"]), group, unit, events, filters, breakdowns, compact: calm && self.r.below(20) == 0 }
    }

    fn get(&mut self) -> Ask {
        let rid = if self.rid > 0 && self.r.below(5) > 0 { 1 + self.r.below(self.rid) } else { *self.r.pick(&[901, 911, 5000]) };
        Ask::Get { rid }
    }

    fn vals(&mut self, calm: bool) -> Ask {
        let f = self.filt();
        let p = match self.r.below(12) {
            0 => P { n: "rid".into(), g: None },
            1 => P { n: "event".into(), g: None },
            2..=4 => self.prop(),
            _ => f.p.clone(),
        };
        let filt = if self.r.below(2) == 0 {
            None
        } else if p == f.p {
            Some(f)
        } else {
            let v = match p.n.as_str() {
                "rid" => format!("r{}", 1 + self.r.below(self.rid + 1)),
                "event" => self.r.pick(EVENTS).to_string(),
                _ => String::new(),
            };
            (!v.is_empty()).then(|| Filt { p: p.clone(), op: self.r.pick(&["eq", "neq"]).to_string(), vals: Some(vec![V::S(v)]) })
        };
        let ev = match self.r.below(6) {
            // sessions begin at moments of their own
            0 | 1 if calm || p.n != "event" => None,
            2 if calm => Some(Ev::Reg(SESSION.into())),
            _ => Some(self.sel().ev),
        };
        Ask::Vals { ev, p, filt }
    }

    fn ask(&mut self, what: &str, calm: bool) -> Ask {
        match what {
            "values" => self.vals(calm),
            "seg" => self.seg(calm),
            "funnel" if calm => Ask::Fun(qfunnel::gen(self)),
            "funnel" => self.seg(false),
            "records" if self.r.below(4) == 0 => self.rec(),
            "records" => self.recs(calm),
            _ if calm && self.r.below(5) == 0 => self.get(),
            _ => self.search(calm),
        }
    }

    fn track(&mut self) -> Op {
        self.rid += 1;
        let props = self.some(EVENT);
        Op::Track {
            c: self.r.usize(self.clients),
            p: if self.r.below(4) == 0 { self.r.usize(self.projects) } else { 0 },
            rid: self.rid,
            u: self.r.usize(4),
            co: (self.r.below(3) > 0).then(|| self.r.usize(3)),
            ev: self.r.pick(EVENTS).to_string(),
            ts: self.at() + if self.apart { self.rid as i64 } else { 0 },
            props,
        }
    }
}

pub struct Query;

impl Scenario for Query {
    fn name(&self) -> &'static str {
        "query"
    }

    fn generate(&self, rng: &mut Rng, variant: &str, tier: &str) -> Plan {
        let mut conf = crate::gen_conf(rng);
        conf.access_s = 864_000;
        conf.session_s = 864_000;
        conf.cleaner_s = 36_000;
        let (what, mode) = variant.split_once('-').unwrap_or((variant, "conc"));
        let projects = 1 + (rng.below(2) == 0) as usize;
        let clients = 1 + rng.usize(3);
        let mut g = G { r: rng, rid: 0, clients, projects, custom: 0, apart: what == "funnel" };
        let mut custom = vec![];
        for _ in 0..g.r.below(3) {
            let mut parts: Vec<Sel> = (0..1 + g.r.below(2)).map(|_| g.sel()).collect();
            // a custom event may be part of another one only once
            let mut seen = false;
            parts.retain(|s| match s.ev {
                Ev::Cust(_) => !std::mem::replace(&mut seen, true),
                _ => true,
            });
            custom.push(parts);
            g.custom += 1;
        }
        let nl = match mode {
            "conc" => 1 + (g.r.below(4) == 0) as usize,
            _ => 2,
        };
        let mut lives = vec![];
        let mut cfgs = vec![];
        let mut max = *g.r.pick(&[5, 15, 30]);
        if tier == "thorough" && g.r.below(4) == 0 {
            max = 120;
        }
        for life in 0..nl {
            let mut l = Life::default();
            for p in 0..projects {
                for (grp, n) in [(0, 4), (1, 3)] {
                    for id in 0..n {
                        if g.r.below(3) > 0 {
                            let props = g.some(if grp == 0 { USER } else { COMPANY });
                            if !props.is_empty() {
                                let ts = g.at();
                                l.ops_ids.push(Ident { p, g: grp, id, ts, props });
                            }
                        }
                    }
                }
            }
            let n = 1 + g.r.below(max);
            for _ in 0..n {
                let op = if g.r.below(5) == 0 {
                    let a = g.ask(what, false);
                    Op::Ask { c: g.r.usize(clients), p: if g.r.below(4) == 0 { g.r.usize(projects) } else { 0 }, ask: a }
                } else if what == "records" && g.r.below(8) > 0 {
                    let c = g.r.usize(clients);
                    Op::Ident { c, i: g.ident(c) }
                } else {
                    let mut op = g.track();
                    // of users and companies nobody identifies
                    if let (Op::Track { u, co, .. }, "records") = (&mut op, what) {
                        *u = 4 + *u % 2;
                        *co = co.map(|_| 3);
                    }
                    op
                };
                l.ops.push(op);
            }
            for _ in 0..3 + g.r.below(8) {
                let a = g.ask(what, true);
                let p = if g.r.below(4) == 0 { g.r.usize(projects) } else { 0 };
                l.ops_asks.push((p, a));
            }
            let mut c = simdrv::util::cfg(g.r);
            c.tick_ns = *g.r.pick(&[0, 1000, 20_000]);
            c.step_limit = 5_000_000;
            l.rename = g.r.below(6) == 0;
            let last = life + 1 == nl;
            let span = [30, 100, 300][g.r.usize(3)];
            if mode == "crash" && !last {
                c.faults.push(match g.r.below(5) {
                    0 => Fault::CrashStep { step: 1 + g.r.below(span * 10) },
                    1 | 2 => Fault::CrashCommit { op: 1 + g.r.below(span), after: g.r.below(2) == 0 },
                    _ => Fault::Crash { op: 1 + g.r.below(span), keep: *g.r.pick(&[0, 300, 999, 1000]) },
                });
            }
            if mode == "err" && !last {
                for _ in 0..1 + g.r.below(2) {
                    let op = 1 + g.r.below(span);
                    c.faults.push(match g.r.below(6) {
                        0 => Fault::WriteErr { op, errno: *g.r.pick(&[5, 28]), keep: *g.r.pick(&[0, 300, 999]) },
                        1 => Fault::DiskFull { op, until: op + 1 + g.r.below(10) },
                        2 => Fault::ShortWrite { op, keep: 1 + g.r.below(999) as u32 },
                        3 => Fault::ReadErr { op, errno: 5 },
                        4 => Fault::ShortRead { op, keep: 1 + g.r.below(999) as u32 },
                        _ => Fault::CommitErr { op },
                    });
                }
            }
            if g.r.below(6) == 0 {
                c.faults.push(Fault::Slow { op: 1 + g.r.below(60), ms: *g.r.pick(&[20, 900]) });
            }
            cfgs.push(c);
            lives.push(l);
        }
        let extra = g.r.below(3) == 0;
        let work = Work { variant: variant.to_string(), conf, projects, extra, custom, lives };
        Plan { scenario: String::new(), seed: 0, cfgs, data: serde_json::to_value(&work).unwrap() }
    }

    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        run(plan, verbose)
    }
}
