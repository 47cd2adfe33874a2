//! Executes one plan against the real metadata crate and judges the recorded history.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::MutexGuard;
use std::time::Duration;

use chrono::DateTime;
use common::rbac::OrganizationRole;
use common::types::OptionalProperty;
use metadata::accounts::*;
use metadata::backups;
use metadata::bookmarks;
use metadata::custom_events;
use metadata::dashboards;
use metadata::dictionaries::Dictionaries;
use metadata::error::MetadataError;
use metadata::events;
use metadata::groups;
use metadata::organizations;
use metadata::projects;
use metadata::properties;
use metadata::reports;
use metadata::sessions;
use metadata::settings;
use metadata::teams;
use rocksdb::ErrorKind;
use rocksdb::TransactionDB;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value as J;
use simdrv::Outcome;
use simdrv::Plan;
use simrt::End;
use simrt::Report;
use simrt::Start;
use storage::db::OptiDBImpl;
use storage::db::Options;

use crate::lin;
use crate::model::*;

pub fn prop_of(variant: &str) -> &'static str {
    match variant {
        "names" => "C10",
        "durable" => "C11",
        "update" => "C12",
        "dict" => "C13",
        "groups" => "C14",
        "props" => "C15",
        "sessions" => "C16",
        "records" => "C17",
        _ => panic!("variant {variant}"),
    }
}

#[derive(Default)]
struct Hist {
    clock: u64,
    es: Vec<Entry>,
    viol: Vec<(String, String)>,
    ops: u64,
    transient: u64,
    overlap: bool,
    running: usize,
    states: Vec<u64>,
    died_mid_op: bool,
    settings_init: bool,
    cols: Vec<(String, BTreeMap<String, String>)>,
}

struct Cx {
    work: Work,
    h: Mutex<Hist>,
}

impl Cx {
    fn h(&self) -> MutexGuard<'_, Hist> {
        self.h.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn bad(&self, class: &str, d: String) {
        simrt::logf(|| format!("VIOLATION {class}: {d}"));
        self.h().viol.push((class.to_string(), d));
    }
}

/// the metadata modules as the server creates them
struct Md {
    acc: Arc<Accounts>,
    org: organizations::Organizations,
    proj: projects::Projects,
    team: teams::Teams,
    ev: Arc<events::Events>,
    cev: custom_events::CustomEvents,
    pe: Option<properties::Properties>,
    pg: Vec<Arc<properties::Properties>>,
    dash: dashboards::Dashboards,
    rep: reports::Reports,
    bm: bookmarks::Bookmarks,
    bk: backups::Backups,
    dict: Arc<Dictionaries>,
    grp: groups::Groups,
    ses: sessions::Sessions,
    set: settings::SettingsProvider,
    opti: Option<Arc<OptiDBImpl>>,
}

fn topts(n: usize, replacing: bool) -> storage::table::Options {
    let mut o = storage::table::Options::test(replacing);
    o.index_cols = n;
    o
}

fn boot(opti: bool) -> Result<Md, String> {
    let db: Arc<TransactionDB> = Arc::new(metadata::rocksdb::new("/data/md").map_err(|e| e.to_string())?);
    let dict = Arc::new(Dictionaries::new(db.clone()));
    let ev = Arc::new(events::Events::new(db.clone(), dict.clone()));
    let acc = Arc::new(Accounts::new(db.clone()));
    let o = if opti {
        let o = Arc::new(OptiDBImpl::open(PathBuf::from("/data/store"), Options {}).map_err(|e| e.to_string())?);
        for (t, n, r) in [("events", 2, false), ("group_0", 1, true), ("group_1", 1, true)] {
            match o.create_table(t.to_string(), topts(n, r)) {
                Ok(_) | Err(storage::error::StoreError::AlreadyExists(_)) => {}
                Err(e) => return Err(e.to_string()),
            }
        }
        Some(o)
    } else {
        None
    };
    Ok(Md {
        org: organizations::Organizations::new(db.clone(), acc.clone()),
        acc,
        proj: projects::Projects::new(db.clone()),
        team: teams::Teams::new(db.clone()),
        cev: custom_events::CustomEvents::new(db.clone(), ev.clone()),
        ev,
        pe: o.clone().map(|o| properties::Properties::new_event(db.clone(), o)),
        pg: o.clone().map(|o| properties::Properties::new_group(db.clone(), o)).unwrap_or_default(),
        dash: dashboards::Dashboards::new(db.clone()),
        rep: reports::Reports::new(db.clone()),
        bm: bookmarks::Bookmarks::new(db.clone()),
        bk: backups::Backups::new(db.clone()),
        dict,
        grp: groups::Groups::new(db.clone()),
        ses: sessions::Sessions::new(db.clone()),
        set: settings::SettingsProvider::new(db),
        opti: o,
    })
}

impl Md {
    fn props(&self, k: K) -> &properties::Properties {
        match k {
            K::PE => self.pe.as_ref().unwrap(),
            K::PG0 => &self.pg[0],
            _ => &self.pg[1],
        }
    }
}

/// a few query shapes; stored objects carry one each
fn query(n: u64) -> reports::Query {
    use common::event_segmentation as es;
    use common::funnel as fu;
    use common::query::*;
    let time = QueryTime::Last { last: 3 + n as i64, unit: TimeIntervalUnit::Day };
    match n % 3 {
        0 => reports::Query::EventSegmentation(es::EventSegmentationRequest {
            time,
            group_id: 0,
            interval_unit: TimeIntervalUnit::Week,
            chart_type: es::ChartType::Line,
            analysis: es::Analysis::Linear,
            compare: None,
            events: vec![es::Event::new(
                EventRef::Regular(n),
                None,
                Some(vec![Breakdown::Property(PropertyRef::Group("p".into(), 0))]),
                vec![es::NamedQuery::new(es::Query::CountEvents, Some("q".into()))],
            )],
            filters: None,
            breakdowns: None,
            segments: None,
        }),
        1 => reports::Query::Funnel(fu::Funnel {
            time,
            group_id: 1,
            steps: vec![fu::Step {
                events: vec![fu::Event { event: EventRef::RegularName("e".into()), filters: None }],
                order: fu::StepOrder::Any(vec![(0, 1)]),
            }],
            time_window: fu::TimeWindow { n: n as usize, unit: fu::TimeIntervalUnitSession::Week },
            chart_type: fu::ChartType::Steps,
            count: fu::Count::NonUnique,
            filter: Some(fu::Filter::DropOffOnStep(1)),
            touch: Some(fu::Touch::Step { step: 2 }),
            holding_constants: Some(vec![PropertyRef::Event("h".into())]),
            exclude: None,
            breakdowns: None,
            segments: None,
            filters: None,
        }),
        _ => reports::Query::EventSegmentation(es::EventSegmentationRequest {
            time,
            group_id: 0,
            interval_unit: TimeIntervalUnit::Day,
            chart_type: es::ChartType::Pie,
            analysis: es::Analysis::Cumulative,
            compare: Some(es::Compare { offset: 1, unit: TimeIntervalUnit::Day }),
            events: vec![es::Event::new(EventRef::Custom(2), None, None, vec![es::NamedQuery::new(
                es::Query::AggregateProperty { property: PropertyRef::Custom(1), aggregate: AggregateFunction::Avg },
                None,
            )])],
            filters: Some(vec![PropValueFilter::Property {
                property: PropertyRef::Event("f".into()),
                operation: PropValueOperation::Neq,
                value: Some(vec![datafusion_common::ScalarValue::Utf8(Some(format!("s{n}")))]),
            }]),
            breakdowns: None,
            segments: None,
        }),
    }
}

/// replace the short forms used in plans by the full values
fn expand(f: &Fields) -> Fields {
    let mut f = f.clone();
    if let Some(n) = f.get("query").and_then(|x| x.as_u64()) {
        f.insert("query".into(), serde_json::to_value(query(n)).unwrap());
    }
    f
}

fn empty(v: &J) -> bool {
    v.is_null() || v.as_array().map(|a| a.is_empty()).unwrap_or(false)
}

fn sorted_text(f: &str, v: &J) -> String {
    // member and property lists are sets
    if matches!(f, "members" | "organizations" | "event_properties" | "user_properties" | "custom_properties") {
        if let Some(a) = v.as_array() {
            return J::from(a.clone()).to_string();
        }
    }
    v.to_string()
}

fn rec(k: K, f: &Fields) -> Rec {
    let mut r = Rec::new();
    for (n, v) in f {
        let skip = matches!(n.as_str(), "id" | "created_at" | "updated_at" | "createdAt" | "updatedAt" | "project_id" | "projectId")
            || (n == "organization_id" && k == K::Team);
        if skip || empty(v) {
            continue;
        }
        r.insert(n.clone(), sorted_text(n, v));
    }
    r
}

fn hash_id(s: &str) -> u64 {
    simdrv::util::hash(s)
}

fn ent<T: Serialize>(cx: &Cx, k: K, s: u64, t: &T) -> (u64, Rec) {
    let j = serde_json::to_value(t).unwrap();
    let f = j.as_object().unwrap();
    let id = match &f["id"] {
        J::String(x) => hash_id(x),
        x => x.as_u64().unwrap(),
    };
    let (uat, uby) = if k == K::Dash { ("updatedAt", "updatedBy") } else { ("updated_at", "updated_by") };
    if !matches!(k, K::Bm | K::Bk) {
        let a = f.get(uat).map(|x| x.is_null()).unwrap_or(true);
        let b = f.get(uby).map(|x| x.is_null()).unwrap_or(true);
        if a != b {
            cx.bad("update-marks", format!("{k:?} {id}: updated at {} by {}", f[uat], f[uby]));
        }
    }
    for n in ["project_id", "projectId"] {
        if let Some(p) = f.get(n) {
            if *p != J::from(s) {
                cx.bad("wrong-project", format!("{k:?} {id} of project {p} returned for project {s}"));
            }
        }
    }
    if k == K::Team && f["organization_id"] != J::from(s) {
        cx.bad("wrong-project", format!("team {id} of another organization returned for {s}"));
    }
    (id, rec(k, f))
}

fn opt<T: DeserializeOwned>(f: &Fields, k: &str) -> OptionalProperty<T> {
    match f.get(k) {
        None => OptionalProperty::None,
        Some(v) => OptionalProperty::Some(serde_json::from_value(v.clone()).expect(k)),
    }
}

fn de<T: DeserializeOwned>(f: &Fields) -> T {
    serde_json::from_value(J::Object(f.clone())).unwrap_or_else(|e| panic!("harness: {e}: {f:?}"))
}

fn role(n: u8) -> OrganizationRole {
    match n % 3 {
        0 => OrganizationRole::Owner,
        1 => OrganizationRole::Admin,
        _ => OrganizationRole::Member,
    }
}

fn part(k: K, s: u64) -> String {
    match k {
        K::Acc | K::Org => "accounts".into(),
        K::Proj => "projects".into(),
        K::Team => format!("teams/{s}"),
        K::Ev | K::CEv => format!("events/{s}"),
        K::PE | K::PG0 | K::PG1 => format!("properties/{s}"),
        K::Dash => format!("dashboards/{s}"),
        K::Rep => format!("reports/{s}"),
        K::Bm => format!("bookmarks/{s}"),
        K::Bk => "backups".into(),
    }
}

enum Fail {
    E(E),
    /// lock timeout or injected fault: the operation has no effect
    Transient,
    Other(String),
}

fn fail(e: MetadataError) -> Fail {
    match e {
        MetadataError::AlreadyExists(_) => Fail::E(E::Exists),
        MetadataError::NotFound(_) => Fail::E(E::NotFound),
        MetadataError::BadRequest(_) => Fail::E(E::Bad),
        MetadataError::RocksDb(e) if matches!(e.kind(), ErrorKind::TimedOut | ErrorKind::Busy | ErrorKind::IOError | ErrorKind::TryAgain) => Fail::Transient,
        MetadataError::Store(storage::error::StoreError::Io(_)) => Fail::Transient,
        MetadataError::Io(_) => Fail::Transient,
        e => Fail::Other(format!("{e:?}")),
    }
}

const DEC: i128 = 10_000_000_000_000_000_000_000_000_000_000_000;

fn gvals(v: &[(u64, i64)]) -> Vec<groups::PropertyValue> {
    v.iter()
        .map(|(p, x)| groups::PropertyValue {
            property_id: *p,
            // every type, with values that fill it
            value: match p % 9 {
                0 => groups::Value::Int64(Some(*x * 9_000_000_000_000_000)),
                1 => groups::Value::String(Some(x.to_string())),
                2 => groups::Value::Decimal(Some(*x as i128 * DEC)),
                3 => groups::Value::Timestamp(Some(*x * 1_000_000_000_000_000)),
                4 => groups::Value::Int8(Some(*x as i8)),
                5 => groups::Value::Int16(Some((*x * 36) as i16)),
                6 => groups::Value::Int32(Some((*x * 2_300_000) as i32)),
                7 => groups::Value::Boolean(Some(*x == 1)),
                _ => groups::Value::Null,
            },
        })
        .collect()
}

fn gtext(cx: &Cx, g: &groups::GroupValues) -> String {
    let v: Vec<(u64, i64)> = g
        .values
        .iter()
        .map(|p| {
            let exact = |x: i128, by: i128| if x % by == 0 { (x / by) as i64 } else { i64::MIN };
            let x = match (&p.value, p.property_id % 9) {
                (groups::Value::Int64(Some(x)), 0) => exact(*x as i128, 9_000_000_000_000_000),
                (groups::Value::String(Some(x)), 1) => x.parse().unwrap_or(i64::MIN),
                (groups::Value::Decimal(Some(x)), 2) => exact(*x, DEC),
                (groups::Value::Timestamp(Some(x)), 3) => exact(*x as i128, 1_000_000_000_000_000),
                (groups::Value::Int8(Some(x)), 4) => *x as i64,
                (groups::Value::Int16(Some(x)), 5) => exact(*x as i128, 36),
                (groups::Value::Int32(Some(x)), 6) => exact(*x as i128, 2_300_000),
                (groups::Value::Boolean(Some(x)), 7) => *x as i64,
                (groups::Value::Null, 8) => 0,
                (o, _) => {
                    cx.bad("group-value-type", format!("property {} came back as {o:?}", p.property_id));
                    0
                }
            };
            (p.property_id, x)
        })
        .collect();
    group_str(g.id, &v)
}

type R<T> = Result<T, Fail>;

thread_local! {
    static WHO: RefCell<String> = RefCell::new(String::new());
}

/// run `f` as one recorded operation
fn rec_op(cx: &Cx, part: String, m: M, f: impl FnOnce() -> R<Res>) -> Option<Res> {
    let who = WHO.with(|w| w.borrow().clone());
    let i = {
        let mut h = cx.h();
        h.clock += 1;
        let inv = h.clock;
        h.running += 1;
        if h.running > 1 {
            h.overlap = true;
        }
        h.es.push(Entry { part, m, res: Res::Pending, inv, end: u64::MAX, pending: true, cand: vec![], who });
        h.es.len() - 1
    };
    simrt::point("op");
    let r = f();
    let mut h = cx.h();
    h.running -= 1;
    h.clock += 1;
    let end = h.clock;
    let e = &mut h.es[i];
    let mut other = None;
    match r {
        Ok(r) => {
            e.res = r;
            e.pending = false;
            e.end = end;
        }
        Err(Fail::E(x)) => {
            e.res = Res::Err(x);
            e.pending = false;
            e.end = end;
        }
        Err(Fail::Transient) => {
            // no effect: a window before its own start
            e.end = 0;
            h.transient += 1;
        }
        Err(Fail::Other(s)) => {
            e.end = 0;
            other = Some(format!("{:?}: {s}", e.m));
        }
    }
    let out = h.es[i].res.clone();
    simrt::logf(|| format!("  {:?} -> {:?}", h.es[i].m, h.es[i].res));
    drop(h);
    if let Some(o) = other {
        cx.bad("unexpected-error", o);
        return None;
    }
    Some(out)
}

/// a by-name lookup is two reads: which id the name has, and that object
fn split_lookup(cx: &Cx, p: String, k: K, field: &'static str, v: &str, f: impl FnOnce() -> R<(u64, Rec)>) {
    let inv = {
        let mut h = cx.h();
        h.clock += 1;
        h.running += 1;
        if h.running > 1 {
            h.overlap = true;
        }
        h.clock
    };
    simrt::point("op");
    let r = f();
    push_lookup(cx, p, k, field, v, inv, r.map(Some));
}

fn push_lookup(cx: &Cx, p: String, k: K, field: &'static str, v: &str, inv: u64, r: R<Option<(u64, Rec)>>) {
    let who = WHO.with(|w| w.borrow().clone());
    let mut h = cx.h();
    h.running -= 1;
    h.clock += 1;
    let end = h.clock;
    let mut add = |m: M, res: Res| {
        simrt::logf(|| format!("  {m:?} -> {res:?}"));
        h.es.push(Entry { part: p.clone(), m, res, inv, end, pending: false, cand: vec![], who: who.clone() })
    };
    match r {
        Ok(Some((id, r))) => {
            add(M::Idx { k, field, v: v.to_string() }, Res::Id(Some(id)));
            add(M::Get { k, id }, Res::Ent(id, r));
        }
        Ok(None) => {}
        Err(Fail::E(E::NotFound)) => add(M::Idx { k, field, v: v.to_string() }, Res::Id(None)),
        Err(Fail::Transient) => h.transient += 1,
        Err(Fail::E(x)) => {
            drop(h);
            cx.bad("unexpected-error", format!("lookup of {k:?} {v}: {x:?}"));
        }
        Err(Fail::Other(s)) => {
            drop(h);
            cx.bad("unexpected-error", format!("lookup of {k:?} {v}: {s}"));
        }
    }
}

fn create(md: &Md, cx: &Cx, k: K, s: u64, f: &Fields) -> R<(u64, Rec)> {
    let r = match k {
        K::Acc => md.acc.create(de(f)).map(|x| ent(cx, k, s, &x)),
        K::Org => md.org.create(de(f)).map(|x| ent(cx, k, s, &x)),
        K::Proj => md.proj.create(de(f)).map(|x| ent(cx, k, s, &x)),
        K::Team => md.team.create(s, de(f)).map(|x| ent(cx, k, s, &x)),
        K::Ev => md.ev.create(s, de(f)).map(|x| ent(cx, k, s, &x)),
        K::CEv => md.cev.create(s, de(f)).map(|x| ent(cx, k, s, &x)),
        K::PE | K::PG0 | K::PG1 => md.props(k).create(s, de(f)).map(|x| ent(cx, k, s, &x)),
        K::Dash => md.dash.create(s, de(f)).map(|x| ent(cx, k, s, &x)),
        K::Rep => md.rep.create(s, de(f)).map(|x| ent(cx, k, s, &x)),
        K::Bm => md.bm.create(s, de(f)).map(|x| {
            cx.h().cols.push((x.id.clone(), Default::default()));
            ent(cx, k, s, &x)
        }),
        K::Bk => md.bk.create(de(f)).map(|x| ent(cx, k, s, &x)),
    };
    r.map_err(fail)
}

fn update(md: &Md, cx: &Cx, k: K, s: u64, id: u64, f: &Fields) -> R<Res> {
    let by = f.get(k.updated_by()).and_then(|x| x.as_u64()).unwrap_or(0);
    let r = match k {
        K::Acc => md.acc.update(id, UpdateAccountRequest {
            updated_by: by,
            password_hash: opt(f, "password_hash"),
            email: opt(f, "email"),
            name: opt(f, "name"),
            force_update_password: opt(f, "force_update_password"),
            force_update_email: opt(f, "force_update_email"),
            role: opt(f, "role"),
            organizations: OptionalProperty::None,
            projects: opt(f, "projects"),
            teams: opt(f, "teams"),
        }).map(|x| ent(cx, k, s, &x)),
        K::Org => md.org.update(id, organizations::UpdateOrganizationRequest { updated_by: by, name: opt(f, "name") }).map(|x| ent(cx, k, s, &x)),
        K::Proj => md.proj.update(id, projects::UpdateProjectRequest {
            updated_by: by,
            name: opt(f, "name"),
            description: opt(f, "description"),
            tags: opt(f, "tags"),
            token: opt(f, "token"),
            session_duration_seconds: opt(f, "session_duration_seconds"),
        }).map(|x| ent(cx, k, s, &x)),
        K::Team => md.team.update(s, id, teams::UpdateTeamRequest { updated_by: by, name: opt(f, "name") }).map(|x| ent(cx, k, s, &x)),
        K::Ev => md.ev.update(s, id, events::UpdateEventRequest {
            updated_by: by,
            tags: opt(f, "tags"),
            name: opt(f, "name"),
            display_name: opt(f, "display_name"),
            description: opt(f, "description"),
            status: opt(f, "status"),
            is_system: opt(f, "is_system"),
            event_properties: opt(f, "event_properties"),
            user_properties: opt(f, "user_properties"),
            custom_properties: opt(f, "custom_properties"),
        }).map(|x| ent(cx, k, s, &x)),
        K::CEv => md.cev.update(s, id, custom_events::UpdateCustomEventRequest {
            updated_by: by,
            tags: opt(f, "tags"),
            name: opt(f, "name"),
            description: opt(f, "description"),
            status: opt(f, "status"),
            is_system: opt(f, "is_system"),
            events: opt(f, "events"),
        }).map(|x| ent(cx, k, s, &x)),
        K::PE | K::PG0 | K::PG1 => md.props(k).update(s, id, properties::UpdatePropertyRequest {
            updated_by: by,
            tags: opt(f, "tags"),
            name: OptionalProperty::None,
            description: opt(f, "description"),
            display_name: opt(f, "display_name"),
            typ: OptionalProperty::None,
            data_type: OptionalProperty::None,
            status: opt(f, "status"),
            is_system: OptionalProperty::None,
            nullable: opt(f, "nullable"),
            is_array: opt(f, "is_array"),
            is_dictionary: opt(f, "is_dictionary"),
            dictionary_type: OptionalProperty::None,
        }).map(|x| ent(cx, k, s, &x)),
        K::Dash => md.dash.update(s, id, dashboards::UpdateDashboardRequest {
            updated_by: by,
            tags: opt(f, "tags"),
            name: opt(f, "name"),
            description: opt(f, "description"),
            panels: opt(f, "panels"),
        }).map(|x| ent(cx, k, s, &x)),
        K::Rep => md.rep.update(s, id, reports::UpdateReportRequest {
            updated_by: by,
            tags: opt(f, "tags"),
            name: opt(f, "name"),
            description: opt(f, "description"),
            typ: opt(f, "type"),
            query: opt(f, "query"),
        }).map(|x| ent(cx, k, s, &x)),
        K::Bk => return md.bk.update_status(id, de_val(f, "status")).map(|_| Res::Unit).map_err(fail),
        K::Bm => return Err(Fail::Transient),
    };
    r.map(|(i, r)| Res::Ent(i, r)).map_err(fail)
}

fn de_val<T: DeserializeOwned>(f: &Fields, k: &str) -> T {
    serde_json::from_value(f[k].clone()).unwrap()
}

fn bm_key(cx: &Cx, id: u64) -> String {
    // bookmarks are addressed by the position of their creation in this run
    let h = cx.h();
    h.cols.get(id as usize % h.cols.len().max(1)).map(|x| x.0.clone()).unwrap_or_else(|| "none".into())
}

fn do_op(cx: &Arc<Cx>, md: &Arc<Md>, op: &Op) {
    cx.h().ops += 1;
    simrt::logf(|| format!("> {op:?}"));
    match op {
        Op::Z { ms } => simrt::sleep(Duration::from_millis(*ms)),
        Op::C { k, s, f } => {
            let f = expand(f);
            let mut want = rec(*k, &f);
            if *k == K::Proj {
                want.insert("events_count".into(), "0".into());
            }
            rec_op(cx, part(*k, *s), M::Create { k: *k, f: want }, || {
                create(md, cx, *k, *s, &f).map(|(i, r)| Res::Ent(i, r))
            });
        }
        Op::GC { k, s, f } => {
            let f = expand(f);
            let who = WHO.with(|w| w.borrow().clone());
            let name = f["name"].as_str().unwrap().to_string();
            let tag = f["created_by"].to_string();
            let want = rec(*k, &f);
            let (i, inv) = {
                let mut h = cx.h();
                h.clock += 1;
                let inv = h.clock;
                h.running += 1;
                if h.running > 1 {
                    h.overlap = true;
                }
                h.es.push(Entry { part: part(*k, *s), m: M::Create { k: *k, f: want }, res: Res::Pending, inv, end: u64::MAX, pending: true, cand: vec![], who });
                (h.es.len() - 1, inv)
            };
            simrt::point("op");
            let r = match k {
                K::Ev => md.ev.get_or_create(*s, de(&f)).map(|x| ent(cx, *k, *s, &x)),
                _ => md.props(*k).get_or_create(*s, de(&f)).map(|x| ent(cx, *k, *s, &x)),
            }
            .map_err(fail);
            match r {
                Ok((id, r)) if r.get("created_by") == Some(&tag) => {
                    let mut h = cx.h();
                    h.running -= 1;
                    h.clock += 1;
                    let end = h.clock;
                    let e = &mut h.es[i];
                    e.res = Res::Ent(id, r);
                    e.end = end;
                    e.pending = false;
                    // another get_or_create may have renamed or re-described it since: only possible
                    // for updates, which this caller would see as a plain lookup
                    simrt::logf(|| format!("  {:?} -> {:?}", h.es[i].m, h.es[i].res));
                }
                // the name may be taken as a display name; never as a name
                Err(Fail::E(E::Exists)) => {
                    let mut h = cx.h();
                    h.running -= 1;
                    h.clock += 1;
                    let end = h.clock;
                    let display_only = f.get("display_name").map(|x| !x.is_null()).unwrap_or(false);
                    let e = &mut h.es[i];
                    if display_only {
                        e.res = Res::Err(E::Exists);
                        e.end = end;
                        e.pending = false;
                    } else {
                        e.end = 0;
                        drop(h);
                        cx.bad("get-or-create-exists", format!("{k:?} {name}: get_or_create fails because the name exists"));
                    }
                }
                r => {
                    cx.h().es[i].end = 0;
                    push_lookup(cx, part(*k, *s), *k, "name", &name, inv, r.map(Some));
                }
            }
        }
        Op::U { k, s, id, f } => {
            let f = expand(f);
            let mut m: BTreeMap<String, Option<String>> = BTreeMap::new();
            for (n, v) in &f {
                m.insert(n.clone(), if empty(v) { None } else { Some(sorted_text(n, v)) });
            }
            rec_op(cx, part(*k, *s), M::Update { k: *k, id: *id, f: m }, || update(md, cx, *k, *s, *id, &f));
        }
        Op::D { k, s, id } => {
            let (id, bm) = if *k == K::Bm {
                let b = bm_key(cx, *id);
                (hash_id(&b), b)
            } else {
                (*id, String::new())
            };
            rec_op(cx, part(*k, *s), M::Delete { k: *k, id }, || {
                let r = match k {
                    K::Acc => md.acc.delete(id).map(|x| ent(cx, *k, *s, &x)),
                    K::Org => md.org.delete(id).map(|x| ent(cx, *k, *s, &x)),
                    K::Proj => md.proj.delete(id).map(|x| ent(cx, *k, *s, &x)),
                    K::Team => md.team.delete(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Ev => md.ev.delete(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::CEv => md.cev.delete(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::PE | K::PG0 | K::PG1 => md.props(*k).delete(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Dash => md.dash.delete(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Rep => md.rep.delete(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Bm => md.bm.delete(*s, 1, &bm).map(|x| ent(cx, *k, *s, &x)),
                    K::Bk => return md.bk.delete(id).map(|_| Res::Unit).map_err(fail),
                };
                r.map(|(i, r)| Res::Ent(i, r)).map_err(fail)
            });
        }
        Op::G { k, s, id } => {
            let (id, bm) = if *k == K::Bm {
                let b = bm_key(cx, *id);
                (hash_id(&b), b)
            } else {
                (*id, String::new())
            };
            rec_op(cx, part(*k, *s), M::Get { k: *k, id }, || {
                let r = match k {
                    K::Acc => md.acc.get_by_id(id).map(|x| ent(cx, *k, *s, &x)),
                    K::Org => md.org.get_by_id(id).map(|x| ent(cx, *k, *s, &x)),
                    K::Proj => md.proj.get_by_id(id).map(|x| ent(cx, *k, *s, &x)),
                    K::Team => md.team.get_by_id(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Ev => md.ev.get_by_id(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::CEv => md.cev.get_by_id(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::PE | K::PG0 | K::PG1 => md.props(*k).get_by_id(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Dash => md.dash.get_by_id(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Rep => md.rep.get_by_id(*s, id).map(|x| ent(cx, *k, *s, &x)),
                    K::Bm => md.bm.get_by_id(*s, 1, &bm).map(|x| ent(cx, *k, *s, &x)),
                    K::Bk => md.bk.get_by_id(id).map(|x| ent(cx, *k, *s, &x)),
                };
                r.map(|(i, r)| Res::Ent(i, r)).map_err(fail)
            });
        }
        Op::N { k, s, v } => {
            let field = match k {
                K::Acc => "email",
                K::Proj => "token",
                _ => "name",
            };
            split_lookup(cx, part(*k, *s), *k, field, v, || {
                match k {
                    K::Acc => md.acc.get_by_email(v).map(|x| ent(cx, *k, *s, &x)),
                    K::Proj => md.proj.get_by_token(v).map(|x| ent(cx, *k, *s, &x)),
                    K::Ev => md.ev.get_by_name(*s, v).map(|x| ent(cx, *k, *s, &x)),
                    K::CEv => md.cev.get_by_name(*s, v).map(|x| ent(cx, *k, *s, &x)),
                    k => md.props(*k).get_by_name(*s, v).map(|x| ent(cx, *k, *s, &x)),
                }
                .map_err(fail)
            });
        }
        Op::L { k, s } => {
            rec_op(cx, part(*k, *s), M::List { k: *k }, || {
                macro_rules! l {
                    ($e:expr) => {
                        $e.map(|l| l.data.iter().map(|x| ent(cx, *k, *s, x)).collect::<Vec<_>>())
                    };
                }
                let r = match k {
                    K::Acc => l!(md.acc.list()),
                    K::Org => l!(md.org.list()),
                    K::Proj => l!(md.proj.list()),
                    K::Team => l!(md.team.list(*s)),
                    K::Ev => l!(md.ev.list(*s)),
                    K::CEv => l!(md.cev.list(*s)),
                    K::PE | K::PG0 | K::PG1 => l!(md.props(*k).list(*s)),
                    K::Dash => l!(md.dash.list(*s)),
                    K::Rep => l!(md.rep.list(*s)),
                    K::Bk => l!(md.bk.list()),
                    K::Bm => return Err(Fail::Transient),
                };
                let r = r.map_err(fail)?;
                if *k == K::Bk {
                    // the scheduler takes the last one for the latest
                    if r.windows(2).any(|w| w[0].0 >= w[1].0) {
                        cx.bad("backup-order", format!("backups listed in the order {:?}", r.iter().map(|x| x.0).collect::<Vec<_>>()));
                    }
                }
                Ok(Res::List(r))
            });
        }
        Op::Mem { how, org, acc, role: r } => {
            let m = M::Mem { how: *how, org: *org, acc: *acc, role: format!("{:?}", role(*r)) };
            rec_op(cx, part(K::Acc, 0), m, || {
                match how {
                    0 => md.org.add_member(*org, *acc, role(*r)),
                    1 => md.org.remove_member(*org, *acc),
                    _ => md.org.change_member_role(*org, *acc, role(*r)),
                }
                .map(|_| Res::Unit)
                .map_err(fail)
            });
        }
        Op::At { how, s, id, p } => {
            rec_op(cx, part(K::Ev, *s), M::At { how: *how, id: *id, p: p.clone() }, || {
                match how {
                    0 => md.ev.attach_event_property(*s, *id, p[0]),
                    1 => md.ev.attach_user_property(*s, *id, p[0]),
                    2 => md.ev.detach_event_property(*s, *id, p[0]),
                    3 => md.ev.detach_user_property(*s, *id, p[0]),
                    _ => return md.ev.try_attach_properties(*s, *id, p.clone()).map(|_| Res::Unit).map_err(fail),
                }
                .map(|x| ent(cx, K::Ev, *s, &x))
                .map(|(i, r)| Res::Ent(i, r))
                .map_err(fail)
            });
        }
        Op::Inc { id } => {
            rec_op(cx, part(K::Proj, 0), M::Inc { id: *id }, || {
                md.proj.increment_events_counter(*id).map(|_| Res::Unit).map_err(fail)
            });
        }
        Op::Seq { s, g } => {
            rec_op(cx, format!("seq/{s}/{g:?}"), M::Seq, || {
                match g {
                    None => md.ev.next_record_sequence(*s),
                    Some(g) => md.grp.next_record_sequence(*s, *g),
                }
                .map(Res::Num)
                .map_err(fail)
            });
        }
        Op::Di { how, s, d, v, key } => {
            let (t, c) = [("events", "country"), ("events", "city"), ("group_0", "city")][*d as usize % 3];
            let p = format!("dict/{s}/{t}/{c}");
            match how {
                0 => rec_op(cx, p, M::Dict { v: v.clone(), create: true }, || {
                    md.dict.get_key_or_create(*s, t, c, v).map(Res::Num).map_err(fail)
                }),
                1 => rec_op(cx, p, M::Dict { v: v.clone(), create: false }, || {
                    md.dict.get_key(*s, t, c, v).map(Res::Num).map_err(fail)
                }),
                _ => rec_op(cx, p, M::DictV { key: *key }, || match md.dict.get_value(*s, t, c, *key) {
                    Ok(v) => Ok(Res::Text(Some(v))),
                    Err(MetadataError::NotFound(_)) => Ok(Res::Text(None)),
                    Err(e) => Err(fail(e)),
                }),
            };
        }
        Op::Gr { how, s, g, anon, real, vals } => {
            let p = format!("group/{s}/{g}");
            let m = match how {
                0 => M::Anon { a: anon.clone() },
                1 => M::Merge { a: anon.clone(), r: real.clone(), vals: vals.clone() },
                2 => M::Real { r: real.clone(), vals: vals.clone(), upd: false },
                _ => M::Real { r: real.clone(), vals: vals.clone(), upd: true },
            };
            rec_op(cx, p, m, || {
                let r = match how {
                    0 => return md.grp.get_or_create_anonymous_id(*s, *g, anon).map(Res::Num).map_err(fail),
                    1 => md.grp.merge_with_anonymous(*s, *g, anon, real, gvals(vals)),
                    2 => md.grp.get_or_create(*s, *g, real, gvals(vals)),
                    _ => md.grp.create_or_update(*s, *g, real, gvals(vals)),
                };
                r.map(|x| Res::Text(Some(gtext(cx, &x)))).map_err(fail)
            });
        }
        Op::Gn { s, name, display } => {
            rec_op(cx, format!("groupnames/{s}"), M::GName { name: name.clone(), display: display.clone() }, || {
                md.grp
                    .get_or_create_group(*s, name.clone(), display.clone())
                    .map(|g| Res::Text(Some(format!("{}:{}:{}", g.id, g.name, g.display_name))))
                    .map_err(fail)
            });
        }
        Op::Gl { s } => {
            rec_op(cx, format!("groupnames/{s}"), M::GList, || {
                let l = md.grp.list_groups(*s).map_err(fail)?;
                let mut l: Vec<String> = l.data.iter().map(|g| format!("{}:{}:{}", g.id, g.name, g.display_name)).collect();
                l.sort();
                Ok(Res::Text(Some(l.join("|"))))
            });
        }
        Op::Ss { s, user, t } => {
            rec_op(cx, format!("sessions/{s}"), M::SSet { u: *user, t: *t }, || {
                md.ses
                    .set_current_time(*s, *user, DateTime::from_timestamp(*t, 0).unwrap())
                    .map(Res::Flag)
                    .map_err(fail)
            });
        }
        Op::Sg { s, user } => {
            rec_op(cx, format!("sessions/{s}"), M::SGet { u: *user }, || match md.ses.get_by_user_id(*s, *user) {
                Ok(x) if x.user_id != *user => Err(Fail::Other(format!("session of user {}", x.user_id))),
                Ok(x) => Ok(Res::Text(Some(x.created_at.timestamp().to_string()))),
                Err(MetadataError::NotFound(_)) => Ok(Res::Text(None)),
                Err(e) => Err(fail(e)),
            });
        }
        Op::Sc { s, cutoff } => clean(cx, md, *s, *cutoff),
        Op::SClear { s } => {
            // every session that exists throughout is gone; one set meanwhile may survive
            let who = WHO.with(|w| w.borrow().clone());
            let (first, inv) = {
                let mut h = cx.h();
                h.clock += 1;
                let inv = h.clock;
                let first = h.es.len();
                for u in 1..=USERS {
                    h.es.push(Entry { part: format!("sessions/{s}"), m: M::SDrop { u }, res: Res::Unit, inv, end: u64::MAX, pending: true, cand: vec![], who: who.clone() });
                }
                (first, inv)
            };
            let _ = inv;
            let r = md.ses.clear_project(*s).map_err(fail);
            let mut h = cx.h();
            h.clock += 1;
            let end = h.clock;
            for i in 0..USERS as usize {
                match &r {
                    Ok(_) => {
                        h.es[first + i].pending = false;
                        h.es[first + i].end = end;
                    }
                    Err(_) => h.es[first + i].end = 0,
                }
            }
            drop(h);
            if let Err(Fail::Other(e)) = r {
                cx.bad("unexpected-error", e);
            }
        }
        Op::Save { v } => {
            let st = settings_of(*v);
            let mut text = serde_json::to_string(&SettingsView::of(&st)).unwrap();
            if v % 5 == 4 {
                text.insert(0, '!');
            }
            rec_op(cx, "settings".into(), M::Save { v: text }, || md.set.save(&st).map(|_| Res::Unit).map_err(fail));
        }
        Op::Load => {
            rec_op(cx, "settings".into(), M::Load, || match md.set.load() {
                Ok(s) => Ok(Res::Text(Some(serde_json::to_string(&SettingsView::of(&s)).unwrap()))),
                Err(e) => Err(fail(e)),
            });
        }
    }
}

const USERS: u64 = 4;

#[derive(Serialize)]
struct SettingsView(String);

impl SettingsView {
    fn of(s: &settings::Settings) -> Self {
        SettingsView(format!("{s:?}"))
    }
}

fn settings_of(v: u64) -> settings::Settings {
    let mut s = settings::Settings::default();
    s.auth_access_token = format!("a{v}");
    s.auth_refresh_token = format!("r{v}");
    s.auth_admin_default_password = format!("p{v}");
    s.backup_enabled = v % 2 == 0;
    s.backup_encryption_enabled = v % 3 == 0;
    s.backup_encryption_password = format!("e{v}");
    s.backup_compression_enabled = v % 5 == 0;
    s.backup_provider = match v % 3 {
        0 => settings::BackupProvider::Local,
        1 => settings::BackupProvider::S3,
        _ => settings::BackupProvider::GCP,
    };
    s.backup_provider_local_path = format!("/l{v}");
    s.backup_provider_s3_bucket = format!("b{v}");
    s.backup_provider_s3_path = format!("s{v}");
    s.backup_provider_s3_region = format!("g{v}");
    s.backup_provider_s3_access_key = format!("k{v}");
    s.backup_provider_s3_secret_key = format!("x{v}");
    s.backup_provider_gcp_bucket = format!("gb{v}");
    s.backup_provider_gcp_path = format!("gp{v}");
    s.backup_provider_gcp_key = format!("gk{v}");
    s.backup_schedule_start_hour = (v % 24) as usize;
    // one of the things that settings cannot do without
    if v % 5 == 4 {
        let provider = match (v / 5) % 8 {
            0 => {
                s.backup_schedule_start_hour = 24 + (v / 40 % 3) as usize;
                None
            }
            1 => {
                s.backup_encryption_enabled = true;
                s.backup_encryption_password.clear();
                None
            }
            2 => {
                s.backup_provider_s3_bucket.clear();
                Some(settings::BackupProvider::S3)
            }
            3 => {
                s.backup_provider_s3_region.clear();
                Some(settings::BackupProvider::S3)
            }
            4 => {
                s.backup_provider_s3_access_key.clear();
                Some(settings::BackupProvider::S3)
            }
            5 => {
                s.backup_provider_s3_secret_key.clear();
                Some(settings::BackupProvider::S3)
            }
            6 => {
                s.backup_provider_gcp_bucket.clear();
                Some(settings::BackupProvider::GCP)
            }
            _ => {
                s.backup_provider_gcp_key.clear();
                Some(settings::BackupProvider::GCP)
            }
        };
        if let Some(p) = provider {
            s.backup_provider = p;
        }
    }
    s
}

/// the session cleaner: ends sessions whose last event is older than the cut-off
fn clean(cx: &Arc<Cx>, md: &Arc<Md>, s: u64, cutoff: i64) {
    let p = format!("sessions/{s}");
    let who = WHO.with(|w| w.borrow().clone());
    let inv = {
        let mut h = cx.h();
        h.clock += 1;
        h.running += 1;
        if h.running > 1 {
            h.overlap = true;
        }
        h.clock
    };
    // entries of the sessions ended so far: they may take effect until the call returns
    let ended: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let seen: RefCell<Vec<(u64, i64)>> = RefCell::new(vec![]);
    let r = md.ses.check_for_deletion(s, |x| {
        let t = x.created_at.timestamp();
        seen.borrow_mut().push((x.user_id, t));
        if t >= cutoff {
            return Ok(false);
        }
        let mut h = cx.h();
        h.es.push(Entry { part: p.clone(), m: M::SExpire { u: x.user_id, t }, res: Res::Unit, inv, end: u64::MAX, pending: true, cand: vec![], who: who.clone() });
        ended.borrow_mut().push(h.es.len() - 1);
        drop(h);
        simrt::point("session end");
        Ok(true)
    })
    .map_err(fail);
    let mut h = cx.h();
    h.running -= 1;
    h.clock += 1;
    let end = h.clock;
    for i in ended.borrow().iter() {
        h.es[*i].end = end;
        if r.is_ok() {
            h.es[*i].pending = false;
        }
    }
    let seen = seen.into_inner();
    simrt::logf(|| format!("  cleaner saw {seen:?}, ok {}", r.is_ok()));
    match r {
        Ok(_) => {
            for u in 1..=USERS {
                match seen.iter().find(|x| x.0 == u) {
                    None => h.es.push(Entry { part: p.clone(), m: M::SGet { u }, res: Res::Text(None), inv, end, pending: false, cand: vec![], who: who.clone() }),
                    Some((_, t)) if *t >= cutoff => {
                        h.es.push(Entry { part: p.clone(), m: M::SGet { u }, res: Res::Text(Some(t.to_string())), inv, end, pending: false, cand: vec![], who: who.clone() })
                    }
                    _ => {}
                }
            }
        }
        Err(Fail::Transient) => h.transient += 1,
        Err(Fail::E(e)) => {
            drop(h);
            cx.bad("unexpected-error", format!("cleaner: {e:?}"));
        }
        Err(Fail::Other(e)) => {
            drop(h);
            cx.bad("unexpected-error", format!("cleaner: {e}"));
        }
    }
}

/// every property has its column, of its type, in the tables it needs
fn check_columns(cx: &Cx, md: &Md) {
    let Some(o) = &md.opti else { return };
    let cols = |t: &str| -> BTreeMap<String, String> {
        o.schema(t)
            .map(|s| s.fields.iter().map(|f| (f.name.clone(), format!("{:?}", f.data_type))).collect())
            .unwrap_or_default()
    };
    let tabs = [cols("events"), cols("group_0"), cols("group_1")];
    for s in [1, 11] {
        for (k, i) in [(K::PE, 0), (K::PG0, 1), (K::PG1, 2)] {
            let Ok(l) = md.props(k).list(s) else { continue };
            let mut names = BTreeMap::new();
            for p in &l.data {
                let c = p.column_name();
                if let Some(other) = names.insert(c.clone(), p.name.clone()) {
                    cx.bad("shared-column", format!("project {s}: {} and {other} share column {c}", p.name));
                }
                let tt: common::types::DType = p.data_type.clone();
                let want = arrow2_type(&tt);
                for (ti, t) in tabs.iter().enumerate() {
                    if ti != 0 && ti != i {
                        continue;
                    }
                    match t.get(&c) {
                        None => cx.bad("no-column", format!("project {s}: property {} has no column {c} in table {ti}", p.name)),
                        Some(x) if !x.starts_with(want) => cx.bad("column-type", format!("project {s}: property {} of type {tt:?}: column {c} is {x}", p.name)),
                        _ => {}
                    }
                }
            }
        }
    }
}

fn arrow2_type(t: &common::types::DType) -> &'static str {
    use common::types::DType::*;
    match t {
        String => "Utf8",
        Int8 => "Int8",
        Int16 => "Int16",
        Int32 => "Int32",
        Int64 => "Int64",
        Boolean => "Boolean",
        Timestamp => "Timestamp",
        Decimal => "Decimal",
        _ => "?",
    }
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
    let prop = prop_of(&work.variant);
    let mut out = Outcome::default();
    let cx = Arc::new(Cx { work: work.clone(), h: Mutex::new(Hist::default()) });
    let mut prev: Option<Report> = None;
    let n = work.lives.len();
    let mut crashed_in_ops = false;
    for (i, life) in work.lives.iter().enumerate() {
        let cfg = plan.cfgs[i].clone();
        let mut st = match &prev {
            None => Start::new(cfg),
            Some(p) => Start::after(cfg, p),
        };
        st.verbose = verbose;
        let c = cx.clone();
        let l = life.clone();
        let rep = simrt::run(st, move || {
            simrt::arm_faults(false);
            let md = match boot(c.work.opti) {
                Ok(m) => Arc::new(m),
                Err(e) => {
                    c.bad("boot", e);
                    return;
                }
            };
            WHO.with(|w| *w.borrow_mut() = format!("{i}.s"));
            for op in &l.ops_setup {
                do_op(&c, &md, op);
            }
            simrt::arm_faults(true);
            let hs: Vec<_> = l
                .ops_clients
                .iter()
                .enumerate()
                .map(|(ci, cl)| {
                    let (c, md, ops) = (c.clone(), md.clone(), cl.ops.clone());
                    simrt::spawn(&format!("client{ci}"), move || {
                        WHO.with(|w| *w.borrow_mut() = format!("{i}.{ci}"));
                        for op in &ops {
                            do_op(&c, &md, op);
                        }
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            simrt::arm_faults(false);
            check_columns(&c, &md);
        });
        out.absorb(&rep);
        {
            let mut h = cx.h();
            h.clock += 1;
            let now = h.clock;
            if matches!(rep.end, End::Crashed) && h.running > 0 {
                crashed_in_ops = true;
            }
            h.running = 0;
            for e in h.es.iter_mut() {
                if e.pending && e.end == u64::MAX {
                    e.end = now;
                }
            }
        }
        let stop = simdrv::judge_end(&mut out, &rep, &format!("life {i}"));
        prev = Some(rep);
        if stop {
            break;
        }
    }
    let _ = n;
    let h = cx.h();
    out.ops = h.ops;
    for (c, d) in &h.viol {
        out.violate(prop, c.clone(), d.clone());
    }
    if out.violations.is_empty() && out.inconclusive.is_none() {
        judge(&h.es, prop, &mut out, verbose);
    }
    let fired: u64 = out.stats.iter().flat_map(|s| s.fired.values()).sum();
    out.nontrivial = h.ops > 3
        && match work.variant.as_str() {
            "durable" => crashed_in_ops || fired > 0,
            _ => h.overlap,
        };
    let _ = (&h.states, h.died_mid_op, h.settings_init);
    out.observe(&format!("{:?}", h.es.iter().map(|e| (e.inv, e.end, format!("{:?}{:?}", e.m, e.res))).collect::<Vec<_>>()));
    out.summary = format!("{} operations, {} history entries, {} without effect, {} lives", h.ops, h.es.len(), h.transient, work.lives.len());
    out
}

fn judge(es: &[Entry], prop: &str, out: &mut Outcome, verbose: bool) {
    let mut parts: BTreeMap<&str, Vec<Entry>> = BTreeMap::new();
    for e in es {
        // failed without effect
        if e.pending && e.end == 0 {
            continue;
        }
        // a read without response tells nothing
        if e.pending && matches!(e.m, M::Get { .. } | M::Idx { .. } | M::List { .. } | M::DictV { .. } | M::GList | M::SGet { .. } | M::Load | M::Seq) {
            continue;
        }
        parts.entry(e.part.as_str()).or_default().push(e.clone());
    }
    for (p, mut es) in parts {
        es.sort_by_key(|e| e.inv);
        // what creates without response may have made
        let mut seen: BTreeMap<K, BTreeMap<u64, Rec>> = BTreeMap::new();
        let mut nums: BTreeMap<u64, Rec> = BTreeMap::new();
        for e in &es {
            let k = match &e.m {
                M::Create { k, .. } | M::Update { k, .. } | M::Delete { k, .. } | M::Get { k, .. } | M::List { k } => Some(*k),
                M::At { .. } => Some(K::Ev),
                _ => None,
            };
            match &e.res {
                Res::Ent(i, r) => {
                    seen.entry(k.unwrap_or(K::Ev)).or_default().insert(*i, r.clone());
                }
                Res::List(l) => {
                    for (i, r) in l {
                        seen.entry(k.unwrap_or(K::Ev)).or_default().insert(*i, r.clone());
                    }
                }
                Res::Num(x) => {
                    nums.insert(*x, Rec::new());
                }
                Res::Text(Some(t)) => {
                    if let Some(x) = t.split(':').next().and_then(|x| x.parse().ok()) {
                        nums.insert(x, Rec::new());
                    }
                    if let M::DictV { key } = &e.m {
                        nums.insert(*key, Rec::new());
                    }
                }
                _ => {}
            }
        }
        for e in es.iter_mut().filter(|e| e.pending) {
            e.cand = match &e.m {
                M::Create { k, f } => {
                    let by = f.get(k.created_by()).cloned();
                    seen.get(k).into_iter().flatten().filter(|(_, r)| r.get(k.created_by()).cloned() == by).map(|(i, r)| (*i, r.clone())).collect()
                }
                M::Dict { .. } | M::Anon { .. } | M::Merge { .. } | M::Real { .. } => nums.iter().map(|(i, r)| (*i, r.clone())).collect(),
                _ => vec![],
            };
        }
        let init = State::default();
        match lin::check(&es, init) {
            lin::Verdict::Ok(s) => out.states.push(simdrv::util::hash(&format!("{p}{s:?}"))),
            lin::Verdict::TooLarge => out.inconclusive = Some(format!("history of {p} too large to decide ({} entries)", es.len())),
            lin::Verdict::Bad { done, stuck } => {
                let what = stuck.first().map(|i| &es[*i]);
                let class = what.map(|e| format!("not-linearizable/{}", class_of(e))).unwrap_or_else(|| "not-linearizable".into());
                let mut d = format!("{p}: no order explains the history; {done} of {} operations can be ordered, then ", es.len());
                for i in stuck.iter().take(3) {
                    let e = &es[*i];
                    d.push_str(&format!("[{} {:?} -> {:?}] ", e.who, e.m, e.res));
                }
                d.push_str("does not fit");
                if verbose {
                    out.log.push(format!("history of {p}:"));
                    for e in &es {
                        out.log.push(format!("  {:>4}..{:<4} {} {:?} -> {:?}{}", e.inv, e.end, e.who, e.m, e.res, if e.pending { " (no response)" } else { "" }));
                    }
                }
                out.violate(prop, class, d);
            }
        }
    }
}

fn class_of(e: &Entry) -> String {
    let m = format!("{:?}", e.m);
    let head: String = m.chars().take_while(|c| c.is_alphabetic()).collect();
    let k = m.split("k: ").nth(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric()).collect::<String>()).unwrap_or_default();
    let r = format!("{:?}", e.res);
    let rh: String = r.chars().take_while(|c| c.is_alphabetic()).collect();
    format!("{head}{k}-{rh}")
}
