//! Operations, reference model and history entries.
use std::collections::BTreeMap;
use std::collections::BTreeSet;

use serde::Deserialize;
use serde::Serialize;
use serde_json::Map;
use serde_json::Value as J;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum K {
    Acc,
    Org,
    Proj,
    Team,
    Ev,
    CEv,
    PE,
    PG0,
    PG1,
    Dash,
    Rep,
    Bm,
    Bk,
}

impl K {
    /// fields whose values name at most one object
    pub fn unique(self) -> &'static [&'static str] {
        match self {
            K::Acc => &["email"],
            K::Org | K::Team | K::CEv => &["name"],
            K::Proj => &["name", "token"],
            K::Ev | K::PE | K::PG0 | K::PG1 => &["name", "display_name"],
            _ => &[],
        }
    }
    pub fn is_prop(self) -> bool {
        matches!(self, K::PE | K::PG0 | K::PG1)
    }
    pub fn created_by(self) -> &'static str {
        if self == K::Dash { "createdBy" } else { "created_by" }
    }
    pub fn updated_by(self) -> &'static str {
        if self == K::Dash { "updatedBy" } else { "updated_by" }
    }
}

pub type Fields = Map<String, J>;

/// client operations; `s` is the project (or organization) the object lives in
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    C { k: K, s: u64, f: Fields },
    /// get or create by name
    GC { k: K, s: u64, f: Fields },
    U { k: K, s: u64, id: u64, f: Fields },
    D { k: K, s: u64, id: u64 },
    G { k: K, s: u64, id: u64 },
    /// look up by name, e-mail, token
    N { k: K, s: u64, v: String },
    L { k: K, s: u64 },
    /// membership: 0 add, 1 remove, 2 change role
    Mem { how: u8, org: u64, acc: u64, role: u8 },
    /// attach / detach properties of an event: 0 attach event prop, 1 attach user prop, 2 detach event,
    /// 3 detach user, 4 attach several
    At { how: u8, s: u64, id: u64, p: Vec<u64> },
    Inc { id: u64 },
    Seq { s: u64, g: Option<u64> },
    /// dictionary: 0 get or create, 1 key of value, 2 value of key
    Di { how: u8, s: u64, d: u8, v: String, key: u64 },
    /// group identity: 0 anonymous, 1 merge, 2 get or create, 3 create or update
    Gr { how: u8, s: u64, g: u64, anon: String, real: String, vals: Vec<(u64, i64)> },
    Gn { s: u64, name: String, display: String },
    Gl { s: u64 },
    /// session: time in seconds
    Ss { s: u64, user: u64, t: i64 },
    Sg { s: u64, user: u64 },
    Sc { s: u64, cutoff: i64 },
    SClear { s: u64 },
    Save { v: u64 },
    Load,
    Z { ms: u64 },
}

/// canonical object: field name -> JSON text, without empty fields, id and times
pub type Rec = BTreeMap<String, String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Exists,
    NotFound,
    Bad,
}

#[derive(Clone, Debug)]
pub enum Res {
    Pending,
    Ent(u64, Rec),
    Id(Option<u64>),
    Unit,
    Num(u64),
    Text(Option<String>),
    Flag(bool),
    List(Vec<(u64, Rec)>),
    Err(E),
}

#[derive(Clone, Debug)]
pub enum M {
    Create { k: K, f: Rec },
    Update { k: K, id: u64, f: BTreeMap<String, Option<String>> },
    Delete { k: K, id: u64 },
    Get { k: K, id: u64 },
    Idx { k: K, field: &'static str, v: String },
    List { k: K },
    Mem { how: u8, org: u64, acc: u64, role: String },
    At { how: u8, id: u64, p: Vec<u64> },
    Inc { id: u64 },
    Seq,
    Dict { v: String, create: bool },
    DictV { key: u64 },
    Anon { a: String },
    Merge { a: String, r: String, vals: Vec<(u64, i64)> },
    Real { r: String, vals: Vec<(u64, i64)>, upd: bool },
    GName { name: String, display: String },
    GList,
    SSet { u: u64, t: i64 },
    SGet { u: u64 },
    SExpire { u: u64, t: i64 },
    SDrop { u: u64 },
    Save { v: String },
    Load,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub part: String,
    pub m: M,
    pub res: Res,
    pub inv: u64,
    pub end: u64,
    pub pending: bool,
    /// ids a create without response may have got
    pub cand: Vec<(u64, Rec)>,
    pub who: String,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct State {
    pub ents: BTreeMap<(K, u64), Rec>,
    pub used: BTreeSet<(K, u64)>,
    pub kv: BTreeMap<String, String>,
    pub ids: BTreeSet<u64>,
    pub n: u64,
}

impl State {
    fn conflicts(&self, k: K, id: Option<u64>, f: &BTreeMap<String, Option<String>>) -> bool {
        k.unique().iter().any(|u| match f.get(*u) {
            Some(Some(v)) => self
                .ents
                .iter()
                .any(|((ek, eid), r)| *ek == k && Some(*eid) != id && r.get(*u) == Some(v)),
            _ => false,
        })
    }
    /// errors that validating the parts of a custom event may give
    fn validate(&self, events: &str, level: usize, ids: &mut Vec<u64>, errs: &mut Vec<E>) {
        if level > 3 {
            errs.push(E::Bad);
            return;
        }
        let v: Vec<J> = serde_json::from_str(events).unwrap_or_default();
        for e in &v {
            let r = &e["event"];
            if let Some(n) = r.get("RegularName").and_then(|x| x.as_str()) {
                let n = J::from(n).to_string();
                if !self.ents.iter().any(|((k, _), r)| *k == K::Ev && r.get("name") == Some(&n)) {
                    errs.push(E::NotFound);
                    return;
                }
            } else if let Some(id) = r.get("Regular").and_then(|x| x.as_u64()) {
                if !self.ents.contains_key(&(K::Ev, id)) {
                    errs.push(E::NotFound);
                    return;
                }
            } else if let Some(id) = r.get("Custom").and_then(|x| x.as_u64()) {
                if ids.contains(&id) {
                    errs.push(E::Exists);
                    return;
                }
                match self.ents.get(&(K::CEv, id)) {
                    None => {
                        errs.push(E::NotFound);
                        return;
                    }
                    Some(c) => {
                        ids.push(id);
                        let empty = "[]".to_string();
                        self.validate(c.get("events").unwrap_or(&empty), level + 1, ids, errs);
                        if !errs.is_empty() {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn ord_key(k: K, r: &Rec) -> String {
        format!("{k:?}/{}/{}", r.get("data_type").cloned().unwrap_or_default(), r.get("order").cloned().unwrap_or_default())
    }
}

fn some(f: &Rec) -> BTreeMap<String, Option<String>> {
    f.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect()
}

fn list_field(r: &Rec, f: &str) -> Vec<J> {
    r.get(f).and_then(|x| serde_json::from_str(x).ok()).unwrap_or_default()
}

fn set_list(r: &mut Rec, f: &str, v: Vec<J>) {
    if v.is_empty() {
        r.remove(f);
    } else {
        r.insert(f.to_string(), J::from(v).to_string());
    }
}

fn vals_str(v: &[(u64, i64)]) -> String {
    let mut o: Vec<String> = v.iter().map(|(k, v)| format!("{k}={v}")).collect();
    o.sort();
    o.join(",")
}

pub fn group_str(id: u64, v: &[(u64, i64)]) -> String {
    format!("{id}:{}", vals_str(v))
}

/// states the model may be in after the entry; empty if the entry does not fit here
pub fn step(s: &State, e: &Entry) -> Vec<State> {
    let same = || vec![s.clone()];
    let fits = |b: bool| if b { vec![s.clone()] } else { vec![] };
    let err_in = |errs: &[E]| match &e.res {
        Res::Err(x) => fits(errs.contains(x)),
        Res::Pending => same(),
        _ => vec![],
    };
    match &e.m {
        M::Create { k, f } => {
            let mut errs = vec![];
            if *k == K::CEv {
                let empty = "[]".to_string();
                let ev = f.get("events").unwrap_or(&empty);
                if ev == "[]" {
                    errs.push(E::Bad);
                }
                s.validate(ev, 0, &mut vec![], &mut errs);
            }
            if s.conflicts(*k, None, &some(f)) {
                errs.push(E::Exists);
            }
            let owner: u64 = f.get("created_by").and_then(|x| x.parse().ok()).unwrap_or(0);
            if *k == K::Org && !s.ents.contains_key(&(K::Acc, owner)) {
                errs.push(E::NotFound);
            }
            if *k == K::Bk && f.get("status").map(|x| x == "\"Idle\"").unwrap_or(false)
                && s.ents.iter().any(|((ek, _), r)| *ek == K::Bk && r.get("status").map(|x| x == "\"Idle\"").unwrap_or(false))
            {
                errs.push(E::Exists);
            }
            if !errs.is_empty() {
                return err_in(&errs);
            }
            let apply = |id: u64, seen: &Rec, exact: bool| -> Option<State> {
                if s.used.contains(&(*k, id)) {
                    return None;
                }
                let mut want = f.clone();
                if *k == K::Org {
                    set_list(&mut want, "members", vec![serde_json::json!([owner, "Owner"])]);
                }
                if k.is_prop() {
                    want.insert("order".into(), seen.get("order").cloned().unwrap_or_default());
                }
                if exact && want != *seen {
                    return None;
                }
                let mut n = s.clone();
                if k.is_prop() && !n.kv.insert(State::ord_key(*k, &want), String::new()).is_none() {
                    return None;
                }
                if *k == K::Org {
                    let a = n.ents.get_mut(&(K::Acc, owner))?;
                    let mut l = list_field(a, "organizations");
                    l.push(serde_json::json!([id, "Owner"]));
                    set_list(a, "organizations", l);
                }
                n.ents.insert((*k, id), want);
                n.used.insert((*k, id));
                Some(n)
            };
            match &e.res {
                Res::Ent(id, r) => apply(*id, r, true).into_iter().collect(),
                Res::Pending => e.cand.iter().filter_map(|(id, r)| apply(*id, r, false)).collect(),
                _ => vec![],
            }
        }
        M::Update { k, id, f } => {
            let Some(old) = s.ents.get(&(*k, *id)) else {
                return err_in(&[E::NotFound]);
            };
            let mut errs = vec![];
            if s.conflicts(*k, Some(*id), f) {
                errs.push(E::Exists);
            }
            if *k == K::CEv && f.contains_key("events") {
                let empty = "[]".to_string();
                let ev = f["events"].as_ref().unwrap_or(&empty);
                if ev == "[]" {
                    errs.push(E::Bad);
                }
                s.validate(ev, 0, &mut vec![*id], &mut errs);
            }
            if !errs.is_empty() {
                return err_in(&errs);
            }
            let mut new = old.clone();
            for (k, v) in f {
                match v {
                    Some(v) => new.insert(k.clone(), v.clone()),
                    None => new.remove(k),
                };
            }
            let ok = match &e.res {
                Res::Ent(i, r) => i == id && *r == new,
                Res::Unit | Res::Pending => true,
                _ => false,
            };
            if !ok {
                return vec![];
            }
            let mut n = s.clone();
            n.ents.insert((*k, *id), new);
            vec![n]
        }
        M::Delete { k, id } => {
            let Some(old) = s.ents.get(&(*k, *id)) else {
                return err_in(&[E::NotFound]);
            };
            let ok = match &e.res {
                Res::Ent(i, r) => i == id && r == old,
                Res::Unit | Res::Pending => true,
                _ => false,
            };
            if !ok {
                return vec![];
            }
            let mut n = s.clone();
            n.ents.remove(&(*k, *id));
            vec![n]
        }
        M::Get { k, id } => match (&e.res, s.ents.get(&(*k, *id))) {
            (Res::Ent(i, r), Some(x)) => fits(i == id && r == x),
            (Res::Err(E::NotFound), None) => same(),
            _ => vec![],
        },
        M::Idx { k, field, v } => {
            let v = J::from(v.as_str()).to_string();
            let hit = s.ents.iter().find(|((ek, _), r)| ek == k && r.get(*field) == Some(&v)).map(|x| x.0 .1);
            match &e.res {
                Res::Id(x) => fits(*x == hit),
                _ => vec![],
            }
        }
        M::List { k } => match &e.res {
            Res::List(l) => {
                let mut n = 0;
                for ((ek, id), r) in &s.ents {
                    if ek == k {
                        n += 1;
                        if !l.iter().any(|(i, x)| i == id && x == r) {
                            return vec![];
                        }
                    }
                }
                fits(n == l.len())
            }
            _ => vec![],
        },
        M::Mem { how, org, acc, role } => {
            let mut errs = vec![];
            let o = s.ents.get(&(K::Org, *org));
            let a = s.ents.get(&(K::Acc, *acc));
            let in_org = o.map(|r| list_field(r, "members").iter().any(|m| m[0] == J::from(*acc))).unwrap_or(false);
            let in_acc = a.map(|r| list_field(r, "organizations").iter().any(|m| m[0] == J::from(*org))).unwrap_or(false);
            if o.is_none() {
                errs.push(E::NotFound);
            } else if *how == 0 {
                if in_org || in_acc {
                    errs.push(E::Exists);
                }
                if a.is_none() {
                    errs.push(E::NotFound);
                }
            } else if !in_org || !in_acc {
                errs.push(E::NotFound);
            }
            if !errs.is_empty() {
                return err_in(&errs);
            }
            if !matches!(e.res, Res::Unit | Res::Pending) {
                return vec![];
            }
            let mut n = s.clone();
            for (key, field, other) in [((K::Org, *org), "members", *acc), ((K::Acc, *acc), "organizations", *org)] {
                let r = n.ents.get_mut(&key).unwrap();
                let mut l = list_field(r, field);
                match how {
                    0 => l.push(serde_json::json!([other, role])),
                    1 => l.retain(|m| m[0] != J::from(other)),
                    _ => {
                        for m in l.iter_mut() {
                            if m[0] == J::from(other) {
                                m[1] = J::from(role.as_str());
                            }
                        }
                    }
                }
                set_list(r, field, l);
            }
            vec![n]
        }
        M::At { how, id, p } => {
            let Some(old) = s.ents.get(&(K::Ev, *id)) else {
                return err_in(&[E::NotFound]);
            };
            let field = if matches!(how, 1 | 3) { "user_properties" } else { "event_properties" };
            let mut l = list_field(old, field);
            let has = |l: &[J], p: u64| l.contains(&J::from(p));
            match how {
                0 | 1 => {
                    if has(&l, p[0]) {
                        return err_in(&[E::Exists]);
                    }
                    l.push(J::from(p[0]));
                }
                2 | 3 => {
                    if !has(&l, p[0]) {
                        return err_in(&[E::NotFound, E::Exists]);
                    }
                    l.retain(|x| *x != J::from(p[0]));
                }
                _ => {
                    for x in p {
                        if !has(&l, *x) {
                            l.push(J::from(*x));
                        }
                    }
                }
            }
            let mut new = old.clone();
            set_list(&mut new, field, l);
            let ok = match &e.res {
                Res::Ent(i, r) => i == id && *r == new,
                Res::Unit | Res::Pending => true,
                _ => false,
            };
            if !ok {
                return vec![];
            }
            let mut n = s.clone();
            n.ents.insert((K::Ev, *id), new);
            vec![n]
        }
        M::Inc { id } => {
            let Some(old) = s.ents.get(&(K::Proj, *id)) else {
                return err_in(&[E::NotFound]);
            };
            if !matches!(e.res, Res::Unit | Res::Pending) {
                return vec![];
            }
            let mut new = old.clone();
            let c: u64 = new.get("events_count").and_then(|x| x.parse().ok()).unwrap_or(0) + 1;
            new.insert("events_count".into(), c.to_string());
            let mut n = s.clone();
            n.ents.insert((K::Proj, *id), new);
            vec![n]
        }
        M::Seq => {
            let mut n = s.clone();
            match &e.res {
                Res::Num(x) if *x > s.n => {
                    n.n = *x;
                    vec![n]
                }
                _ => vec![],
            }
        }
        M::Dict { v, create } => match (s.kv.get(v), &e.res) {
            (Some(k), Res::Num(x)) => fits(*k == x.to_string()),
            (Some(_), Res::Pending) => same(),
            (None, Res::Num(x)) if *create && !s.ids.contains(x) => {
                let mut n = s.clone();
                n.ids.insert(*x);
                n.kv.insert(v.clone(), x.to_string());
                vec![n]
            }
            (None, Res::Pending) if *create => e
                .cand
                .iter()
                .filter(|(x, _)| !s.ids.contains(x))
                .map(|(x, _)| {
                    let mut n = s.clone();
                    n.ids.insert(*x);
                    n.kv.insert(v.clone(), x.to_string());
                    n
                })
                .collect(),
            (None, Res::Err(E::NotFound)) if !*create => same(),
            _ => vec![],
        },
        M::DictV { key } => {
            let hit = s.kv.iter().find(|(_, k)| **k == key.to_string()).map(|x| x.0.clone());
            match &e.res {
                Res::Text(t) => fits(*t == hit),
                _ => vec![],
            }
        }
        M::Anon { a } => {
            let key = format!("a/{a}");
            match (s.kv.get(&key), &e.res) {
                (Some(k), Res::Num(x)) => fits(*k == x.to_string()),
                (Some(_), Res::Pending) => same(),
                (None, Res::Num(x)) if !s.ids.contains(x) => {
                    let mut n = s.clone();
                    n.ids.insert(*x);
                    n.kv.insert(key, x.to_string());
                    vec![n]
                }
                (None, Res::Pending) => e
                    .cand
                    .iter()
                    .filter(|(x, _)| !s.ids.contains(x))
                    .map(|(x, _)| {
                        let mut n = s.clone();
                        n.ids.insert(*x);
                        n.kv.insert(key.clone(), x.to_string());
                        n
                    })
                    .collect(),
                _ => vec![],
            }
        }
        M::Merge { a, r, vals } => {
            let (ak, rk) = (format!("a/{a}"), format!("r/{r}"));
            if let Some(cur) = s.kv.get(&rk) {
                return match &e.res {
                    Res::Text(Some(t)) => fits(t == cur),
                    Res::Pending => same(),
                    _ => vec![],
                };
            }
            let ids: Vec<u64> = match (s.kv.get(&ak), &e.res) {
                (Some(x), _) => vec![x.parse().unwrap()],
                (None, Res::Text(Some(t))) => t.split(':').next().and_then(|x| x.parse().ok()).into_iter().filter(|x| !s.ids.contains(x)).collect(),
                (None, _) => e.cand.iter().map(|x| x.0).filter(|x| !s.ids.contains(x)).collect(),
            };
            let mut out = vec![];
            for id in ids {
                let val = group_str(id, vals);
                if let Res::Text(t) = &e.res {
                    if t.as_ref() != Some(&val) {
                        continue;
                    }
                } else if !matches!(e.res, Res::Pending) {
                    continue;
                }
                let mut n = s.clone();
                n.ids.insert(id);
                n.kv.insert(ak.clone(), id.to_string());
                n.kv.insert(rk.clone(), val);
                out.push(n);
            }
            out
        }
        M::Real { r, vals, upd } => {
            let rk = format!("r/{r}");
            if let Some(cur) = s.kv.get(&rk) {
                let id: u64 = cur.split(':').next().unwrap().parse().unwrap();
                let mut m: BTreeMap<u64, i64> = cur
                    .split(':')
                    .nth(1)
                    .unwrap()
                    .split(',')
                    .filter_map(|x| x.split_once('='))
                    .map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))
                    .collect();
                if *upd {
                    for (k, v) in vals {
                        m.insert(*k, *v);
                    }
                }
                let new = group_str(id, &m.into_iter().collect::<Vec<_>>());
                match &e.res {
                    Res::Text(t) if t.as_ref() != Some(&new) => return vec![],
                    Res::Text(_) | Res::Pending => {}
                    _ => return vec![],
                }
                let mut n = s.clone();
                n.kv.insert(rk, new);
                return vec![n];
            }
            let ids: Vec<u64> = match &e.res {
                Res::Text(Some(t)) => t.split(':').next().and_then(|x| x.parse().ok()).into_iter().collect(),
                _ => e.cand.iter().map(|x| x.0).collect(),
            };
            let mut out = vec![];
            for id in ids {
                if s.ids.contains(&id) {
                    continue;
                }
                let val = group_str(id, vals);
                match &e.res {
                    Res::Text(t) if t.as_ref() == Some(&val) => {}
                    Res::Pending => {}
                    _ => continue,
                }
                let mut n = s.clone();
                n.ids.insert(id);
                n.kv.insert(rk.clone(), val);
                out.push(n);
            }
            out
        }
        M::GName { name, display } => {
            if let Some(cur) = s.kv.get(name) {
                return match &e.res {
                    Res::Text(t) => fits(t.as_ref() == Some(cur)),
                    Res::Pending => same(),
                    _ => vec![],
                };
            }
            if s.kv.len() >= 5 {
                return err_in(&[E::Bad]);
            }
            let ids: Vec<u64> = match &e.res {
                Res::Text(Some(t)) => t.split(':').next().and_then(|x| x.parse().ok()).into_iter().collect(),
                Res::Pending => (0..5).collect(),
                _ => vec![],
            };
            let mut out = vec![];
            for id in ids {
                if id >= 5 || s.ids.contains(&id) {
                    continue;
                }
                let val = format!("{id}:{name}:{display}");
                if let Res::Text(t) = &e.res {
                    if t.as_ref() != Some(&val) {
                        continue;
                    }
                }
                let mut n = s.clone();
                n.ids.insert(id);
                n.kv.insert(name.clone(), val);
                out.push(n);
            }
            out
        }
        M::GList => {
            let mut l: Vec<String> = s.kv.values().cloned().collect();
            l.sort();
            match &e.res {
                Res::Text(Some(t)) => fits(*t == l.join("|")),
                _ => vec![],
            }
        }
        M::SSet { u, t } => {
            let key = u.to_string();
            let is_new = !s.kv.contains_key(&key);
            match &e.res {
                Res::Flag(b) if *b != is_new => return vec![],
                Res::Flag(_) | Res::Pending => {}
                _ => return vec![],
            }
            let mut n = s.clone();
            n.kv.insert(key, t.to_string());
            vec![n]
        }
        M::SGet { u } => match (&e.res, s.kv.get(&u.to_string())) {
            (Res::Text(Some(t)), Some(x)) => fits(t == x),
            (Res::Text(None), None) => same(),
            _ => vec![],
        },
        M::SExpire { u, t } => {
            if s.kv.get(&u.to_string()) != Some(&t.to_string()) {
                return vec![];
            }
            let mut n = s.clone();
            n.kv.remove(&u.to_string());
            vec![n]
        }
        M::SDrop { u } => {
            let mut n = s.clone();
            n.kv.remove(&u.to_string());
            vec![n]
        }
        M::Save { v } => match (&e.res, v.starts_with('!')) {
            // not usable
            (Res::Err(E::Bad) | Res::Pending, true) => same(),
            (Res::Unit | Res::Pending, false) => {
                let mut n = s.clone();
                n.kv.insert("settings".into(), v.clone());
                vec![n]
            }
            _ => vec![],
        },
        M::Load => match &e.res {
            Res::Text(t) => fits(t.as_ref() == s.kv.get("settings")),
            Res::Err(E::NotFound) => fits(s.kv.is_empty()),
            _ => vec![],
        },
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Client {
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Life {
    pub ops_setup: Vec<Op>,
    pub ops_clients: Vec<Client>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub variant: String,
    pub lives: Vec<Life>,
    /// tags make every create and update recognisable
    pub opti: bool,
}
