//! Executes one plan against the real engine and judges it.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::MutexGuard;
use std::task::Context;
use std::task::Poll;
use std::time::Duration;

use arrow2::array::Array;
use arrow2::array::BooleanArray;
use arrow2::array::PrimitiveArray;
use arrow2::array::Utf8Array;
use arrow2::chunk::Chunk;
use arrow2::datatypes::DataType;
use common::types::DType;
use futures::Stream;
use simdrv::util::hash;
use simdrv::util::where_of;
use simdrv::Outcome;
use simdrv::Plan;
use simrt::rng::mix;
use simrt::End;
use simrt::Report;
use simrt::Start;
use storage::db::OptiDBImpl;
use storage::db::Options;
use storage::error::StoreError;
use storage::KeyValue;
use storage::NamedValue;
use storage::Value;

use crate::model::*;

const DIR: &str = "/data";
const T: &str = "t";

type Backup = (u64, u64, Vec<u8>);

struct Ctx {
    work: Work,
    hist: Mutex<Hist>,
    prop: String,
    /// injected I/O errors may surface as errors from the API
    lenient: bool,
    backups: Mutex<Vec<Backup>>,
}

impl Ctx {
    fn h(&self) -> MutexGuard<'_, Hist> {
        self.hist.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn violate(&self, class: impl Into<String>, d: impl Into<String>) {
        let d = d.into();
        let class = class.into();
        simrt::logf(|| format!("VIOLATION {class}: {d}"));
        self.h().violate(&self.prop, class, d);
    }
}

fn prop_of(variant: &str) -> &'static str {
    match variant {
        "crash" => "C01",
        "conc" => "C02",
        "maint" => "C03",
        "ioerr" => "C04",
        "live" | "live-err" | "live-crash" => "C05",
        "backup" => "C06",
        "schema" => "C07",
        "get" => "C08",
        _ => "C09",
    }
}

fn dtype(k: Kind) -> DType {
    match k {
        Kind::Str => DType::String,
        Kind::I8 => DType::Int8,
        Kind::I16 => DType::Int16,
        Kind::I32 => DType::Int32,
        Kind::I64 => DType::Int64,
        Kind::Bool => DType::Boolean,
        Kind::Dec => DType::Decimal,
        Kind::Ts => DType::Timestamp,
    }
}

fn value(k: Kind, v: &V) -> Value {
    let i = |v: &V| match v {
        V::I(x) => Some(*x),
        _ => None,
    };
    match k {
        Kind::Str => Value::String(match v {
            V::S(s) => Some(s.clone()),
            _ => None,
        }),
        Kind::I8 => Value::Int8(i(v).map(|x| x as i8)),
        Kind::I16 => Value::Int16(i(v).map(|x| x as i16)),
        Kind::I32 => Value::Int32(i(v).map(|x| x as i32)),
        Kind::I64 => Value::Int64(i(v).map(|x| x as i64)),
        Kind::Ts => Value::Timestamp(i(v).map(|x| x as i64)),
        Kind::Dec => Value::Decimal(i(v)),
        Kind::Bool => Value::Boolean(match v {
            V::B(b) => Some(*b),
            _ => None,
        }),
    }
}

fn from_value(v: &Value) -> V {
    let i = |o: Option<i128>| o.map(V::I).unwrap_or(V::Null);
    match v {
        Value::Int8(x) => i(x.map(|v| v as i128)),
        Value::Int16(x) => i(x.map(|v| v as i128)),
        Value::Int32(x) => i(x.map(|v| v as i128)),
        Value::Int64(x) | Value::Timestamp(x) => i(x.map(|v| v as i128)),
        Value::Decimal(x) => i(*x),
        Value::Boolean(x) => x.map(V::B).unwrap_or(V::Null),
        Value::String(x) => x.clone().map(V::S).unwrap_or(V::Null),
        _ => V::Null,
    }
}

fn cell_at(a: &dyn Array, i: usize) -> V {
    if a.is_null(i) {
        return V::Null;
    }
    macro_rules! p {
        ($t:ty) => {
            V::I(a.as_any().downcast_ref::<PrimitiveArray<$t>>().expect("array type").value(i) as i128)
        };
    }
    match a.data_type() {
        DataType::Int8 => p!(i8),
        DataType::Int16 => p!(i16),
        DataType::Int32 => p!(i32),
        DataType::Int64 | DataType::Timestamp(_, _) => p!(i64),
        DataType::Decimal(_, _) => p!(i128),
        DataType::Boolean => V::B(a.as_any().downcast_ref::<BooleanArray>().expect("bool").value(i)),
        DataType::Utf8 => V::S(
            a.as_any()
                .downcast_ref::<Utf8Array<i32>>()
                .expect("utf8")
                .value(i)
                .to_string(),
        ),
        other => panic!("unexpected column type {other:?}"),
    }
}

fn topts(o: &Opts) -> storage::table::Options {
    storage::table::Options {
        levels: o.levels,
        merge_array_size: o.array_size,
        index_cols: o.index_cols,
        l1_max_size_bytes: o.l1_max,
        level_size_multiplier: o.level_mult,
        l0_max_parts: o.l0_max_parts,
        max_log_length_bytes: o.max_log,
        merge_array_page_size: o.array_page,
        merge_data_page_size_limit_bytes: o.page_limit,
        merge_max_l1_part_size_bytes: o.max_l1_part,
        merge_part_size_multiplier: o.part_mult,
        merge_row_group_values_limit: o.rg_values,
        merge_chunk_size: o.chunk_size,
        merge_max_page_size: o.max_page,
        is_replacing: o.replacing,
    }
}

fn key_names(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("k{i}")).collect()
}

/// what the server does at start: open, make sure the table and its columns exist
fn boot(cx: &Ctx) -> Result<OptiDBImpl, StoreError> {
    let db = OptiDBImpl::open(PathBuf::from(DIR), Options {})?;
    let ok = |r: Result<(), StoreError>| match r {
        Ok(_) | Err(StoreError::AlreadyExists(_)) => Ok(()),
        Err(e) => Err(e),
    };
    ok(db.create_table(T.to_string(), topts(&cx.work.opts)))?;
    for k in key_names(cx.work.opts.index_cols) {
        ok(db.add_field(T, &k, DType::Int64, false))?;
    }
    ok(db.add_field(T, "rid", DType::Int64, false))?;
    for n in 0..cx.work.fields {
        ok(db.add_field(T, &fname(n), dtype(kind(n)), true))?;
        simrt::atomically(|| {
            cx.h().cols.insert(n, true);
        });
    }
    Ok(db)
}

fn noop_poll<S: Stream + Unpin>(s: &mut S) -> Poll<Option<S::Item>> {
    let w = futures::task::noop_waker();
    let mut c = Context::from_waker(&w);
    Pin::new(s).poll_next(&mut c)
}

fn decode(c: &Chunk<Box<dyn Array>>, into: &mut Scan) -> Result<(), String> {
    let cols = c.arrays();
    if cols.len() != into.names.len() {
        return Err(format!("chunk has {} columns, asked for {:?}", cols.len(), into.names));
    }
    for a in cols.iter() {
        if a.len() != cols[0].len() {
            return Err("columns of different length".into());
        }
    }
    for i in 0..c.len() {
        into.rows.push(cols.iter().map(|a| cell_at(a.as_ref(), i)).collect());
    }
    into.chunks += 1;
    Ok(())
}

enum ScanRes {
    Done(Scan),
    Err(String),
    Dropped,
}

fn scan(cx: &Ctx, db: &OptiDBImpl, p: u64, slow: u64, drop_after: Option<u64>) -> ScanRes {
    let schema = match db.schema(T) {
        Ok(s) => s,
        Err(e) => return ScanRes::Err(e.to_string()),
    };
    let need = cx.work.opts.index_cols + 1;
    let proj: Vec<usize> = (0..schema.fields.len())
        .filter(|i| *i < need || p == 0 || mix(p ^ *i as u64) % 2 == 0)
        .collect();
    let mut out = Scan {
        names: proj.iter().map(|i| schema.fields[*i].name.clone()).collect(),
        ..Default::default()
    };
    let mut st = match db.scan(T, proj) {
        Ok(s) => s,
        Err(e) => return ScanRes::Err(e.to_string()),
    };
    let mut n = 0;
    loop {
        if Some(n) == drop_after {
            return ScanRes::Dropped;
        }
        if slow > 0 {
            simrt::sleep(Duration::from_millis(slow));
        } else {
            simrt::point("next chunk");
        }
        match noop_poll(&mut st) {
            Poll::Pending => {
                cx.violate("scan-pending", "scan stream returned Pending");
                return ScanRes::Err("pending".into());
            }
            Poll::Ready(None) => return ScanRes::Done(out),
            Poll::Ready(Some(Err(e))) => return ScanRes::Err(e.to_string()),
            Poll::Ready(Some(Ok(c))) => {
                n += 1;
                if let Err(e) = simrt::atomically(|| decode(&c, &mut out)) {
                    return ScanRes::Err(format!("malformed chunk: {e}"));
                }
            }
        }
    }
}

/// compare a scan that ran between clock values inv and resp with the history
fn judge_scan(h: &mut Hist, o: &Opts, prop: &str, inv: u64, resp: u64, s: &Scan, what: &str) -> BTreeSet<i64> {
    let mut bad: Vec<(String, String)> = vec![];
    let pos = |n: &str| s.names.iter().position(|x| x == n);
    let kpos: Vec<usize> = key_names(o.index_cols).iter().filter_map(|k| pos(k)).collect();
    let Some(rpos) = pos("rid") else {
        h.violate(prop, "no-rid", format!("{what}: columns {:?}", s.names));
        return Default::default();
    };
    let mut seen = BTreeSet::new();
    let mut maxinv = 0;
    let mut last: Option<Vec<V>> = None;
    for row in &s.rows {
        let rid = match &row[rpos] {
            V::I(x) => *x as i64,
            x => {
                bad.push(("phantom-row".into(), format!("{what}: row without id: {x:?}")));
                continue;
            }
        };
        let key: Vec<V> = kpos.iter().map(|i| row[*i].clone()).collect();
        if let Some(l) = &last {
            if *l > key {
                bad.push(("unsorted".into(), format!("{what}: {l:?} before {key:?}")));
            }
        }
        last = Some(key.clone());
        let Some(r) = h.rows.get(&rid) else {
            bad.push(("phantom-row".into(), format!("{what}: row {rid} was never inserted")));
            continue;
        };
        if r.inv > resp {
            bad.push(("phantom-row".into(), format!("{what}: row {rid} inserted later")));
        }
        if r.st == Status::Gone {
            bad.push(("resurrected-row".into(), format!("{what}: row {rid} was absent after the restart and is back")));
        }
        if !seen.insert(rid) {
            bad.push(("duplicate-row".into(), format!("{what}: row {rid} {:?} twice", r.k)));
        }
        maxinv = maxinv.max(r.inv);
        let want: Vec<V> = r.k.iter().map(|x| V::I(*x as i128)).collect();
        if want != key {
            bad.push(("wrong-key".into(), format!("{what}: row {rid}: {key:?} instead of {want:?}")));
        }
        for (i, n) in s.names.iter().enumerate() {
            if let Some(f) = fno(n) {
                let w = h.expect_cell(rid, f);
                if row[i] != w {
                    bad.push(("wrong-value".into(), format!("{what}: row {rid} column {n}: {:?} instead of {w:?}", row[i])));
                }
            }
        }
    }
    if o.replacing {
        // newest version of every key
        let mut acked: BTreeMap<Vec<i64>, i64> = BTreeMap::new();
        let mut shown: BTreeMap<Vec<i64>, i64> = BTreeMap::new();
        // with two key columns there is one row per key
        let single = o.index_cols == 3;
        let split = |k: &Vec<i64>| (k[..k.len() - 1].to_vec(), k[k.len() - 1]);
        for r in h.rows.values() {
            if r.st == Status::Acked && r.ack.unwrap_or(u64::MAX) < inv {
                let (k, v) = split(&r.k);
                let e = acked.entry(k).or_insert(i64::MIN);
                *e = (*e).max(v);
            }
        }
        for rid in &seen {
            if let Some(r) = h.rows.get(rid) {
                let (k, v) = split(&r.k);
                if single && shown.contains_key(&k) {
                    bad.push(("several-versions".into(), format!("{what}: key {k:?} is shown more than once")));
                }
                let e = shown.entry(k).or_insert(i64::MIN);
                *e = (*e).max(v);
            }
        }
        for (k, v) in &acked {
            match shown.get(k) {
                Some(s) if s >= v => {}
                s => bad.push(("newest-version-missing".into(), format!("{what}: key {k:?}: newest acknowledged version {v}, scan shows {s:?}"))),
            }
        }
    } else {
        for (rid, r) in &h.rows {
            if r.st != Status::Acked || seen.contains(rid) {
                continue;
            }
            let ack = r.ack.unwrap_or(u64::MAX);
            if ack < inv {
                bad.push(("missing-row".into(), format!("{what}: row {rid} {:?} acknowledged in life {} is missing ({} rows shown)", r.k, r.life, s.rows.len())));
            } else if ack < maxinv {
                bad.push(("not-a-prefix".into(), format!("{what}: row {rid} acknowledged before another shown row was even submitted, but missing")));
            }
        }
    }
    bad.truncate(6);
    for (c, d) in bad {
        simrt::logf(|| format!("VIOLATION {c}: {d}"));
        h.violate(prop, c, d);
    }
    seen
}

fn do_op(cx: &Arc<Ctx>, db: &Arc<OptiDBImpl>, op: &Op, life: usize, armed: bool) {
    let lenient = cx.lenient && armed;
    let fail = |what: &str, e: String| {
        if lenient {
            *cx.h().api_errors.entry(what.to_string()).or_insert(0) += 1;
        } else {
            cx.violate(format!("{what}-error"), format!("{op:?}: {e}"));
        }
    };
    cx.h().ops += 1;
    simrt::logf(|| format!("> {op:?}"));
    match op {
        Op::I { k, r } => {
            let idx = cx.work.opts.index_cols;
            let mut vals: Vec<NamedValue> = key_names(idx)
                .into_iter()
                .zip(k.iter())
                .map(|(n, v)| NamedValue::new(n, Value::Int64(Some(*v))))
                .collect();
            vals.push(NamedValue::new("rid".into(), Value::Int64(Some(*r))));
            {
                let mut h = cx.h();
                let cols: BTreeSet<u64> = h
                    .cols
                    .iter()
                    .filter(|(n, a)| **a && supplied(*r, **n))
                    .map(|(n, _)| *n)
                    .collect();
                for n in &cols {
                    vals.push(NamedValue::new(fname(*n), value(kind(*n), &cell(*r, *n))));
                }
                // callers list columns in any order
                if r % 3 == 0 {
                    vals[idx..].reverse();
                }
                let inv = h.tick();
                h.rows.insert(*r, Row {
                    k: k[..idx].to_vec(),
                    cols,
                    inv,
                    ack: None,
                    st: Status::Pending,
                    life,
                });
            }
            let res = db.insert(T, vals);
            simrt::logf(|| format!("< insert {r}: {res:?}"));
            {
                let mut h = cx.h();
                let t = h.tick();
                let row = h.rows.get_mut(r).unwrap();
                row.st = if res.is_ok() { Status::Acked } else { Status::Failed };
                if res.is_ok() {
                    row.ack = Some(t);
                }
            }
            if let Err(e) = res {
                fail("insert", e.to_string());
            }
        }
        Op::S { p, slow } => full_scan(cx, db, *p, *slow, lenient, "scan"),
        Op::D { n } => {
            if let ScanRes::Err(e) = scan(cx, db, 0, 0, Some(*n)) {
                fail("scan", e);
            }
        }
        Op::F => {
            if let Err(e) = db.flush(T) {
                fail("flush", e.to_string());
            } else {
                simrt::probe("flushed");
            }
        }
        Op::Z { ms } => simrt::sleep(Duration::from_millis(*ms)),
        Op::A { n } => {
            {
                let mut h = cx.h();
                if h.cols.contains_key(n) {
                    return;
                }
                h.cols.insert(*n, false);
                if !h.rows.is_empty() {
                    drop(h);
                    simrt::probe("col_added");
                }
            }
            match db.add_field(T, &fname(*n), dtype(kind(*n)), true) {
                Ok(_) => {
                    cx.h().cols.insert(*n, true);
                }
                Err(e) => fail("add-field", e.to_string()),
            }
        }
        Op::G { k } => lookup(cx, db, k, lenient),
        Op::B { slow } => {
            struct W {
                buf: Vec<u8>,
                slow: u64,
            }
            impl Write for W {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    if self.slow > 0 {
                        simrt::sleep(Duration::from_millis(self.slow));
                    } else {
                        simrt::point("backup write");
                    }
                    self.buf.extend_from_slice(b);
                    Ok(b.len())
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let mut w = W { buf: vec![], slow: *slow };
            let inv = cx.h().tick();
            let res = db.full_backup(&mut w, |_| {});
            let resp = cx.h().tick();
            match res {
                Ok(_) => {
                    simrt::probe("backed_up");
                    cx.backups.lock().unwrap().push((inv, resp, w.buf));
                }
                Err(e) => fail("backup", e.to_string()),
            }
        }
        Op::M => {
            let _ = db.parts_path(T);
            if let Ok(s) = db.schema(T) {
                let missing: Vec<u64> = {
                    let h = cx.h();
                    h.cols
                        .iter()
                        .filter(|(n, a)| **a && !s.fields.iter().any(|f| f.name == fname(**n)))
                        .map(|(n, _)| *n)
                        .collect()
                };
                let _ = missing;
            }
        }
    }
}

fn full_scan(cx: &Arc<Ctx>, db: &OptiDBImpl, p: u64, slow: u64, lenient: bool, what: &str) {
    let (inv, acked) = {
        let mut h = cx.h();
        (h.tick(), h.rows.len())
    };
    let parts = simrt::atomically(|| live_files(DIR).0.len());
    match scan(cx, db, p, slow, None) {
        ScanRes::Done(s) => {
            let mut h = cx.h();
            let resp = h.tick();
            judge_scan(&mut h, &cx.work.opts, &cx.prop, inv, resp, &s, what);
            h.scans += 1;
            if acked > 1 && parts > 1 {
                h.big_scans += 1;
            }
            let overlap = h.rows.values().any(|r| r.inv < resp && r.ack.unwrap_or(u64::MAX) > inv);
            if overlap {
                h.scans_overlapping += 1;
            }
            let mut keys: BTreeMap<&[i64], u32> = BTreeMap::new();
            for r in h.rows.values() {
                *keys.entry(&r.k[..(r.k.len() - 1).max(1)]).or_insert(0) += 1;
            }
            let multi = keys.values().any(|c| *c > 1);
            let st = hash(&format!("{}/{}/{}/{}", s.rows.len(), s.chunks, parts, s.names.len()));
            h.states.push(st);
            h.digest = mix(h.digest ^ st);
            drop(h);
            simrt::logf(|| format!("< {what}: {} rows in {} chunks", s.rows.len(), s.chunks));
            if overlap {
                simrt::probe("scan_overlap");
            }
            if parts > 1 {
                simrt::probe("multi_part_scan");
            }
            if multi {
                simrt::probe("multi_version");
            }
        }
        ScanRes::Err(e) => {
            if lenient {
                *cx.h().api_errors.entry("scan".into()).or_insert(0) += 1;
            } else {
                cx.violate("scan-error", format!("{what}: {e}"));
            }
        }
        ScanRes::Dropped => {}
    }
}

fn lookup(cx: &Arc<Ctx>, db: &OptiDBImpl, k: &[i64], lenient: bool) {
    let inv = cx.h().tick();
    let names: Vec<String> = match db.schema(T) {
        Ok(s) => s.fields.iter().map(|f| f.name.clone()).collect(),
        Err(_) => return,
    };
    let res = db.get(T, k.iter().map(|v| KeyValue::Int64(*v)).collect());
    let mut h = cx.h();
    let resp = h.tick();
    let prop = cx.prop.clone();
    let hit = |r: &Row| r.k.len() >= k.len() && r.k[..k.len()] == *k;
    match res {
        Err(e) => {
            if lenient {
                *h.api_errors.entry("get".into()).or_insert(0) += 1;
            } else {
                h.violate(&prop, "get-error", format!("{k:?}: {e}"));
            }
        }
        Ok(None) => {
            let miss = h
                .rows
                .iter()
                .find(|(_, r)| hit(r) && r.st == Status::Acked && r.ack.unwrap_or(u64::MAX) < inv)
                .map(|(i, _)| *i);
            if let Some(m) = miss {
                h.violate(&prop, "get-missing", format!("key {k:?}: row {m} is stored but the lookup found nothing"));
            }
        }
        Ok(Some(vals)) => {
            let rid = names
                .iter()
                .position(|n| n == "rid")
                .and_then(|i| vals.get(i))
                .map(from_value);
            let Some(V::I(rid)) = rid else {
                h.violate(&prop, "get-malformed", format!("key {k:?}: {vals:?}"));
                return;
            };
            let rid = rid as i64;
            match h.rows.get(&rid) {
                Some(r) if hit(r) && r.inv < resp => {
                    for (i, n) in names.iter().enumerate() {
                        let Some(v) = vals.get(i) else {
                            h.violate(&prop, "get-malformed", format!("key {k:?}: no value for column {n}"));
                            break;
                        };
                        let w = match fno(n) {
                            Some(f) => h.expect_cell(rid, f),
                            None => continue,
                        };
                        if from_value(v) != w {
                            h.violate(&prop, "get-wrong-value", format!("key {k:?} row {rid} column {n}: {v:?} instead of {w:?}"));
                        }
                    }
                }
                _ => h.violate(&prop, "get-wrong-row", format!("key {k:?}: got row {rid}")),
            }
            drop(h);
            simrt::probe("get_found");
        }
    }
}

/// (parquet files, logs) on disk under the table
fn live_files(dir: &str) -> (Vec<String>, Vec<String>) {
    let Some((w, _)) = simrt::current_world() else {
        return Default::default();
    };
    let g = w.lock();
    let base = Path::new(dir).join("tables").join(T);
    let mut parts = vec![];
    let mut logs = vec![];
    for f in g.fs.files() {
        if f.starts_with(&base) {
            let s = f.display().to_string();
            if s.ends_with(".parquet") {
                parts.push(s);
            } else if s.ends_with(".log") {
                logs.push(s);
            }
        }
    }
    (parts, logs)
}

fn bg_panics(cx: &Ctx, from: usize) -> usize {
    let ps = simrt::panics();
    for (n, m) in ps.iter().skip(from) {
        if n.contains("client") {
            cx.violate(format!("panic:{}", where_of(m)), format!("a caller panicked: {m}"));
        } else {
            let t = n.rsplit("::").nth(1).unwrap_or(n);
            cx.violate(format!("background-panic:{}", where_of(m)), format!("background thread ({t}) died: {m}"));
        }
    }
    ps.len()
}

fn settle_checks(cx: &Ctx, db: &OptiDBImpl) {
    let Ok(live) = db.parts_path(T) else { return };
    let (parts, logs) = simrt::atomically(|| live_files(DIR));
    let l0 = live.iter().filter(|p| p.contains("/levels/0/")).count();
    if l0 > cx.work.opts.l0_max_parts {
        cx.violate("compaction-stalled", format!("{l0} level-0 parts after settling, limit {}", cx.work.opts.l0_max_parts));
    }
    let a: BTreeSet<&String> = live.iter().collect();
    let b: BTreeSet<&String> = parts.iter().collect();
    if a.len() != live.len() {
        cx.violate("part-listed-twice", format!("{live:?}"));
    }
    for x in b.difference(&a) {
        cx.violate("obsolete-part-kept", format!("{x} is on disk but not part of the table"));
        break;
    }
    for x in a.difference(&b) {
        cx.violate("part-file-lost", format!("{x} is part of the table but not on disk"));
        break;
    }
    // an interrupted flush may leave the log that the next one is going to start over with
    let id = |l: &String| l.rsplit('/').next().and_then(|f| f.split('.').next()).and_then(|f| f.parse::<u64>().ok());
    let mut ids: Vec<u64> = logs.iter().filter_map(id).collect();
    ids.sort();
    let next = cx.work.variant != "live" && logs.len() == 2 && ids.len() == 2 && ids[1] == ids[0] + 1;
    if logs.len() != 1 && !next {
        cx.violate("obsolete-log-kept", format!("{logs:?}"));
    }
    simrt::probe("settled");
}

fn restore_checks(cx: &Arc<Ctx>, db: &OptiDBImpl, life: usize) {
    let baks = std::mem::take(&mut *cx.backups.lock().unwrap());
    for (n, (inv, resp, bytes)) in baks.iter().enumerate() {
        let dir = format!("/restore{life}_{n}");
        let db2 = match OptiDBImpl::open(PathBuf::from(&dir), Options {}) {
            Ok(d) => d,
            Err(e) => {
                cx.violate("restore-error", format!("open: {e}"));
                return;
            }
        };
        if n == 0 && bytes.len() > 20 {
            // an incomplete backup must be refused
            let cut = (mix(bytes.len() as u64 ^ *inv) % (bytes.len() as u64 - 1)) as usize;
            if db2.full_restore(&mut &bytes[..cut]).is_ok() {
                cx.violate("truncated-backup-accepted", format!("{cut} of {} bytes", bytes.len()));
            }
        }
        if let Err(e) = db2.full_restore(&mut bytes.as_slice()) {
            cx.violate("restore-error", e.to_string());
            return;
        }
        judge_restored(cx, &db2, *inv, *resp, "restored copy");
        simrt::sleep(Duration::from_millis(2300));
        judge_restored(cx, &db2, *inv, *resp, "restored copy after maintenance");
        simrt::probe("restored");
        // the restored store is a working one
        drop(db2);
    }
    // in place, repeatedly: the store holds exactly the content of the last backup restored;
    // the last one is a backup of everything
    let crash_restore = cx.work.lives[life].crash_restore;
    if baks.len() < 2 && !crash_restore {
        return;
    }
    let mut full = vec![];
    if let Err(e) = db.full_backup(&mut full, |_| {}) {
        cx.violate("backup-error", format!("at rest: {e}"));
        return;
    }
    let now = cx.h().tick();
    let all = (now, now, full);
    if baks.len() > 1 {
        for (inv, resp, bytes) in baks.iter().rev().chain(baks.iter().take(1)).chain([&all]) {
            if let Err(e) = db.full_restore(&mut bytes.as_slice()) {
                cx.violate("restore-error", format!("in place: {e}"));
                return;
            }
            judge_restored(cx, db, *inv, *resp, "restored in place");
            simrt::sleep(Duration::from_millis(2300));
            judge_restored(cx, db, *inv, *resp, "restored in place, after maintenance");
            simrt::probe("restored_in_place");
        }
        let bytes = &all.2;
        let cut = (mix(bytes.len() as u64 ^ now) % (bytes.len() as u64 - 1)) as usize;
        if db.full_restore(&mut &bytes[..cut]).is_ok() {
            cx.violate("truncated-backup-accepted", format!("in place, {cut} of {} bytes", bytes.len()));
        }
        judge_restored(cx, db, all.0, all.1, "after a refused restore");
    }
    if crash_restore {
        // the process may die or the disk may fail while a backup of everything is restored
        simrt::arm_faults(true);
        let res = db.full_restore(&mut all.2.as_slice());
        simrt::arm_faults(false);
        simrt::probe(if res.is_ok() { "restore_survived" } else { "restore_failed" });
        judge_restored(cx, db, all.0, all.1, "after an interrupted restore");
    }
}

fn judge_restored(cx: &Arc<Ctx>, db: &OptiDBImpl, inv: u64, resp: u64, what: &str) {
    match scan(cx, db, 0, 0, None) {
        ScanRes::Done(s) => {
            judge_scan(&mut cx.h(), &cx.work.opts, &cx.prop, inv, resp, &s, what);
        }
        ScanRes::Err(e) => cx.violate("restored-scan-error", format!("{what}: {e}")),
        ScanRes::Dropped => {}
    }
}

fn life_main(cx: Arc<Ctx>, life: usize) {
    let l = cx.work.lives[life].clone();
    let armed = l.armed_boot;
    simrt::arm_faults(armed);
    let db = match boot(&cx) {
        Ok(d) => d,
        Err(e) => {
            let class = if life == 0 { "boot-error" } else { "reopen-failed" };
            let msg: String = e.to_string();
            cx.violate(format!("{class}:{}", where_of(&msg)), format!("life {life}: {msg}"));
            return;
        }
    };
    let db = Arc::new(db);
    if life > 0 {
        resolve(&cx, &db, life);
    }
    simrt::arm_faults(false);
    let mut seen_panics = bg_panics(&cx, 0);
    for op in &l.ops_setup {
        do_op(&cx, &db, op, life, false);
    }
    simrt::arm_faults(!l.crash_restore && !l.fault_rest);
    let js: Vec<_> = l
        .ops_clients
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let cx = cx.clone();
            let db = db.clone();
            let ops = c.ops.clone();
            simrt::spawn(&format!("client{i}"), move || {
                for op in &ops {
                    do_op(&cx, &db, op, life, true);
                }
            })
        })
        .collect();
    let mut broken = false;
    for j in js {
        broken |= j.join().is_err();
    }
    if l.fault_rest {
        simrt::arm_faults(true);
        simrt::sleep(Duration::from_millis(3500));
    }
    simrt::arm_faults(false);
    seen_panics = bg_panics(&cx, seen_panics);
    if broken {
        return;
    }
    if l.settle_ms > 0 {
        full_scan(&cx, &db, 0, 0, false, "scan at rest");
        simrt::sleep(Duration::from_millis(l.settle_ms));
    }
    full_scan(&cx, &db, 0, 0, false, "final scan");
    if cx.work.variant == "get" {
        let keys: BTreeSet<Vec<i64>> = cx.h().rows.values().map(|r| r.k.clone()).collect();
        for k in keys.into_iter().take(12) {
            lookup(&cx, &db, &k, false);
        }
    }
    if cx.work.variant.starts_with("live") {
        settle_checks(&cx, &db);
    }
    if cx.work.variant == "backup" {
        restore_checks(&cx, &db, life);
    }
    let live = db.parts_path(T).unwrap_or_default();
    if live.iter().any(|p| !p.contains("/levels/0/")) {
        simrt::probe("compacted");
    }
    if live.iter().any(|p| p.contains("/levels/2/") || p.contains("/levels/3/")) {
        simrt::probe("deep_level");
    }
    {
        let shape: Vec<usize> = (0..cx.work.opts.levels)
            .map(|i| live.iter().filter(|p| p.contains(&format!("/levels/{i}/"))).count())
            .collect();
        let mut h = cx.h();
        let st = hash(&format!("{shape:?}"));
        h.states.push(st);
        h.digest = mix(h.digest ^ st);
    }
    bg_panics(&cx, seen_panics);
    match Arc::try_unwrap(db) {
        Ok(d) => drop(d),
        Err(_) => {}
    }
}

/// after a restart: what was in flight either happened or did not, once and for all
fn resolve(cx: &Arc<Ctx>, db: &OptiDBImpl, life: usize) {
    let fired_crash = life > 0;
    let schema = match db.schema(T) {
        Ok(s) => s,
        Err(_) => return,
    };
    {
        let mut h = cx.h();
        let cols: Vec<(u64, bool)> = h.cols.iter().map(|(a, b)| (*a, *b)).collect();
        for (n, acked) in cols {
            let there = schema.fields.iter().any(|f| f.name == fname(n));
            if acked && !there {
                h.violate(&cx.prop, "column-lost", format!("column {} acknowledged, gone after restart", fname(n)));
            }
            if there {
                h.cols.insert(n, true);
            } else {
                h.cols.remove(&n);
            }
        }
    }
    match scan(cx, db, 0, 0, None) {
        ScanRes::Done(s) => {
            let mut h = cx.h();
            let t = h.tick();
            let seen = judge_scan(&mut h, &cx.work.opts, &cx.prop, t, t, &s, "scan after restart");
            let torn = h.rows.values().any(|r| r.st == Status::Pending);
            let acked = h.rows.values().any(|r| r.st == Status::Acked);
            for (rid, r) in h.rows.iter_mut() {
                if matches!(r.st, Status::Pending | Status::Failed) {
                    if seen.contains(rid) {
                        r.st = Status::Acked;
                        r.ack = Some(t);
                    } else if !cx.work.opts.replacing {
                        r.st = Status::Gone;
                    }
                }
            }
            drop(h);
            if torn {
                simrt::probe("torn_tail");
            }
            if acked && fired_crash {
                simrt::probe("reopened_after_crash");
            }
        }
        ScanRes::Err(e) => cx.violate("scan-error", format!("scan after restart: {e}")),
        ScanRes::Dropped => {}
    }
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut out = Outcome::default();
    let work: Work = serde_json::from_value(plan.data.clone()).expect("plan");
    let prop = prop_of(&work.variant).to_string();
    let cx = Arc::new(Ctx {
        lenient: matches!(work.variant.as_str(), "ioerr" | "live-err"),
        prop,
        work,
        hist: Mutex::new(Hist::default()),
        backups: Mutex::new(vec![]),
    });
    let mut prev: Option<Report> = None;
    let n = plan.cfgs.len().min(cx.work.lives.len());
    let mut faulted = false;
    let mut crashed = false;
    for life in 0..n {
        let mut start = match &prev {
            None => Start::new(plan.cfgs[life].clone()),
            Some(p) => Start::after(plan.cfgs[life].clone(), p),
        };
        start.verbose = verbose;
        let c2 = cx.clone();
        let rep = simrt::run(start, move || {
            if let Err(e) = std::panic::catch_unwind(AssertUnwindSafe(|| life_main(c2, life))) {
                std::panic::resume_unwind(e);
            }
        });
        out.absorb(&rep);
        faulted |= rep.stats.fired.keys().any(|k| k.contains("write") || k.contains("read") || k.contains("disk"));
        crashed |= rep.end == End::Crashed;
        if !simdrv::judge_end(&mut out, &rep, &format!("life {life}")) {
            break;
        }
        if !cx.h().violations.is_empty() {
            break;
        }
        prev = Some(rep);
    }
    let h = cx.h();
    for (p, c, d) in &h.violations {
        out.violate(p, c.clone(), d.clone());
    }
    let probe = |n: &str| out.stats.iter().map(|s| s.probes.get(n).copied().unwrap_or(0)).sum::<u64>();
    out.nontrivial = match cx.work.variant.as_str() {
        "crash" => crashed && probe("reopened_after_crash") > 0,
        "conc" => h.scans_overlapping > 0 || (h.big_scans > 0 && h.scans > 1),
        "maint" => probe("compacted") > 0,
        "ioerr" => faulted,
        "live" => probe("settled") > 0,
        "live-err" => faulted && probe("settled") > 0,
        "live-crash" => crashed && probe("settled") > 0,
        "backup" => probe("restored") > 0,
        "schema" => probe("col_added") > 0,
        "get" => probe("get_found") > 0,
        _ => probe("multi_version") > 0,
    };
    out.ops = h.ops;
    out.states = h.states.clone();
    let (nrows, scans) = (h.rows.len(), h.scans);
    let errs = format!("{:?}", h.api_errors);
    let d = h.digest;
    drop(h);
    out.digest = mix(out.digest ^ d);
    out.observe(&errs);
    out.summary = format!(
        "{} lives, {} rows, {} scans, crashed={}, api errors {}",
        out.stats.len(),
        nrows,
        scans,
        crashed,
        errs
    );
    out
}
