//! Workload, history and reference model of one table.
use std::collections::BTreeMap;
use std::collections::BTreeSet;

use serde::Deserialize;
use serde::Serialize;
use simdrv::util::hash;
use simrt::rng::mix;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// insert row: key columns, unique row id
    I { k: Vec<i64>, r: i64 },
    /// full scan; `p` selects a projection (0 = all columns); slow readers pause between chunks
    S { p: u64, slow: u64 },
    /// start a scan and abandon it after `n` chunks
    D { n: u64 },
    F,
    Z { ms: u64 },
    /// add payload column number n
    A { n: u64 },
    /// point lookup (prefix of the key)
    G { k: Vec<i64> },
    /// full backup into memory (slow writer if slow>0), verified by restoring elsewhere
    B { slow: u64 },
    /// read schema / parts
    M,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    pub index_cols: usize,
    pub replacing: bool,
    pub levels: usize,
    pub l0_max_parts: usize,
    pub l1_max: usize,
    pub level_mult: usize,
    pub max_log: usize,
    pub max_l1_part: usize,
    pub part_mult: usize,
    pub page_limit: Option<usize>,
    pub rg_values: usize,
    pub array_size: usize,
    pub chunk_size: usize,
    pub array_page: usize,
    pub max_page: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Client {
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Life {
    /// run sequentially with faults off before the clients start
    pub ops_setup: Vec<Op>,
    pub ops_clients: Vec<Client>,
    /// are faults active while the database is opened / created
    pub armed_boot: bool,
    pub settle_ms: u64,
    /// faults are active only while a full backup is restored in place at the end
    #[serde(default)]
    pub crash_restore: bool,
    /// faults are active only while background work goes on after the clients are done
    #[serde(default)]
    pub fault_rest: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    pub opts: Opts,
    /// payload columns present from the start
    pub fields: u64,
    pub lives: Vec<Life>,
    pub variant: String,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Null,
    I(i128),
    B(bool),
    S(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Str,
    I8,
    I16,
    I32,
    I64,
    Bool,
    Dec,
    Ts,
}

pub fn kind(n: u64) -> Kind {
    [
        Kind::Str,
        Kind::I64,
        Kind::Bool,
        Kind::Ts,
        Kind::Dec,
        Kind::I16,
        Kind::I32,
        Kind::I8,
    ][(n % 8) as usize]
}

pub fn fname(n: u64) -> String {
    format!("f{n:02}")
}

pub fn fno(s: &str) -> Option<u64> {
    s.strip_prefix('f').and_then(|x| x.parse().ok())
}

/// the value row `rid` holds in payload column n, when supplied
pub fn cell(rid: i64, n: u64) -> V {
    let h = mix(mix(rid as u64).wrapping_add(mix(n ^ 0xC0)));
    if h % 5 == 0 {
        return V::Null;
    }
    let x = mix(h);
    match kind(n) {
        Kind::Str => V::S(match x % 4 {
            0 => String::new(),
            1 => format!("v{}", x % 1000),
            _ => format!("r{rid}-{}-{}", n, "x".repeat((x % 40) as usize)),
        }),
        Kind::I8 => V::I((x % 251) as i128 - 125),
        Kind::I16 => V::I((x % 65001) as i128 - 32500),
        Kind::I32 => V::I((x % 4_000_000_001) as i128 - 2_000_000_000),
        Kind::I64 => V::I(x as i64 as i128),
        Kind::Ts => V::I((x % 2_000_000_000_000) as i128),
        Kind::Dec => V::I(((x as i64) as i128) * 1_000_003),
        Kind::Bool => V::B(x & 1 == 1),
    }
}

pub fn supplied(rid: i64, n: u64) -> bool {
    hash(&format!("sup{rid}/{n}")) % 6 != 0
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Status {
    Pending,
    Acked,
    /// the call returned an error: may or may not have taken effect
    Failed,
    /// resolved as not present after a restart
    Gone,
}

#[derive(Clone, Debug)]
pub struct Row {
    pub k: Vec<i64>,
    /// payload columns supplied
    pub cols: BTreeSet<u64>,
    pub inv: u64,
    pub ack: Option<u64>,
    pub st: Status,
    pub life: usize,
}

#[derive(Default, Debug)]
pub struct Hist {
    pub clock: u64,
    pub rows: BTreeMap<i64, Row>,
    /// payload column -> acknowledged
    pub cols: BTreeMap<u64, bool>,
    pub violations: Vec<(String, String, String)>,
    pub scans: u64,
    pub big_scans: u64,
    pub scans_overlapping: u64,
    pub api_errors: BTreeMap<String, u64>,
    pub ops: u64,
    pub states: Vec<u64>,
    pub notes: Vec<String>,
    pub digest: u64,
}

impl Hist {
    pub fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    pub fn violate(&mut self, p: &str, class: impl Into<String>, d: impl Into<String>) {
        if self.violations.len() < 40 {
            self.violations.push((p.to_string(), class.into(), d.into()));
        }
    }
    pub fn expect_cell(&self, rid: i64, n: u64) -> V {
        match self.rows.get(&rid) {
            Some(r) if r.cols.contains(&n) => cell(rid, n),
            _ => V::Null,
        }
    }
}

/// one decoded scan
#[derive(Debug, Default)]
pub struct Scan {
    /// column names in order
    pub names: Vec<String>,
    pub rows: Vec<Vec<V>>,
    pub chunks: usize,
}
