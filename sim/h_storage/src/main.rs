//! Storage engine under simulation: one table, concurrent clients, the real background threads.
mod model;
mod run;

use model::*;
use simdrv::Batch;
use simdrv::Harness;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Property;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Cfg;
use simrt::Fault;
use simrt::Sched;

struct Storage;

fn pick_opts(r: &mut Rng, variant: &str) -> Opts {
    let maint = variant == "maint";
    Opts {
        index_cols: if variant == "replacing" {
            // one or two key columns and the version
            *r.pick(&[2, 3, 3])
        } else if variant == "get" {
            2
        } else {
            *r.pick(&[2, 2, 2, 2, 1])
        },
        replacing: variant == "replacing",
        levels: *r.pick(&[4, 5, 7]),
        l0_max_parts: 1 + r.below(if maint { 2 } else { 4 }) as usize,
        l1_max: *r.pick(&[2_000, 8_000, 30_000, 1_000_000]),
        level_mult: *r.pick(&[1, 2, 10]),
        max_log: *r.pick(&[300, 900, 3_000, 100_000, 100_000]),
        max_l1_part: *r.pick(&[500, 3_000, 20_000, 1_000_000]),
        part_mult: *r.pick(&[1, 2, 10]),
        page_limit: *r.pick(&[Some(1024 * 1024), Some(200), None]),
        rg_values: *r.pick(&[3, 10, 50, 1000, 1000]),
        array_size: *r.pick(&[1, 3, 10, 10000, 10000]),
        chunk_size: *r.pick(&[2, 7, 64, 65536, 65536]),
        array_page: *r.pick(&[2, 7, 30, 10000, 10000]),
        max_page: 1024 * 1024,
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    next: i64,
    k0: i64,
    k1: i64,
    /// keys grow: a new value after so many rows
    drift: i64,
    idx: usize,
    next_col: u64,
    repl: bool,
    ver: i64,
    keys: Vec<Vec<i64>>,
}

impl Gen<'_> {
    fn ins(&mut self) -> Op {
        self.next += 1;
        let mut k = vec![1 + self.r.below(self.k0 as u64) as i64];
        if self.drift > 0 {
            // mostly near the end, now and then far behind
            let back = if self.r.below(20) == 0 { self.r.below(1 + self.next as u64) as i64 } else { 0 };
            k[0] += (self.next - back) / self.drift;
        }
        if self.idx == 3 {
            k[0] = 1 + self.r.below(2) as i64;
            k.push(1 + self.r.below(self.k0 as u64) as i64);
        }
        if self.idx >= 2 {
            if self.repl {
                self.ver += 1 + self.r.below(3) as i64;
                // versions are unique; mostly increasing, sometimes delivered late
                let late = self.r.below(4) == 0;
                k.push(if late { self.ver * 10 - 25 } else { self.ver * 10 });
            } else {
                k.push(self.r.below(self.k1 as u64) as i64 - self.k1 / 4);
            }
        }
        self.keys.push(k.clone());
        Op::I { k, r: self.next }
    }
    fn op(&mut self, w: &[(u64, u32)]) -> Op {
        let total: u64 = w.iter().map(|x| x.0).sum();
        let mut x = self.r.below(total.max(1));
        let mut kind = 0;
        for (n, k) in w {
            if x < *n {
                kind = *k;
                break;
            }
            x -= n;
        }
        match kind {
            0 => self.ins(),
            1 => Op::S {
                p: if self.r.below(2) == 0 { 0 } else { self.r.next_u64() >> 12 },
                slow: if self.r.below(4) == 0 { 300 + self.r.below(1500) } else { 0 },
            },
            2 => Op::F,
            3 => Op::Z { ms: *self.r.pick(&[1, 50, 400, 1100, 2300]) },
            4 => {
                self.next_col += 1;
                Op::A { n: self.next_col - 1 }
            }
            5 => {
                let k = if self.keys.is_empty() || self.r.below(6) == 0 {
                    vec![self.r.below(5) as i64, self.r.below(20) as i64]
                } else {
                    let n = self.keys.len();
                    self.keys[self.r.usize(n)].clone()
                };
                Op::G { k }
            }
            6 => Op::B { slow: if self.r.below(2) == 0 { self.r.below(400) } else { 0 } },
            7 => Op::D { n: self.r.below(2) },
            _ => Op::M,
        }
    }
}

impl Scenario for Storage {
    fn name(&self) -> &'static str {
        "storage"
    }
    fn generate(&self, r: &mut Rng, variant: &str, tier: &str) -> Plan {
        let deep = tier == "thorough" && r.below(3) == 0;
        let opts = pick_opts(r, variant);
        let fields = 1 + r.below(8);
        let mut g = Gen {
            next: 0,
            k0: 1 + r.below(4) as i64,
            k1: *r.pick(&[1, 4, 20, 400]),
            drift: if opts.replacing { 0 } else { *r.pick(&[0, 0, 0, 1, 3, 8]) },
            idx: opts.index_cols,
            next_col: fields,
            repl: opts.replacing,
            ver: 3,
            keys: vec![],
            r,
        };
        if opts.replacing {
            g.k0 = 1 + g.r.below(5) as i64;
        }
        // swarm: each run enables its own mix of operations
        let mut on = |p: u64, lo: u64, hi: u64| -> u64 {
            if g.r.below(100) < p {
                lo + g.r.below(hi - lo + 1)
            } else {
                0
            }
        };
        let w: Vec<(u64, u32)> = match variant {
            "crash" => vec![(20, 0), (on(40, 1, 6), 1), (on(70, 1, 8), 2), (on(60, 1, 5), 3), (on(30, 1, 2), 4)],
            "conc" => vec![(20, 0), (8 + on(50, 1, 10), 1), (on(75, 1, 8), 2), (on(60, 1, 6), 3), (on(25, 1, 2), 4), (on(30, 1, 3), 7)],
            "maint" => vec![(24, 0), (on(50, 1, 3), 1), (2 + on(80, 1, 5), 2), (1 + on(80, 1, 4), 3), (on(40, 1, 2), 4)],
            "ioerr" => vec![(20, 0), (on(60, 1, 8), 1), (on(70, 1, 8), 2), (on(60, 1, 5), 3), (on(25, 1, 2), 4)],
            "live" | "live-err" | "live-crash" => vec![(20, 0), (on(60, 1, 6), 1), (on(75, 1, 8), 2), (on(70, 1, 5), 3), (on(25, 1, 2), 4), (on(60, 1, 6), 7), (on(40, 1, 3), 8), (on(15, 1, 1), 6)],
            "backup" => vec![(20, 0), (on(30, 1, 3), 1), (on(75, 1, 6), 2), (on(60, 1, 4), 3), (on(25, 1, 2), 4), (3, 6)],
            "schema" => vec![(20, 0), (4 + on(60, 1, 8), 1), (on(70, 1, 5), 2), (on(50, 1, 4), 3), (4, 4), (on(50, 1, 3), 8)],
            "get" => vec![(20, 0), (on(60, 1, 6), 2), (on(60, 1, 4), 3), (10, 5), (on(25, 1, 2), 4)],
            "replacing" => vec![(20, 0), (6, 1), (on(75, 1, 6), 2), (on(60, 1, 4), 3), (on(15, 1, 2), 4)],
            _ => panic!("variant {variant}"),
        };
        let nlives = match variant {
            "crash" => 2 + g.r.below(3) as usize,
            "schema" if g.r.below(2) == 0 => 2 + g.r.below(2) as usize,
            "ioerr" => 2,
            "live" => 1,
            "live-err" => 1 + g.r.below(2) as usize,
            "live-crash" => 2 + g.r.below(2) as usize,
            "backup" => 1 + g.r.below(3) as usize,
            _ => 1 + g.r.below(2) as usize,
        };
        let mut lives = vec![];
        let mut cfgs: Vec<Cfg> = vec![];
        for life in 0..nlives {
            let mut l = Life {
                armed_boot: matches!(variant, "crash" | "live-crash") && g.r.below(3) == 0,
                settle_ms: 0,
                ..Default::default()
            };
            let pre = if life == 0 && g.r.below(2) == 0 { g.r.below(if deep { 60 } else { 25 }) } else { 0 };
            for _ in 0..pre {
                let w2: Vec<(u64, u32)> = vec![(20, 0), (2, 2), (1, 3)];
                let op = g.op(&w2);
                l.ops_setup.push(op);
            }
            let nclients = match variant {
                "maint" => 1 + g.r.below(2),
                _ => 1 + g.r.below(4),
            };
            let per = match variant {
                "maint" => 20 + g.r.below(if deep { 200 } else { 60 }),
                _ => 3 + g.r.below(if deep { 60 } else { 22 }),
            };
            for _ in 0..nclients {
                let mut c = Client::default();
                for _ in 0..per {
                    let op = g.op(&w);
                    c.ops.push(op);
                }
                l.ops_clients.push(c);
            }
            l.settle_ms = match variant {
                "live" | "live-err" | "live-crash" => 7000,
                "maint" => 3500,
                _ => *g.r.pick(&[0, 0, 1500, 3500]),
            };
            let mut c = simdrv::util::cfg(g.r);
            c.step_limit = 2_000_000;
            let nops = (nclients * per + pre) * 3;
            let last = life + 1 == nlives;
            match variant {
                "crash" | "schema" | "live-crash" if !last => {
                    if g.r.below(10) < 9 {
                        let mut span = [12, 40, 120, nops.max(20)][g.r.usize(4)];
                        if g.r.below(3) == 0 {
                            // background work only
                            l.fault_rest = true;
                            span = *g.r.pick(&[8, 25, 60, 120]);
                        }
                        let lo = if l.armed_boot { 1 } else { 1 };
                        c.faults.push(if g.r.below(8) == 0 {
                            Fault::CrashStep { step: 1 + g.r.below(span * 12) }
                        } else {
                            Fault::Crash {
                                op: lo + g.r.below(span),
                                keep: *g.r.pick(&[0, 1, 300, 500, 700, 999, 1000]),
                            }
                        });
                    }
                }
                "backup" if g.r.below(2) == 0 => {
                    l.crash_restore = true;
                    let span = *g.r.pick(&[6, 30, 90]);
                    let op = 1 + g.r.below(span);
                    c.faults.push(match g.r.below(6) {
                        0..=2 => Fault::Crash { op, keep: *g.r.pick(&[0, 300, 999, 1000]) },
                        3 => Fault::WriteErr { op, errno: 5, keep: *g.r.pick(&[0, 300, 999]) },
                        4 => Fault::DiskFull { op, until: op + 1 + g.r.below(12) },
                        _ => Fault::ReadErr { op, errno: 5 },
                    });
                }
                "ioerr" | "live-err" if variant == "live-err" || !last => {
                    l.fault_rest = g.r.below(3) == 0;
                    for _ in 0..1 + g.r.below(3) {
                        let span = if l.fault_rest { *g.r.pick(&[8, 25, 60, 120]) } else { [15, 50, 150, nops.max(20)][g.r.usize(4)] };
                        let op = 1 + g.r.below(span);
                        let errno = *g.r.pick(&[5, 28, 12, 24]);
                        c.faults.push(match g.r.below(6) {
                            0 | 1 => Fault::WriteErr { op, errno, keep: *g.r.pick(&[0, 300, 999]) },
                            2 => Fault::DiskFull { op, until: op + 1 + g.r.below(12) },
                            3 => Fault::ShortWrite { op, keep: 1 + g.r.below(999) as u32 },
                            4 => Fault::ReadErr { op, errno: 5 },
                            _ => Fault::ShortRead { op, keep: g.r.below(999) as u32 },
                        });
                    }
                }
                _ => {}
            }
            if g.r.below(5) == 0 {
                c.faults.push(Fault::Slow { op: 1 + g.r.below(60), ms: *g.r.pick(&[20, 1500]) });
            }
            if g.r.below(6) == 0 {
                c.faults.push(Fault::Stall { step: 1 + g.r.below(1500), ms: *g.r.pick(&[5, 1200, 3000]) });
            }
            if g.r.below(8) == 0 {
                c.faults.push(Fault::ClockJump { step: 1 + g.r.below(1500), ms: *g.r.pick(&[-86_400_000, -2000, 5000, 400_000_000]) });
            }
            cfgs.push(c);
            lives.push(l);
        }
        // a final clean process: what was stored must still be there
        let mut c = simdrv::util::cfg(g.r);
        c.sched = Sched::None;
        c.step_limit = 2_000_000;
        cfgs.push(c);
        lives.push(Life { settle_ms: 2500, ..Default::default() });
        let work = Work { opts, fields, lives, variant: variant.to_string() };
        Plan {
            scenario: String::new(),
            seed: 0,
            cfgs,
            data: serde_json::to_value(&work).unwrap(),
        }
    }
    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        run::run(plan, verbose)
    }
}

fn main() {
    let real = vec![
        "storage crate (db, memtable, compaction, table metadata, parquet page merger, scan merger), unmodified source",
        "common crate (types), unmodified source",
        "bincode, flate2, zstd, crc32fast, lru",
    ];
    let stubs = vec![
        "file system: in-memory, completed operations survive a process crash, interrupted ones are torn",
        "threads, locks, channels, sleeping, clocks, randomness: simulator",
        "arrow2/parquet2 (not available offline): page-level API re-implemented over the arrow/parquet crates",
        "protobuf runtime and code generator: re-implemented wire format",
    ];
    let assume = vec![
        "process crash, not power loss: a write that returned is durable",
        "one process uses a data directory at a time",
    ];
    let p = |id: &'static str, variant: &'static str, quick: u64, thorough: u64, rule: &'static str, probes: Vec<&'static str>| Property {
        id,
        batches: if variant == "live" {
            vec![
                Batch { scenario: "storage", variant, quick, thorough },
                Batch { scenario: "storage", variant: "live-err", quick: 6000, thorough },
                Batch { scenario: "storage", variant: "live-crash", quick: 3000, thorough },
            ]
        } else {
            vec![Batch { scenario: "storage", variant, quick, thorough }]
        },
        rule,
        real: real.clone(),
        stubs: stubs.clone(),
        assumptions: assume.clone(),
        probes,
    };
    simdrv::main(Harness {
        scenarios: vec![Box::new(Storage)],
        properties: vec![
            p("C01", "crash", 6000, 250000, "a process crash was injected after at least one acknowledged insert and the database was reopened and scanned", vec!["reopened_after_crash", "torn_tail"]),
            p("C02", "conc", 6000, 250000, "at least one scan overlapped an insert, flush or compaction", vec!["scan_overlap", "multi_part_scan"]),
            p("C03", "maint", 4000, 250000, "at least one compaction rewrote parts", vec!["compacted"]),
            p("C04", "ioerr", 6000, 250000, "an I/O fault was delivered to the engine", vec!["io_fault"]),
            p("C05", "live", 8000, 250000, "background maintenance ran and the settled state was examined", vec!["settled"]),
            p("C06", "backup", 800, 25000, "a backup was taken and restored", vec!["restored"]),
            p("C07", "schema", 6000, 250000, "a column was added while rows were present", vec!["col_added"]),
            p("C08", "get", 6000, 250000, "a point lookup was answered from a flushed part", vec!["get_found"]),
            p("C09", "replacing", 6000, 250000, "a key had more than one version and was scanned", vec!["multi_version"]),
        ],
    });
}
