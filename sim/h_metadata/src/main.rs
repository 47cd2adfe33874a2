//! Metadata store under simulation: concurrent clients over the real modules, crashes, failing commits.
mod lin;
mod model;
mod run;

use model::*;
use serde_json::json;
use serde_json::Value as J;
use simdrv::Batch;
use simdrv::Harness;
use simdrv::Outcome;
use simdrv::Plan;
use simdrv::Property;
use simdrv::Scenario;
use simrt::rng::Rng;
use simrt::Cfg;
use simrt::Fault;
use simrt::Sched;

struct Meta;

fn obj(v: J) -> Fields {
    v.as_object().unwrap().clone()
}

struct Gen<'a> {
    r: &'a mut Rng,
    tag: u64,
    names: u64,
    ids: u64,
    /// custom events are validated against plain events: those are then only created
    cev: bool,
}

impl Gen<'_> {
    fn tag(&mut self) -> u64 {
        self.tag += 1;
        self.tag
    }
    fn name(&mut self, p: &str) -> String {
        // some names look like parts of keys
        match self.r.below(12) {
            0 => format!("{p}/data/{}", self.r.below(self.names)),
            1 => format!("{p} ü{}", self.r.below(self.names)),
            _ => format!("{p}{}", self.r.below(self.names)),
        }
    }
    fn opt_text(&mut self, p: &str) -> J {
        if self.r.below(3) == 0 {
            J::Null
        } else {
            J::from(format!("{p}{}", self.r.below(5)))
        }
    }
    fn tags(&mut self) -> J {
        match self.r.below(3) {
            0 => J::Null,
            1 => json!(["t1"]),
            _ => json!(["t1", "t2"]),
        }
    }
    fn b(&mut self) -> bool {
        self.r.below(2) == 0
    }
    fn id(&mut self) -> u64 {
        1 + self.r.below(self.ids)
    }
    fn s(&mut self) -> u64 {
        if self.r.below(5) == 0 {
            11
        } else {
            1
        }
    }
    fn refs(&mut self) -> J {
        let n = 1 + self.r.below(3);
        let v: Vec<J> = (0..n)
            .map(|_| {
                let e = match self.r.below(10) {
                    0 => json!({"RegularName": format!("n{}", self.r.below(3))}),
                    1..=3 => json!({"Regular": 1 + self.r.below(4)}),
                    _ => json!({"Custom": self.id()}),
                };
                json!({"event": e, "filters": J::Null})
            })
            .collect();
        J::from(v)
    }
    fn simple_refs(&mut self) -> J {
        json!([{"event": {"Regular": 1 + self.r.below(3)}, "filters": J::Null}])
    }
    fn panels(&mut self) -> J {
        let n = self.r.below(3);
        J::from((0..n).map(|i| json!({"type": "report", "reportId": i + self.r.below(5), "x": self.r.below(9), "y": 1, "w": 2, "h": self.r.below(7)})).collect::<Vec<_>>())
    }
    fn create(&mut self, k: K, s: u64) -> Op {
        let tag = self.tag();
        let f = match k {
            K::Acc => json!({"created_by": tag, "password_hash": format!("h{tag}"), "email": self.name("e"), "name": self.opt_text("N"),
                "force_update_password": self.b(), "force_update_email": self.b(), "role": if self.b() { json!("Admin") } else { J::Null },
                "organizations": J::Null, "projects": if self.b() { json!([[1, "Reader"], [2, "Owner"]]) } else { J::Null },
                "teams": if self.b() { json!([[3, "Admin"]]) } else { J::Null }}),
            K::Org => json!({"created_by": self.id(), "name": self.name("o")}),
            K::Proj => json!({"created_by": tag, "organization_id": 1 + self.r.below(3), "name": self.name("p"), "description": self.opt_text("d"),
                "tags": self.tags(), "token": self.name("T"), "session_duration_seconds": self.r.below(100)}),
            K::Team => json!({"created_by": tag, "organization_id": s, "name": self.name("t")}),
            K::Ev => json!({"created_by": tag, "tags": self.tags(), "name": self.name("n"), "display_name": if self.b() { J::from(self.name("D")) } else { J::Null },
                "description": self.opt_text("d"), "status": if self.b() { "Enabled" } else { "Disabled" }, "is_system": self.b(),
                "event_properties": if self.b() { json!([7]) } else { J::Null }, "user_properties": if self.b() { json!([8, 9]) } else { J::Null },
                "custom_properties": if self.b() { json!([4]) } else { J::Null }}),
            K::CEv => json!({"created_by": tag, "tags": self.tags(), "name": self.name("c"), "description": self.opt_text("d"),
                "status": if self.b() { "Enabled" } else { "Disabled" }, "is_system": self.b(),
                "events": if self.r.below(3) > 0 { self.simple_refs() } else { self.refs() }}),
            K::PE | K::PG0 | K::PG1 => {
                let sys = self.r.below(6) == 0;
                let name = self.name(match k {
                    K::PE => "x",
                    K::PG0 => "y",
                    _ => "z",
                });
                // a system property's column is named after it: one type per name
                let ty = if sys { "string" } else { *self.r.pick(&["string", "string", "int64", "decimal", "boolean", "timestamp", "int8"]) };
                let name = if sys { format!("sys{}", name.replace(['/', ' ', 'ü'], "")) } else { name };
                json!({"created_by": tag, "tags": self.tags(), "name": name, "description": self.opt_text("d"),
                    "display_name": if self.b() { J::from(self.name("D")) } else { J::Null },
                    "typ": match k { K::PE => json!("Event"), K::PG0 => json!({"Group": 0}), _ => json!({"Group": 1}) },
                    "data_type": ty, "status": if self.b() { "Enabled" } else { "Disabled" }, "hidden": self.b(),
                    "is_system": sys, "nullable": true, "is_array": false, "is_dictionary": false, "dictionary_type": J::Null})
            }
            K::Dash => json!({"createdBy": tag, "tags": self.tags(), "name": self.name("d"), "description": self.opt_text("d"), "panels": self.panels()}),
            K::Rep => json!({"created_by": tag, "tags": self.tags(), "name": self.name("r"), "description": self.opt_text("d"),
                "type": if self.b() { "eventSegmentation" } else { "funnel" }, "query": self.r.below(6)}),
            K::Bm => json!({"created_by": 1, "query": if self.r.below(4) == 0 { J::Null } else { J::from(self.r.below(6)) }}),
            K::Bk => json!({"provider": match self.r.below(3) {
                    0 => json!({"Local": format!("/b{tag}")}),
                    1 => json!({"S3": {"bucket": format!("b{tag}"), "path": "p", "region": "r"}}),
                    _ => json!({"GCP": {"bucket": format!("b{tag}"), "path": "p"}}) },
                "password": if self.b() { json!(format!("pw{tag}")) } else { J::Null }, "is_encrypted": self.b(), "status": if self.r.below(3) == 0 { json!("Idle") } else { self.bk_status() }}),
        };
        Op::C { k, s, f: obj(f) }
    }
    fn bk_status(&mut self) -> J {
        match self.r.below(4) {
            0 => json!({"InProgress": self.r.below(101)}),
            1 => json!("Uploading"),
            2 => json!({"Failed": format!("err{}", self.r.below(3))}),
            _ => json!("Completed"),
        }
    }
    fn update(&mut self, k: K, s: u64) -> Op {
        let tag = self.tag();
        let Op::C { f: full, .. } = self.create(k, s) else { unreachable!() };
        let mut f = Fields::new();
        let may: &[&str] = match k {
            K::Acc => &["email", "name", "password_hash", "force_update_password", "force_update_email", "role", "projects", "teams"],
            K::Org | K::Team => &["name"],
            K::Proj => &["name", "token", "description", "tags", "session_duration_seconds"],
            K::Ev => &["name", "display_name", "tags", "description", "status", "is_system", "event_properties", "user_properties", "custom_properties"],
            K::CEv => &["name", "tags", "description", "status", "is_system", "events"],
            K::PE | K::PG0 | K::PG1 => &["display_name", "tags", "description", "status"],
            K::Dash => &["name", "tags", "description", "panels"],
            K::Rep => &["name", "tags", "description", "type", "query"],
            K::Bk => &["status"],
            K::Bm => &[],
        };
        let p = *self.r.pick(&[2u64, 3, 6]);
        for n in may {
            if k == K::Bk {
                // a backup does not become idle again
                f.insert("status".into(), self.bk_status());
            } else if self.r.below(p) == 0 {
                f.insert(n.to_string(), full[*n].clone());
            }
        }
        if k == K::CEv && f.contains_key("events") && self.b() {
            f.insert("events".into(), self.refs());
        }
        if k != K::Bk {
            f.insert(k.updated_by().to_string(), J::from(tag));
        }
        Op::U { k, s, id: self.id(), f }
    }
    fn entity_op(&mut self, k: K) -> Op {
        let s = if matches!(k, K::Acc | K::Org | K::Proj | K::Bk) { 0 } else { self.s() };
        let frozen = self.cev && k == K::Ev;
        match self.r.below(20) {
            0..=5 => self.create(k, s),
            6 | 7 if matches!(k, K::Ev | K::PE | K::PG0 | K::PG1) => {
                let Op::C { k, s, f } = self.create(k, s) else { unreachable!() };
                Op::GC { k, s, f }
            }
            6..=10 if k != K::Bm && !frozen => self.update(k, s),
            11 | 12 if !frozen => Op::D { k, s, id: self.id() },
            13..=15 => Op::G { k, s, id: self.id() },
            16 | 17 if matches!(k, K::Acc | K::Proj | K::Ev | K::CEv | K::PE | K::PG0 | K::PG1) => Op::N { k, s, v: self.lookup(k) },
            _ if k != K::Bm => Op::L { k, s },
            _ => Op::G { k, s, id: self.id() },
        }
    }
    fn lookup(&mut self, k: K) -> String {
        let p = match k {
            K::Acc => "e",
            // the name of a project is no token
            K::Proj => {
                if self.r.below(4) == 0 {
                    "p"
                } else {
                    "T"
                }
            }
            K::Ev => "n",
            K::CEv => "c",
            K::PE => "x",
            K::PG0 => "y",
            _ => "z",
        };
        self.name(p)
    }
    fn op(&mut self, kinds: &[u32]) -> Op {
        match *self.r.pick(kinds) {
            0 => self.entity_op(K::Acc),
            1 => self.entity_op(K::Org),
            2 => self.entity_op(K::Proj),
            3 => self.entity_op(K::Team),
            4 => self.entity_op(K::Ev),
            5 => self.entity_op(K::CEv),
            6 => self.entity_op(K::PE),
            7 => self.entity_op(K::PG0),
            8 => self.entity_op(K::PG1),
            9 => self.entity_op(K::Dash),
            10 => self.entity_op(K::Rep),
            11 => self.entity_op(K::Bm),
            12 => self.entity_op(K::Bk),
            20 => Op::Mem { how: *self.r.pick(&[0, 0, 1, 2]), org: 1 + self.r.below(2), acc: 1 + self.r.below(3), role: self.r.below(3) as u8 },
            21 => {
                let how = *self.r.pick(&[0, 1, 2, 3, 4, 4]);
                let n = if how == 4 { 1 + self.r.below(3) } else { 1 };
                Op::At { how, s: 1, id: 1 + self.r.below(2), p: (0..n).map(|_| 1 + self.r.below(6)).collect() }
            }
            22 => Op::Inc { id: 1 + self.r.below(2) },
            23 => Op::Seq { s: self.s(), g: if self.b() { None } else { Some(self.r.below(2)) } },
            24 => Op::Di { how: *self.r.pick(&[0, 0, 0, 1, 2]), s: self.s(), d: self.r.below(3) as u8, v: self.name("v"), key: 1 + self.r.below(6) },
            25 => {
                let n = self.r.below(4);
                let mut vals: Vec<(u64, i64)> = (0..n)
                    .map(|_| {
                        let p = 1 + if self.b() { self.r.below(5) } else { self.r.below(9) };
                        let x = self.r.below(1000) as i64 - 100;
                        (p, match p % 9 {
                            4 => x % 128,
                            7 => x & 1,
                            8 => 0,
                            _ => x,
                        })
                    })
                    .collect();
                vals.sort();
                vals.dedup_by_key(|x| x.0);
                Op::Gr { how: self.r.below(4) as u8, s: self.s(), g: self.r.below(2), anon: self.name("a"), real: self.name("u"), vals }
            }
            26 => Op::Gn { s: self.s(), name: format!("g{}", self.r.below(7)), display: format!("G{}", self.r.below(3)) },
            27 => Op::Gl { s: self.s() },
            28 => Op::Ss { s: self.s(), user: 1 + self.r.below(4), t: 1_000_000 + self.r.below(100) as i64 * 10 },
            29 => Op::Sg { s: self.s(), user: 1 + self.r.below(4) },
            30 => Op::Sc { s: self.s(), cutoff: 1_000_000 + self.r.below(110) as i64 * 10 },
            31 => Op::SClear { s: self.s() },
            32 => {
                let v = self.tag();
                Op::Save { v }
            }
            33 => Op::Load,
            // observe what the update family changes
            34 => Op::G { k: K::Acc, s: 0, id: 1 + self.r.below(3) },
            35 => Op::G { k: K::Org, s: 0, id: 1 + self.r.below(2) },
            36 => Op::G { k: K::Proj, s: 0, id: 1 + self.r.below(2) },
            37 => Op::G { k: K::Ev, s: 1, id: 1 + self.r.below(2) },
            38 => self.update(K::Proj, 0),
            39 => self.update(K::Ev, 1),
            40 => self.update(K::Acc, 0),
            _ => Op::Z { ms: *self.r.pick(&[1, 300, 1100]) },
        }
    }
}

impl Scenario for Meta {
    fn name(&self) -> &'static str {
        "metadata"
    }
    fn generate(&self, r: &mut Rng, variant: &str, tier: &str) -> Plan {
        let deep = tier == "thorough" && r.below(3) == 0;
        let all: Vec<u32> = match variant {
            "names" => vec![0, 1, 2, 3, 4, 5, 9],
            "durable" => vec![0, 1, 2, 3, 4, 5, 20, 21, 22, 24, 25, 26, 28, 12],
            "update" => vec![20, 21, 22],
            "dict" => vec![24, 23],
            "groups" => vec![25, 26],
            "props" => vec![6, 7, 8],
            "sessions" => vec![28, 30],
            "records" => vec![9, 10, 11, 12, 32],
            _ => panic!("variant {variant}"),
        };
        // swarm: a run concentrates on one to three families
        let mut kinds: Vec<u32> = vec![];
        for _ in 0..1 + r.below(3) {
            kinds.push(*r.pick(&all));
        }
        if variant == "update" {
            for k in kinds.clone() {
                match k {
                    20 => kinds.extend([20, 34, 35, 40]),
                    21 => kinds.extend([21, 37, 39]),
                    _ => kinds.extend([22, 36, 38]),
                }
            }
        }
        if variant == "sessions" {
            kinds = vec![28, 28, 28, 29, 30, 30];
            if r.below(4) == 0 {
                kinds.push(31);
            }
        }
        if kinds.contains(&26) {
            kinds.extend([26, 27]);
        }
        if kinds.contains(&32) {
            kinds.push(33);
        }
        if r.below(3) == 0 {
            kinds.push(99);
        }
        let mut g = Gen { tag: 100, names: 2 + r.below(3), ids: 2 + r.below(4), cev: kinds.contains(&5), r };
        let opti = variant == "props";
        let nl = match variant {
            "durable" | "props" => 1 + g.r.below(3),
            _ => 1 + g.r.below(2),
        };
        let mut lives = vec![];
        let mut cfgs: Vec<Cfg> = vec![];
        for life in 0..nl {
            let mut l = Life::default();
            if life == 0 {
                if kinds.iter().any(|k| matches!(k, 1 | 20)) {
                    for _ in 0..3 {
                        l.ops_setup.push(g.create(K::Acc, 0));
                    }
                    if kinds.contains(&20) {
                        for i in 0..2 {
                            let f = obj(json!({"created_by": 1 + g.r.below(2), "name": format!("org{i}")}));
                            l.ops_setup.push(Op::C { k: K::Org, s: 0, f });
                        }
                    }
                }
                if kinds.iter().any(|k| matches!(k, 5 | 21)) {
                    for _ in 0..3 {
                        l.ops_setup.push(g.create(K::Ev, 1));
                    }
                }
                if kinds.contains(&22) {
                    for _ in 0..2 {
                        l.ops_setup.push(g.create(K::Proj, 0));
                    }
                }
                for _ in 0..g.r.below(6) {
                    let op = g.op(&kinds);
                    l.ops_setup.push(op);
                }
            }
            let nc = if g.r.below(8) == 0 { 1 } else { 2 + g.r.below(3) };
            let per = 2 + g.r.below(if deep { 10 } else { 6 });
            for _ in 0..nc {
                let mut c = Client::default();
                for _ in 0..per {
                    let op = g.op(&kinds);
                    c.ops.push(op);
                }
                l.ops_clients.push(c);
            }
            let mut c = simdrv::util::cfg(g.r);
            if let Sched::Pct { len, .. } = &mut c.sched {
                *len = *g.r.pick(&[30, 80, 200, 600]);
            }
            c.step_limit = 500_000;
            let ops = nc * per;
            let faulty = match variant {
                "durable" => 10,
                "props" => 6,
                "names" | "update" | "groups" | "dict" | "records" => 2,
                "sessions" => 3,
                _ => 0,
            };
            if g.r.below(10) < faulty {
                for _ in 0..1 + g.r.below(2) {
                    let after = 1 + g.r.below(ops.max(2));
                    c.faults.push(match g.r.below(8) {
                        0 | 1 => Fault::CrashCommit { op: after, after: g.r.below(2) == 0 },
                        2 | 3 => Fault::CommitErr { op: after },
                        4 => Fault::CrashStep { step: 1 + g.r.below(ops * 12) },
                        5 | 6 => Fault::AppFault { op: 1 + g.r.below(ops * 4), kind: 1 },
                        _ if opti => Fault::WriteErr { op: 1 + g.r.below(ops), errno: 5, keep: *g.r.pick(&[0, 500]) },
                        _ => Fault::CommitErr { op: after },
                    });
                }
            }
            if g.r.below(4) == 0 {
                c.faults.push(Fault::Stall { step: 1 + g.r.below(ops * 15), ms: *g.r.pick(&[5, 700, 1500, 4000]) });
            }
            if g.r.below(8) == 0 {
                c.faults.push(Fault::ClockJump { step: 1 + g.r.below(ops * 10), ms: *g.r.pick(&[-86_400_000, -2000, 5000]) });
            }
            cfgs.push(c);
            lives.push(l);
        }
        // a last, calm process reads everything back, then tries every name once more
        let mut l = Life::default();
        for k in kinds.clone() {
            let k = match k {
                0 => K::Acc,
                1 => K::Org,
                2 | 22 => K::Proj,
                3 => K::Team,
                4 | 21 => K::Ev,
                5 => K::CEv,
                6 => K::PE,
                7 => K::PG0,
                8 => K::PG1,
                9 => K::Dash,
                10 => K::Rep,
                12 => K::Bk,
                20 => K::Org,
                _ => continue,
            };
            let scopes: &[u64] = if matches!(k, K::Acc | K::Org | K::Proj | K::Bk) { &[0] } else { &[1, 11] };
            for s in scopes {
                l.ops_setup.push(Op::L { k, s: *s });
                if k == K::Org {
                    l.ops_setup.push(Op::L { k: K::Acc, s: *s });
                }
                if !k.unique().is_empty() && k != K::Org {
                    for _ in 0..3 {
                        let op = g.create(k, *s);
                        l.ops_setup.push(op);
                    }
                    if matches!(k, K::Acc | K::Proj | K::Ev | K::CEv | K::PE | K::PG0 | K::PG1) {
                        for _ in 0..3 {
                            let v = g.lookup(k);
                            l.ops_setup.push(Op::N { k, s: *s, v });
                        }
                    }
                } else if k == K::Org {
                    for _ in 0..3 {
                        let op = g.create(k, *s);
                        l.ops_setup.push(op);
                    }
                }
                l.ops_setup.push(Op::L { k, s: *s });
            }
        }
        for _ in 0..6 {
            let op = g.op(&kinds);
            l.ops_setup.push(op);
        }
        if kinds.contains(&26) {
            l.ops_setup.push(Op::Gl { s: 1 });
        }
        if kinds.contains(&33) {
            l.ops_setup.push(Op::Load);
        }
        if kinds.contains(&24) {
            for s in [1, 11] {
                for d in 0..3 {
                    for key in 1..6 {
                        l.ops_setup.push(Op::Di { how: 2, s, d, v: String::new(), key });
                    }
                    for n in 0..g.names {
                        l.ops_setup.push(Op::Di { how: 1, s, d, v: format!("v{n}"), key: 0 });
                    }
                }
            }
        }
        if kinds.contains(&28) {
            for u in 1..=4 {
                l.ops_setup.push(Op::Sg { s: 1, user: u });
                l.ops_setup.push(Op::Sg { s: 11, user: u });
            }
        }
        let mut c = simdrv::util::cfg(g.r);
        c.sched = Sched::None;
        cfgs.push(c);
        lives.push(l);
        let work = Work { variant: variant.to_string(), lives, opti };
        Plan { scenario: String::new(), seed: 0, cfgs, data: serde_json::to_value(&work).unwrap() }
    }
    fn run(&self, plan: &Plan, verbose: bool) -> Outcome {
        run::run(plan, verbose)
    }
}

fn main() {
    let real = vec![
        "metadata crate (all modules: accounts ... settings, index and key layout, protobuf schemas), unmodified source",
        "storage crate (property definitions add columns to it), unmodified source",
        "common crate, bincode, lru, chrono",
    ];
    let stubs = vec![
        "RocksDB (not available offline): in-memory pessimistic transaction store with per-key locks, lock timeouts, atomic durable commits",
        "threads, locks, sleeping, clocks, randomness, file system: simulator",
        "protobuf runtime and code generator: re-implemented wire format",
    ];
    let assume = vec![
        "RocksDB's documented TransactionDB guarantees: atomic durable commits, per-key exclusive locks, no read locks for plain reads",
        "an operation that fails on a lock timeout or an injected store error has no effect; its caller may retry",
    ];
    let p = |id: &'static str, variant: &'static str, quick: u64, thorough: u64, rule: &'static str, probes: Vec<&'static str>| Property {
        id,
        batches: vec![Batch { scenario: "metadata", variant, quick, thorough }],
        rule,
        real: real.clone(),
        stubs: stubs.clone(),
        assumptions: assume.clone(),
        probes,
    };
    let overlap = "at least two operations of the run overlapped in time";
    simdrv::main(Harness {
        scenarios: vec![Box::new(Meta)],
        properties: vec![
            p("C10", "names", 60000, 2_000_000, overlap, vec!["kv_lock_wait"]),
            p("C11", "durable", 60000, 2_000_000, "a crash hit a running operation, or a commit or read was made to fail", vec!["kv_lock_wait"]),
            p("C12", "update", 60000, 2_000_000, overlap, vec!["kv_lock_wait"]),
            p("C13", "dict", 60000, 2_000_000, overlap, vec!["kv_lock_wait"]),
            p("C14", "groups", 60000, 2_000_000, overlap, vec!["kv_lock_wait"]),
            p("C15", "props", 20000, 500_000, overlap, vec!["kv_lock_wait"]),
            p("C16", "sessions", 40000, 2_000_000, overlap, vec!["kv_lock_wait"]),
            p("C17", "records", 30000, 2_000_000, overlap, vec!["kv_lock_wait"]),
        ],
    });
}
