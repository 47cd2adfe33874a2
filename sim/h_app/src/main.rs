//! The whole server under simulation.
mod app;
mod auth;
mod backup;
mod boot;
mod ingest;
mod lives;
mod qfunnel;
mod query;
mod reader;

use simdrv::Batch;
use simdrv::Harness;
use simdrv::Property;
use simrt::rng::Rng;

/// small tables, so that flushes and compactions happen
pub fn gen_conf(r: &mut Rng) -> app::Conf {
    let mut c = app::Conf::default();
    if r.below(3) > 0 {
        c.log_len = *r.pick(&[800, 4000, 20000]);
        c.l0_parts = 1 + r.usize(3);
        c.l1_size = *r.pick(&[4000, 30000, 1 << 20]);
        c.l1_part = *r.pick(&[2048, 1 << 20]);
        c.levels = 3 + r.usize(5);
        c.level_mult = 2 + r.usize(9);
        c.rg_values = *r.pick(&[3, 20, 1000]);
        c.chunk = *r.pick(&[2, 10, 1024]);
        c.array_size = *r.pick(&[3, 100, 10000]);
        c.array_page = *r.pick(&[2, 100, 10000]);
    }
    c
}

fn main() {
    app::capture_log();
    let real = vec![
        "cmd (server start-up, session cleaner), ingester, platform, metadata, storage, common: unmodified source",
        "axum router and extractors, tower layers, serde_json, rust_decimal, jsonwebtoken replacement see stubs",
    ];
    let stubs = vec![
        "file system, RocksDB, threads, locks, clocks, randomness: simulator",
        "tokio tasks are simulated threads; HTTP requests enter the router directly, without a socket",
    ];
    let assume = vec!["process crash, not power loss: a write or commit that returned is durable"];
    let p = |id: &'static str, b: Vec<(&'static str, &'static str, u64, u64)>, rule: &'static str, probes: Vec<&'static str>| Property {
        id,
        batches: b.into_iter().map(|(scenario, variant, quick, thorough)| Batch { scenario, variant, quick, thorough }).collect(),
        rule,
        real: real.clone(),
        stubs: stubs.clone(),
        assumptions: assume.clone(),
        probes,
    };
    simdrv::main(Harness {
        scenarios: vec![Box::new(ingest::Ingest), Box::new(boot::Boot), Box::new(backup::Backup), Box::new(auth::Auth), Box::new(query::Query)],
        properties: vec![
            p("C18", vec![("ingest", "crash", 900, 40000), ("ingest", "err", 600, 20000), ("ingest", "conc", 500, 20000)],
              "requests overlapped, or a fault was delivered after accepted requests", vec![]),
            p("C19", vec![("ingest", "conc", 1500, 60000)], "requests overlapped", vec!["linked"]),
            p("C20", vec![("ingest", "identify", 1500, 60000)], "requests overlapped", vec![]),
            p("C21", vec![("ingest", "session", 500, 20000), ("ingest", "sesserr", 400, 10000)], "a session ended", vec!["session_end"]),
            p("C22", vec![("boot", "crash", 1000, 40000), ("boot", "err", 800, 40000)], "the server crashed or a fault was delivered", vec!["started"]),
            p("C23", vec![("backup", "plain", 80, 4000), ("backup", "crash", 120, 6000), ("backup", "err", 120, 6000)],
              "a backup was completed (and a fault was delivered where faults are injected)", vec!["completed", "uploaded"]),
            p("C24", vec![("backup", "plain", 160, 8000), ("backup", "crash", 80, 4000), ("backup", "err", 80, 4000)],
              "a backup was completed (and a fault was delivered where faults are injected)", vec!["scheduled"]),
            p("C25", vec![("auth", "conc", 500, 20000), ("auth", "crash", 300, 20000), ("auth", "err", 200, 10000)],
              "requests overlapped, or the server crashed, or a fault was delivered", vec![]),
            p("C26", vec![("auth", "conc", 800, 40000), ("auth", "crash", 200, 10000), ("auth", "err", 100, 10000)],
              "requests overlapped, or the server crashed, or a fault was delivered", vec!["permitted", "denied"]),
            p("C27", vec![("query", "seg-conc", 500, 40000), ("query", "seg-crash", 250, 20000), ("query", "seg-err", 250, 20000)],
              "questions overlapped with ingestion, or the server crashed, or a fault was delivered", vec!["answered"]),
            p("C28", vec![("query", "funnel-conc", 600, 40000), ("query", "funnel-crash", 400, 20000), ("query", "funnel-err", 400, 20000)],
              "questions overlapped with ingestion, or the server crashed, or a fault was delivered", vec!["answered"]),
            p("C29", vec![("query", "search-conc", 600, 40000), ("query", "search-crash", 300, 20000), ("query", "search-err", 300, 20000)],
              "questions overlapped with ingestion, or the server crashed, or a fault was delivered", vec!["answered"]),
            p("C30", vec![("query", "records-conc", 500, 40000), ("query", "records-crash", 400, 30000), ("query", "records-err", 400, 30000)],
              "questions overlapped with identify requests, or the server crashed, or a fault was delivered", vec!["answered", "asked_meanwhile"]),
            p("C31", vec![("query", "values-conc", 500, 40000), ("query", "values-crash", 250, 20000), ("query", "values-err", 250, 20000)],
              "questions overlapped with ingestion, or the server crashed, or a fault was delivered", vec!["answered", "asked_meanwhile"]),
        ],
    });
}
