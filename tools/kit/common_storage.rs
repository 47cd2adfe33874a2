// small helpers over the storage engine under the simulator
#![allow(dead_code)]
use std::path::PathBuf;
use std::pin::Pin;
use std::task::{Context, Poll};

use arrow2::array::{Array, PrimitiveArray};
use common::types::DType;
use futures::Stream;
pub use simrt::{Cfg, End, Fault, Report, Sched, Start};
pub use storage::db::{OptiDBImpl, Options};
pub use storage::{KeyValue, NamedValue, Value};

pub fn opts() -> storage::table::Options {
    storage::table::Options {
        levels: 4,
        merge_array_size: 10000,
        index_cols: 2,
        l1_max_size_bytes: 1 << 30,
        level_size_multiplier: 10,
        l0_max_parts: 1,
        max_log_length_bytes: 1 << 20,
        merge_array_page_size: 10000,
        merge_data_page_size_limit_bytes: Some(1 << 20),
        merge_max_l1_part_size_bytes: 1 << 20,
        merge_part_size_multiplier: 10,
        merge_row_group_values_limit: 1000,
        merge_chunk_size: 65536,
        merge_max_page_size: 1 << 20,
        is_replacing: false,
    }
}
pub fn open(o: storage::table::Options) -> OptiDBImpl {
    let db = OptiDBImpl::open(PathBuf::from("/data"), Options {}).expect("open");
    let _ = db.create_table("t".into(), o);
    for f in ["k0", "k1", "v"] {
        let _ = db.add_field("t", f, DType::Int64, f == "v");
    }
    db
}
pub fn ins(db: &OptiDBImpl, k0: i64, k1: i64, v: Option<i64>) {
    let mut vals = vec![
        NamedValue::new("k0".into(), Value::Int64(Some(k0))),
        NamedValue::new("k1".into(), Value::Int64(Some(k1))),
    ];
    if let Some(v) = v {
        vals.push(NamedValue::new("v".into(), Value::Int64(Some(v))));
    }
    db.insert("t", vals).expect("insert");
}
/// every row: all columns as integers
pub fn rows(db: &OptiDBImpl) -> Vec<Vec<Option<i64>>> {
    let n = db.schema("t").unwrap().fields.len();
    let mut s = db.scan("t", (0..n).collect()).expect("scan");
    let w = futures::task::noop_waker();
    let mut out = vec![];
    loop {
        match Pin::new(&mut s).poll_next(&mut Context::from_waker(&w)) {
            Poll::Ready(None) => return out,
            Poll::Ready(Some(c)) => {
                let c = c.expect("chunk");
                for i in 0..c.len() {
                    out.push(
                        c.arrays()
                            .iter()
                            .map(|a| {
                                let a = a.as_any().downcast_ref::<PrimitiveArray<i64>>().unwrap();
                                if a.is_null(i) { None } else { Some(a.value(i)) }
                            })
                            .collect(),
                    );
                }
            }
            Poll::Pending => panic!("pending"),
        }
    }
}
pub fn sleep(ms: u64) {
    simrt::sleep(std::time::Duration::from_millis(ms));
}
pub fn cfg(seed: u64) -> Cfg {
    let mut c = Cfg::new(seed);
    c.step_limit = 2_000_000;
    c
}
pub fn random(seed: u64) -> Cfg {
    let mut c = cfg(seed);
    c.sched = Sched::Random { num: 300 };
    c
}
pub fn life(c: Cfg, prev: Option<&Report>, f: impl FnOnce() + Send + 'static) -> Report {
    let s = match prev {
        None => Start::new(c),
        Some(p) => Start::after(c, p),
    };
    simrt::run(s, f)
}
/// the process must have run to its end without any thread panicking
pub fn ok(r: &Report) {
    if r.end != End::Done || !r.panics.is_empty() {
        println!("broken: {:?} {:?}", r.end, r.panics);
        finish(1);
    }
}
pub fn finish(code: i32) -> ! {
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(code)
}
