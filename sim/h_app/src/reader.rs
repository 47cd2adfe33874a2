//! Reads what the server stored, with the storage engine and the metadata store opened directly.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Context;
use std::task::Poll;

use arrow2::array::Array;
use arrow2::array::BooleanArray;
use arrow2::array::PrimitiveArray;
use arrow2::array::Utf8Array;
use arrow2::datatypes::DataType;
use common::group_col;
use common::types::TABLE_EVENTS;
use common::GROUPS_COUNT;
use futures::Stream;
use metadata::properties::Property;
use metadata::MetadataProvider;
use serde::Deserialize;
use serde::Serialize;
use storage::db::OptiDBImpl;
use storage::db::Options;

use crate::app::DATA;

#[derive(Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub enum Cell {
    Null,
    I(i128),
    B(bool),
    S(String),
}

impl Cell {
    pub fn int(&self) -> Option<i64> {
        match self {
            Cell::I(v) => Some(*v as i64),
            _ => None,
        }
    }
}

fn cell_at(a: &dyn Array, i: usize) -> Cell {
    if a.is_null(i) {
        return Cell::Null;
    }
    macro_rules! p {
        ($t:ty) => {
            Cell::I(a.as_any().downcast_ref::<PrimitiveArray<$t>>().expect("array type").value(i) as i128)
        };
    }
    match a.data_type() {
        DataType::Int8 => p!(i8),
        DataType::Int16 => p!(i16),
        DataType::Int32 => p!(i32),
        DataType::Int64 | DataType::Timestamp(_, _) => p!(i64),
        DataType::Decimal(_, _) => p!(i128),
        DataType::Boolean => Cell::B(a.as_any().downcast_ref::<BooleanArray>().expect("bool").value(i)),
        DataType::Utf8 => Cell::S(a.as_any().downcast_ref::<Utf8Array<i32>>().expect("utf8").value(i).to_string()),
        other => panic!("unexpected column type {other:?}"),
    }
}

pub struct Reader {
    pub db: Arc<OptiDBImpl>,
    pub md: Arc<MetadataProvider>,
    pub rocks: Arc<rocksdb::TransactionDB>,
}

pub type Row = BTreeMap<String, Cell>;

impl Reader {
    pub fn open() -> Result<Reader, String> {
        let base = PathBuf::from(DATA);
        let rocks = Arc::new(metadata::rocksdb::new(base.join(common::DATA_PATH_METADATA)).map_err(|e| e.to_string())?);
        let db = Arc::new(
            OptiDBImpl::open(base.join(common::DATA_PATH_STORAGE), Options {}).map_err(|e| e.to_string())?,
        );
        let md = Arc::new(MetadataProvider::try_new(rocks.clone(), db.clone()).map_err(|e| e.to_string())?);
        Ok(Reader { db, md, rocks })
    }

    /// all rows of a table, columns by name
    pub fn scan(&self, tbl: &str) -> Result<Vec<Row>, String> {
        let schema = self.db.schema(tbl).map_err(|e| e.to_string())?;
        let names: Vec<String> = schema.fields.iter().map(|f| f.name.clone()).collect();
        let mut st = self.db.scan(tbl, (0..names.len()).collect()).map_err(|e| e.to_string())?;
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        let mut rows = vec![];
        loop {
            match Pin::new(&mut st).poll_next(&mut cx) {
                Poll::Pending => return Err("pending".into()),
                Poll::Ready(None) => return Ok(rows),
                Poll::Ready(Some(Err(e))) => return Err(e.to_string()),
                Poll::Ready(Some(Ok(c))) => simrt::atomically(|| {
                    for i in 0..c.len() {
                        rows.push(
                            names.iter().zip(c.arrays()).map(|(n, a)| (n.clone(), cell_at(a.as_ref(), i))).collect(),
                        );
                    }
                }),
            }
        }
    }

    pub fn events(&self) -> Result<Vec<Row>, String> {
        self.scan(TABLE_EVENTS)
    }

    pub fn group(&self, g: usize) -> Result<Vec<Row>, String> {
        self.scan(&group_col(g))
    }

    /// event properties (not system), by name
    pub fn event_props(&self, p: u64) -> Result<BTreeMap<String, Property>, String> {
        let l = self.md.event_properties.list(p).map_err(|e| e.to_string())?;
        Ok(l.data.into_iter().filter(|p| !p.is_system).map(|p| (p.name.clone(), p)).collect())
    }

    pub fn group_props(&self, p: u64, g: usize) -> Result<BTreeMap<String, Property>, String> {
        if g >= GROUPS_COUNT {
            return Ok(Default::default());
        }
        let l = self.md.group_properties[g].list(p).map_err(|e| e.to_string())?;
        Ok(l.data.into_iter().filter(|p| !p.is_system).map(|p| (p.name.clone(), p)).collect())
    }

    pub fn word(&self, p: u64, tbl: &str, dict: &str, key: u64) -> Option<String> {
        self.md.dictionaries.get_value(p, tbl, dict, key).ok()
    }

    /// a property's value in a row, dictionary keys replaced by their words
    pub fn value(&self, p: u64, tbl: &str, prop: &Property, row: &Row) -> Result<Cell, String> {
        let col = prop.column_name();
        let c = row.get(&col).ok_or_else(|| format!("no column {col}"))?.clone();
        if prop.is_dictionary {
            if let Cell::I(k) = c {
                return self
                    .md
                    .dictionaries
                    .get_value(p, tbl, &col, k as u64)
                    .map(Cell::S)
                    .map_err(|e| format!("{col}: {e}"));
            }
        }
        Ok(c)
    }
}
