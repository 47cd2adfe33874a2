use std::collections::BTreeMap;

use serde::Deserialize;
use serde::Serialize;

pub use crate::types::PrimitiveType;

pub type Metadata = BTreeMap<String, String>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum TimeUnit {
    Second,
    Millisecond,
    Microsecond,
    Nanosecond,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntervalUnit {
    YearMonth,
    DayTime,
    MonthDayNano,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum UnionMode {
    Dense,
    Sparse,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntegerType {
    Int8,
    Int16,
    Int32,
    Int64,
    UInt8,
    UInt16,
    UInt32,
    UInt64,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum DataType {
    Null,
    Boolean,
    Int8,
    Int16,
    Int32,
    Int64,
    UInt8,
    UInt16,
    UInt32,
    UInt64,
    Float16,
    Float32,
    Float64,
    Timestamp(TimeUnit, Option<String>),
    Date32,
    Date64,
    Time32(TimeUnit),
    Time64(TimeUnit),
    Duration(TimeUnit),
    Interval(IntervalUnit),
    Binary,
    FixedSizeBinary(usize),
    LargeBinary,
    Utf8,
    LargeUtf8,
    List(Box<Field>),
    FixedSizeList(Box<Field>, usize),
    LargeList(Box<Field>),
    Struct(Vec<Field>),
    Union(Vec<Field>, Option<Vec<i32>>, UnionMode),
    Map(Box<Field>, bool),
    Dictionary(IntegerType, Box<DataType>, bool),
    Decimal(usize, usize),
    Decimal256(usize, usize),
    Extension(String, Box<DataType>, Option<String>),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PhysicalType {
    Null,
    Boolean,
    Primitive(PrimitiveType),
    Binary,
    FixedSizeBinary,
    LargeBinary,
    Utf8,
    LargeUtf8,
    List,
    FixedSizeList,
    LargeList,
    Struct,
    Union,
    Map,
    Dictionary(IntegerType),
}
impl DataType {
    pub fn to_physical_type(&self) -> PhysicalType {
        use DataType::*;
        use PhysicalType as P;
        match self {
            Null => P::Null,
            Boolean => P::Boolean,
            Int8 => P::Primitive(PrimitiveType::Int8),
            Int16 => P::Primitive(PrimitiveType::Int16),
            Int32 | Date32 | Time32(_) | Interval(IntervalUnit::YearMonth) => {
                P::Primitive(PrimitiveType::Int32)
            }
            Int64 | Date64 | Timestamp(_, _) | Time64(_) | Duration(_) => {
                P::Primitive(PrimitiveType::Int64)
            }
            Decimal(_, _) => P::Primitive(PrimitiveType::Int128),
            Decimal256(_, _) => P::Primitive(PrimitiveType::Int256),
            UInt8 => P::Primitive(PrimitiveType::UInt8),
            UInt16 => P::Primitive(PrimitiveType::UInt16),
            UInt32 => P::Primitive(PrimitiveType::UInt32),
            UInt64 => P::Primitive(PrimitiveType::UInt64),
            Float16 => P::Primitive(PrimitiveType::Float16),
            Float32 => P::Primitive(PrimitiveType::Float32),
            Float64 => P::Primitive(PrimitiveType::Float64),
            Interval(IntervalUnit::DayTime) => P::Primitive(PrimitiveType::DaysMs),
            Interval(IntervalUnit::MonthDayNano) => P::Primitive(PrimitiveType::MonthDayNano),
            Binary => P::Binary,
            FixedSizeBinary(_) => P::FixedSizeBinary,
            LargeBinary => P::LargeBinary,
            Utf8 => P::Utf8,
            LargeUtf8 => P::LargeUtf8,
            List(_) => P::List,
            FixedSizeList(_, _) => P::FixedSizeList,
            LargeList(_) => P::LargeList,
            Struct(_) => P::Struct,
            Union(_, _, _) => P::Union,
            Map(_, _) => P::Map,
            Dictionary(k, _, _) => P::Dictionary(*k),
            Extension(_, d, _) => d.to_physical_type(),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub data_type: DataType,
    pub is_nullable: bool,
    pub metadata: Metadata,
}
impl Field {
    pub fn new<T: Into<String>>(name: T, data_type: DataType, is_nullable: bool) -> Self {
        Field {
            name: name.into(),
            data_type,
            is_nullable,
            metadata: Default::default(),
        }
    }
    pub fn data_type(&self) -> &DataType {
        &self.data_type
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Schema {
    pub fields: Vec<Field>,
    pub metadata: Metadata,
}
impl Schema {
    pub fn filter<F: Fn(usize, &Field) -> bool>(self, p: F) -> Self {
        Schema {
            fields: self
                .fields
                .into_iter()
                .enumerate()
                .filter(|(i, f)| p(*i, f))
                .map(|(_, f)| f)
                .collect(),
            metadata: self.metadata,
        }
    }
}
impl From<Vec<Field>> for Schema {
    fn from(fields: Vec<Field>) -> Self {
        Schema {
            fields,
            metadata: Default::default(),
        }
    }
}
