use crate::datatypes::DataType;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum PrimitiveType {
    Int8,
    Int16,
    Int32,
    Int64,
    Int128,
    Int256,
    UInt8,
    UInt16,
    UInt32,
    UInt64,
    Float16,
    Float32,
    Float64,
    DaysMs,
    MonthDayNano,
}
pub trait NativeType:
    Send + Sync + Copy + Default + std::fmt::Debug + PartialEq + PartialOrd + 'static {
    const PRIMITIVE: PrimitiveType;
    const DT: DataType;
    fn cmp_total(&self, o: &Self) -> std::cmp::Ordering;
    fn wrap(v: Vec<Self>) -> crate::pq::Vals;
    fn unwrap(v: &crate::pq::Vals) -> Option<Vec<Self>>;
}
macro_rules! nt {
    ($t:ty,$p:ident,$d:expr,$v:ident) => {
        impl NativeType for $t {
            const PRIMITIVE: PrimitiveType = PrimitiveType::$p;
            const DT: DataType = $d;
            fn cmp_total(&self, o: &Self) -> std::cmp::Ordering {
                self.partial_cmp(o).unwrap_or(std::cmp::Ordering::Equal)
            }
            fn wrap(v: Vec<Self>) -> crate::pq::Vals {
                crate::pq::Vals::$v(v)
            }
            fn unwrap(v: &crate::pq::Vals) -> Option<Vec<Self>> {
                match v {
                    crate::pq::Vals::$v(v) => Some(v.clone()),
                    _ => None,
                }
            }
        }
    };
}
nt!(i8, Int8, DataType::Int8, I8);
nt!(i16, Int16, DataType::Int16, I16);
nt!(i32, Int32, DataType::Int32, I32);
nt!(i64, Int64, DataType::Int64, I64);
nt!(i128, Int128, DataType::Decimal(32, 32), I128);
nt!(u8, UInt8, DataType::UInt8, U8);
nt!(u16, UInt16, DataType::UInt16, U16);
nt!(u32, UInt32, DataType::UInt32, U32);
nt!(u64, UInt64, DataType::UInt64, U64);
nt!(f32, Float32, DataType::Float32, F32);
nt!(f64, Float64, DataType::Float64, F64);
