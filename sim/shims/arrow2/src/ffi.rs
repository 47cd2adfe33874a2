//! C data interface: arrays are rebuilt as `arrow` arrays and exported by that crate.
use std::sync::Arc;

use arrow_array::Array as A1;
use arrow_array::ArrayRef;

use crate::array::*;
use crate::datatypes::DataType;
use crate::datatypes::Field;
use crate::datatypes::PhysicalType;
use crate::datatypes::TimeUnit;
use crate::error::Result;
use crate::types::PrimitiveType;

#[repr(transparent)]
pub struct ArrowArray(pub arrow::ffi::FFI_ArrowArray);
#[repr(transparent)]
pub struct ArrowSchema(pub arrow::ffi::FFI_ArrowSchema);

pub fn tu(t: TimeUnit) -> arrow_schema::TimeUnit {
    match t {
        TimeUnit::Second => arrow_schema::TimeUnit::Second,
        TimeUnit::Millisecond => arrow_schema::TimeUnit::Millisecond,
        TimeUnit::Microsecond => arrow_schema::TimeUnit::Microsecond,
        TimeUnit::Nanosecond => arrow_schema::TimeUnit::Nanosecond,
    }
}
pub fn dt1(dt: &DataType) -> arrow_schema::DataType {
    use arrow_schema::DataType as D;
    match dt {
        DataType::Boolean => D::Boolean,
        DataType::Int8 => D::Int8,
        DataType::Int16 => D::Int16,
        DataType::Int32 => D::Int32,
        DataType::Int64 => D::Int64,
        DataType::UInt8 => D::UInt8,
        DataType::UInt16 => D::UInt16,
        DataType::UInt32 => D::UInt32,
        DataType::UInt64 => D::UInt64,
        DataType::Float32 => D::Float32,
        DataType::Float64 => D::Float64,
        DataType::Utf8 => D::Utf8,
        DataType::LargeUtf8 => D::LargeUtf8,
        DataType::Binary => D::Binary,
        DataType::LargeBinary => D::LargeBinary,
        DataType::Timestamp(u, z) => D::Timestamp(tu(*u), z.clone().map(|z| z.into())),
        DataType::Decimal(p, s) => D::Decimal128(*p as u8, *s as i8),
        DataType::List(f) => D::List(Arc::new(arrow_schema::Field::new(
            f.name.clone(),
            dt1(&f.data_type),
            f.is_nullable,
        ))),
        d => unimplemented!("{d:?}"),
    }
}
pub fn to_arrow(a: &dyn Array) -> ArrayRef {
    let dt = dt1(a.data_type());
    macro_rules! opt {
        ($t:ty, $a:expr) => {{
            let x = $a.as_any().downcast_ref::<$t>().unwrap();
            (0..x.len())
                .map(|i| if x.is_null(i) { None } else { Some(x.value(i).to_owned()) })
                .collect::<Vec<_>>()
        }};
    }
    match a.data_type().to_physical_type() {
        PhysicalType::Boolean => {
            Arc::new(arrow_array::BooleanArray::from(opt!(BooleanArray, a)))
        }
        PhysicalType::Primitive(p) => {
            let (buf, nulls): (arrow_buffer::Buffer, Vec<bool>) = with_prim!(p, T => {
                let v = opt!(PrimitiveArray<T>, a);
                let vals = v.iter().map(|x| x.unwrap_or_default()).collect::<Vec<T>>();
                (arrow_buffer::Buffer::from_vec(vals), v.iter().map(|x| x.is_some()).collect())
            });
            let mut b = arrow_data::ArrayData::builder(dt).len(a.len()).add_buffer(buf);
            if nulls.iter().any(|x| !*x) {
                b = b.nulls(Some(arrow_buffer::NullBuffer::from(nulls)));
            }
            arrow_array::make_array(b.build().unwrap())
        }
        PhysicalType::Utf8 => {
            Arc::new(arrow_array::StringArray::from(opt!(Utf8Array<i32>, a)))
        }
        PhysicalType::LargeUtf8 => {
            Arc::new(arrow_array::LargeStringArray::from(opt!(Utf8Array<i64>, a)))
        }
        PhysicalType::Binary => {
            let v = opt!(BinaryArray<i32>, a);
            Arc::new(arrow_array::BinaryArray::from(
                v.iter().map(|x| x.as_deref()).collect::<Vec<_>>(),
            ))
        }
        PhysicalType::List => {
            let l = a.as_any().downcast_ref::<ListArray<i32>>().unwrap();
            let inner = to_arrow(l.values().as_ref());
            let f = match dt {
                arrow_schema::DataType::List(f) => f,
                _ => unreachable!(),
            };
            let nulls = l
                .validity()
                .map(|v| arrow_buffer::NullBuffer::from(v.iter().collect::<Vec<bool>>()));
            Arc::new(arrow_array::ListArray::new(
                f,
                arrow_buffer::OffsetBuffer::new(l.offsets().0.clone().into()),
                inner,
                nulls,
            ))
        }
        p => unimplemented!("{p:?}"),
    }
}
pub fn from_arrow(a: &dyn A1, dt: DataType) -> Result<Box<dyn Array>> {
    let validity: Option<Vec<bool>> = a.nulls().map(|n| n.iter().collect());
    Ok(match a.data_type() {
        arrow_schema::DataType::Int64 => {
            let x = a.as_any().downcast_ref::<arrow_array::Int64Array>().unwrap();
            PrimitiveArray::<i64>::make(dt, x.values().to_vec(), validity).boxed()
        }
        arrow_schema::DataType::List(_) => {
            let x = a.as_any().downcast_ref::<arrow_array::ListArray>().unwrap();
            let idt = match &dt {
                DataType::List(f) => f.data_type.clone(),
                _ => unimplemented!(),
            };
            Box::new(ListArray::<i32> {
                dt,
                offsets: crate::offset::OffsetsBuffer(x.value_offsets().to_vec()),
                values: from_arrow(x.values().as_ref(), idt)?,
                validity: validity.map(|v| v.into()),
            })
        }
        d => unimplemented!("{d:?}"),
    })
}
pub fn export_array_to_c(a: Box<dyn Array>) -> ArrowArray {
    ArrowArray(arrow::ffi::FFI_ArrowArray::new(&to_arrow(a.as_ref()).to_data()))
}
pub fn export_field_to_c(f: &Field) -> ArrowSchema {
    let f1 = arrow_schema::Field::new(f.name.clone(), dt1(&f.data_type), f.is_nullable);
    ArrowSchema(arrow::ffi::FFI_ArrowSchema::try_from(&f1).unwrap())
}
/// # Safety
/// the array must match the data type
pub unsafe fn import_array_from_c(a: ArrowArray, dt: DataType) -> Result<Box<dyn Array>> {
    let data = arrow::ffi::from_ffi_and_data_type(a.0, dt1(&dt))
        .map_err(crate::error::Error::from_external_error)?;
    from_arrow(arrow_array::make_array(data).as_ref(), dt)
}
