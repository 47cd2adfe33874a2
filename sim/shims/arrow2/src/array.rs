use std::any::Any;
use std::fmt::Debug;
use std::sync::Arc;

use crate::bitmap::Bitmap;
use crate::datatypes::DataType;
use crate::datatypes::Field;
use crate::datatypes::PhysicalType;
use crate::error::Error;
use crate::error::Result;
use crate::offset::Offset;
use crate::offset::OffsetsBuffer;
use crate::types::NativeType;
use crate::types::PrimitiveType;

pub trait Array: Send + Sync + Debug + 'static {
    fn as_any(&self) -> &dyn Any;
    fn data_type(&self) -> &DataType;
    fn len(&self) -> usize;
    fn validity(&self) -> Option<&Bitmap>;
    fn to_boxed(&self) -> Box<dyn Array>;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn null_count(&self) -> usize {
        self.validity().map(|v| v.unset_bits()).unwrap_or(0)
    }
    fn is_null(&self, i: usize) -> bool {
        assert!(i < self.len());
        self.validity().map(|v| !v.get_bit(i)).unwrap_or(false)
    }
    fn is_valid(&self, i: usize) -> bool {
        !self.is_null(i)
    }
    fn sliced(&self, offset: usize, len: usize) -> Box<dyn Array> {
        assert!(
            offset + len <= self.len(),
            "the offset of the new Buffer cannot exceed the existing length"
        );
        let b = self.to_boxed();
        concat_ranges(&[b.as_ref()], &[(0, offset, len)])
    }
}
impl Clone for Box<dyn Array> {
    fn clone(&self) -> Self {
        self.to_boxed()
    }
}
impl PartialEq for dyn Array {
    fn eq(&self, o: &dyn Array) -> bool {
        self.data_type() == o.data_type()
            && self.len() == o.len()
            && crate::pq::to_payload(self.to_boxed().as_ref()).canon()
                == crate::pq::to_payload(o.to_boxed().as_ref()).canon()
    }
}
impl AsRef<dyn Array> for dyn Array {
    fn as_ref(&self) -> &dyn Array {
        self
    }
}

fn slice_validity(v: &Option<Bitmap>, o: usize, l: usize) -> Option<Bitmap> {
    v.as_ref().map(|b| b.0[o..o + l].to_vec().into())
}

#[derive(Clone, Debug, PartialEq)]
pub struct PrimitiveArray<T: NativeType> {
    pub(crate) dt: DataType,
    pub(crate) values: Arc<Vec<T>>,
    pub(crate) validity: Option<Bitmap>,
}
pub type Int8Array = PrimitiveArray<i8>;
pub type Int16Array = PrimitiveArray<i16>;
pub type Int32Array = PrimitiveArray<i32>;
pub type Int64Array = PrimitiveArray<i64>;
pub type Int128Array = PrimitiveArray<i128>;
pub type UInt8Array = PrimitiveArray<u8>;
pub type UInt16Array = PrimitiveArray<u16>;
pub type UInt32Array = PrimitiveArray<u32>;
pub type UInt64Array = PrimitiveArray<u64>;
pub type Float32Array = PrimitiveArray<f32>;
pub type Float64Array = PrimitiveArray<f64>;

impl<T: NativeType> PrimitiveArray<T> {
    pub fn make(dt: DataType, values: Vec<T>, validity: Option<Vec<bool>>) -> Self {
        PrimitiveArray {
            dt,
            values: Arc::new(values),
            validity: validity.map(|v| v.into()),
        }
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        Self::make(T::DT, v, None)
    }
    pub fn from_slice<P: AsRef<[T]>>(v: P) -> Self {
        Self::from_vec(v.as_ref().to_vec())
    }
    pub fn value(&self, i: usize) -> T {
        self.values[i]
    }
    pub fn values(&self) -> &Vec<T> {
        &self.values
    }
    pub fn values_iter(&self) -> std::slice::Iter<'_, T> {
        self.values.iter()
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<&T>> + '_ {
        (0..self.values.len()).map(|i| {
            if self.is_null(i) {
                None
            } else {
                Some(&self.values[i])
            }
        })
    }
    pub fn to(mut self, dt: DataType) -> Self {
        self.dt = dt;
        self
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
    pub fn sliced(self, o: usize, l: usize) -> Self {
        PrimitiveArray {
            dt: self.dt.clone(),
            values: Arc::new(self.values[o..o + l].to_vec()),
            validity: slice_validity(&self.validity, o, l),
        }
    }
}
impl<T: NativeType> From<Vec<Option<T>>> for PrimitiveArray<T> {
    fn from(v: Vec<Option<T>>) -> Self {
        MutablePrimitiveArray::from(v).into()
    }
}
impl<T: NativeType> IntoIterator for PrimitiveArray<T> {
    type Item = Option<T>;
    type IntoIter = std::vec::IntoIter<Option<T>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().map(|v| v.copied()).collect::<Vec<_>>().into_iter()
    }
}
macro_rules! arr_impl {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Array for $t {
            fn as_any(&self) -> &dyn Any { self }
            fn data_type(&self) -> &DataType { &self.dt }
            fn len(&self) -> usize { self.n() }
            fn validity(&self) -> Option<&Bitmap> { self.validity.as_ref() }
            fn to_boxed(&self) -> Box<dyn Array> { Box::new(self.clone()) }
        }
    };
}
impl<T: NativeType> PrimitiveArray<T> {
    fn n(&self) -> usize {
        self.values.len()
    }
}
arr_impl!([T: NativeType] PrimitiveArray<T>);

#[derive(Clone, Debug, PartialEq)]
pub struct BooleanArray {
    pub(crate) dt: DataType,
    pub(crate) values: Arc<Vec<bool>>,
    pub(crate) validity: Option<Bitmap>,
}
impl BooleanArray {
    fn n(&self) -> usize {
        self.values.len()
    }
    pub fn make(values: Vec<bool>, validity: Option<Vec<bool>>) -> Self {
        BooleanArray {
            dt: DataType::Boolean,
            values: Arc::new(values),
            validity: validity.map(|v| v.into()),
        }
    }
    pub fn value(&self, i: usize) -> bool {
        self.values[i]
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<bool>> + '_ {
        (0..self.values.len()).map(|i| (!self.is_null(i)).then(|| self.values[i]))
    }
    pub fn sliced(self, o: usize, l: usize) -> Self {
        BooleanArray {
            dt: self.dt.clone(),
            values: Arc::new(self.values[o..o + l].to_vec()),
            validity: slice_validity(&self.validity, o, l),
        }
    }
}
impl IntoIterator for BooleanArray {
    type Item = Option<bool>;
    type IntoIter = std::vec::IntoIter<Option<bool>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}
impl From<Vec<Option<bool>>> for BooleanArray {
    fn from(v: Vec<Option<bool>>) -> Self {
        MutableBooleanArray::from(v).into()
    }
}
arr_impl!([] BooleanArray);

macro_rules! bytes_array {
    ($name:ident,$vt:ty,$ot:ty,$small:expr,$large:expr,$as:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name<O: Offset> {
            pub(crate) dt: DataType,
            pub(crate) values: Arc<Vec<$ot>>,
            pub(crate) validity: Option<Bitmap>,
            pub(crate) _o: std::marker::PhantomData<O>,
        }
        impl<O: Offset> $name<O> {
            fn n(&self) -> usize {
                self.values.len()
            }
            pub fn make(values: Vec<$ot>, validity: Option<Vec<bool>>) -> Self {
                $name {
                    dt: if O::IS_LARGE { $large } else { $small },
                    values: Arc::new(values),
                    validity: validity.map(|v| v.into()),
                    _o: std::marker::PhantomData,
                }
            }
            pub fn value(&self, i: usize) -> &$vt {
                $as(&self.values[i])
            }
            pub fn boxed(self) -> Box<dyn Array> {
                Box::new(self)
            }
            pub fn sliced(self, o: usize, l: usize) -> Self {
                $name {
                    dt: self.dt.clone(),
                    values: Arc::new(self.values[o..o + l].to_vec()),
                    validity: slice_validity(&self.validity, o, l),
                    _o: std::marker::PhantomData,
                }
            }
            pub fn iter(&self) -> std::vec::IntoIter<Option<&$vt>> {
                (0..self.values.len())
                    .map(|i| (!self.is_null(i)).then(|| self.value(i)))
                    .collect::<Vec<_>>()
                    .into_iter()
            }
        }
        impl<'a, O: Offset> IntoIterator for &'a $name<O> {
            type Item = Option<&'a $vt>;
            type IntoIter = std::vec::IntoIter<Option<&'a $vt>>;
            fn into_iter(self) -> Self::IntoIter {
                self.iter()
            }
        }
        arr_impl!([O: Offset] $name<O>);
    };
}
bytes_array!(Utf8Array, str, String, DataType::Utf8, DataType::LargeUtf8, |s: &'_ String| -> &'_ str {
    unsafe { &*(s.as_str() as *const str) }
});
bytes_array!(BinaryArray, [u8], Vec<u8>, DataType::Binary, DataType::LargeBinary, |s: &'_ Vec<u8>| -> &'_ [u8] {
    unsafe { &*(s.as_slice() as *const [u8]) }
});

#[derive(Clone, Debug)]
pub struct ListArray<O: Offset> {
    pub(crate) dt: DataType,
    pub(crate) offsets: OffsetsBuffer<O>,
    pub(crate) values: Box<dyn Array>,
    pub(crate) validity: Option<Bitmap>,
}
impl<O: Offset> ListArray<O> {
    fn n(&self) -> usize {
        self.offsets.0.len() - 1
    }
    pub fn values(&self) -> &Box<dyn Array> {
        &self.values
    }
    pub fn offsets(&self) -> &OffsetsBuffer<O> {
        &self.offsets
    }
    pub fn value(&self, i: usize) -> Box<dyn Array> {
        let (s, e) = self.offsets.start_end(i);
        self.values.sliced(s, e - s)
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
}
arr_impl!([O: Offset] ListArray<O>);

#[derive(Clone, Debug, PartialEq)]
pub struct FixedSizeBinaryArray {
    pub(crate) dt: DataType,
    pub(crate) values: Arc<Vec<Vec<u8>>>,
    pub(crate) validity: Option<Bitmap>,
}
impl FixedSizeBinaryArray {
    fn n(&self) -> usize {
        self.values.len()
    }
}
arr_impl!([] FixedSizeBinaryArray);

// ---------------------------------------------------------------- mutable arrays

pub trait MutableArray: Debug + Send + Sync {
    fn data_type(&self) -> &DataType;
    fn len(&self) -> usize;
    fn as_box(&mut self) -> Box<dyn Array>;
    fn push_null(&mut self);
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
pub trait TryPush<A> {
    fn try_push(&mut self, item: A) -> Result<()>;
}
pub trait TryExtend<A> {
    fn try_extend<I: IntoIterator<Item = A>>(&mut self, iter: I) -> Result<()>;
}

fn split<T: Clone + Default>(v: &[Option<T>]) -> (Vec<T>, Option<Vec<bool>>) {
    let val = if v.iter().any(|x| x.is_none()) {
        Some(v.iter().map(|x| x.is_some()).collect())
    } else {
        None
    };
    (v.iter().map(|x| x.clone().unwrap_or_default()).collect(), val)
}

#[derive(Debug, Clone)]
pub struct MutablePrimitiveArray<T: NativeType> {
    dt: DataType,
    v: Vec<Option<T>>,
}
impl<T: NativeType> MutablePrimitiveArray<T> {
    pub fn new() -> Self {
        Self::with_capacity(0)
    }
    pub fn with_capacity(n: usize) -> Self {
        MutablePrimitiveArray {
            dt: T::DT,
            v: Vec::with_capacity(n),
        }
    }
    pub fn push(&mut self, v: Option<T>) {
        self.v.push(v)
    }
    pub fn to(mut self, dt: DataType) -> Self {
        self.dt = dt;
        self
    }
    pub fn push_null(&mut self) {
        self.v.push(None)
    }
}
impl<T: NativeType> From<MutablePrimitiveArray<T>> for PrimitiveArray<T> {
    fn from(m: MutablePrimitiveArray<T>) -> Self {
        let (v, val) = split(&m.v);
        PrimitiveArray::make(m.dt, v, val)
    }
}
impl<T: NativeType> From<Vec<Option<T>>> for MutablePrimitiveArray<T> {
    fn from(v: Vec<Option<T>>) -> Self {
        MutablePrimitiveArray { dt: T::DT, v }
    }
}
impl<T: NativeType> MutableArray for MutablePrimitiveArray<T> {
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn push_null(&mut self) {
        self.v.push(None)
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        let (v, val) = split(&std::mem::take(&mut self.v));
        PrimitiveArray::make(self.dt.clone(), v, val).boxed()
    }
}
impl<T: NativeType> TryExtend<Option<T>> for MutablePrimitiveArray<T> {
    fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, iter: I) -> Result<()> {
        self.v.extend(iter);
        Ok(())
    }
}

#[derive(Debug, Clone)]
pub struct MutableBooleanArray {
    dt: DataType,
    v: Vec<Option<bool>>,
}
impl MutableBooleanArray {
    pub fn new() -> Self {
        Self::with_capacity(0)
    }
    pub fn with_capacity(n: usize) -> Self {
        MutableBooleanArray {
            dt: DataType::Boolean,
            v: Vec::with_capacity(n),
        }
    }
    pub fn push(&mut self, v: Option<bool>) {
        self.v.push(v)
    }
}
impl From<Vec<Option<bool>>> for MutableBooleanArray {
    fn from(v: Vec<Option<bool>>) -> Self {
        MutableBooleanArray {
            dt: DataType::Boolean,
            v,
        }
    }
}
impl From<MutableBooleanArray> for BooleanArray {
    fn from(m: MutableBooleanArray) -> Self {
        let (v, val) = split(&m.v);
        BooleanArray::make(v, val)
    }
}
impl MutableArray for MutableBooleanArray {
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn push_null(&mut self) {
        self.v.push(None)
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        let (v, val) = split(&std::mem::take(&mut self.v));
        BooleanArray::make(v, val).boxed()
    }
}
impl TryExtend<Option<bool>> for MutableBooleanArray {
    fn try_extend<I: IntoIterator<Item = Option<bool>>>(&mut self, iter: I) -> Result<()> {
        self.v.extend(iter);
        Ok(())
    }
}
macro_rules! mut_bytes {
    ($name:ident,$arr:ident,$vt:ty,$ot:ty,$small:expr,$large:expr,$conv:expr) => {
        #[derive(Debug, Clone)]
        pub struct $name<O: Offset> {
            dt: DataType,
            v: Vec<Option<$ot>>,
            _o: std::marker::PhantomData<O>,
        }
        impl<O: Offset> $name<O> {
            pub fn new() -> Self {
                Self::with_capacity(0)
            }
            pub fn with_capacity(n: usize) -> Self {
                $name {
                    dt: if O::IS_LARGE { $large } else { $small },
                    v: Vec::with_capacity(n),
                    _o: std::marker::PhantomData,
                }
            }
            pub fn push<T: AsRef<$vt>>(&mut self, v: Option<T>) {
                self.v.push(v.map(|x| $conv(x.as_ref())))
            }
        }
        impl<O: Offset, P: AsRef<$vt>> From<Vec<Option<P>>> for $name<O> {
            fn from(v: Vec<Option<P>>) -> Self {
                let mut m = Self::with_capacity(v.len());
                for x in v {
                    m.push(x);
                }
                m
            }
        }
        impl<O: Offset> MutableArray for $name<O> {
            fn data_type(&self) -> &DataType {
                &self.dt
            }
            fn len(&self) -> usize {
                self.v.len()
            }
            fn push_null(&mut self) {
                self.v.push(None)
            }
            fn as_box(&mut self) -> Box<dyn Array> {
                let (v, val) = split(&std::mem::take(&mut self.v));
                $arr::<O>::make(v, val).boxed()
            }
        }
        impl<O: Offset, T: AsRef<$vt>> TryExtend<Option<T>> for $name<O> {
            fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, iter: I) -> Result<()> {
                for x in iter {
                    self.push(x);
                }
                Ok(())
            }
        }
    };
}
mut_bytes!(MutableUtf8Array, Utf8Array, str, String, DataType::Utf8, DataType::LargeUtf8, |s: &str| s.to_string());
mut_bytes!(MutableBinaryArray, BinaryArray, [u8], Vec<u8>, DataType::Binary, DataType::LargeBinary, |s: &[u8]| s.to_vec());

#[derive(Debug, Clone)]
pub struct MutableListArray<O: Offset, M: MutableArray> {
    dt: DataType,
    offsets: Vec<O>,
    values: M,
    validity: Vec<bool>,
}
impl<O: Offset, M: MutableArray + NewArr> MutableListArray<O, M> {
    pub fn with_capacity(_n: usize) -> Self {
        let values = M::new_arr();
        let f = Box::new(Field::new("item", values.data_type().clone(), true));
        MutableListArray {
            dt: if O::IS_LARGE {
                DataType::LargeList(f)
            } else {
                DataType::List(f)
            },
            offsets: vec![O::from_usize_(0)],
            values,
            validity: vec![],
        }
    }
}
pub trait NewArr {
    fn new_arr() -> Self;
}
impl<T: NativeType> NewArr for MutablePrimitiveArray<T> {
    fn new_arr() -> Self {
        Self::new()
    }
}
impl NewArr for MutableBooleanArray {
    fn new_arr() -> Self {
        Self::new()
    }
}
impl<O: Offset> NewArr for MutableUtf8Array<O> {
    fn new_arr() -> Self {
        Self::new()
    }
}
impl<O: Offset> NewArr for MutableBinaryArray<O> {
    fn new_arr() -> Self {
        Self::new()
    }
}
impl<O: Offset, M: MutableArray> MutableListArray<O, M> {
    pub fn push_null(&mut self) {
        self.offsets.push(*self.offsets.last().unwrap());
        self.validity.push(false);
    }
}
impl<O: Offset, M: MutableArray + 'static> MutableArray for MutableListArray<O, M> {
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn len(&self) -> usize {
        self.validity.len()
    }
    fn push_null(&mut self) {
        MutableListArray::push_null(self)
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        let validity = std::mem::take(&mut self.validity);
        Box::new(ListArray::<O> {
            dt: self.dt.clone(),
            offsets: OffsetsBuffer(std::mem::replace(
                &mut self.offsets,
                vec![O::from_usize_(0)],
            )),
            values: self.values.as_box(),
            validity: if validity.iter().all(|x| *x) {
                None
            } else {
                Some(validity.into())
            },
        })
    }
}
impl<O, M, I, T> TryPush<Option<I>> for MutableListArray<O, M>
where
    O: Offset,
    M: MutableArray + TryExtend<Option<T>>,
    I: IntoIterator<Item = Option<T>>,
{
    fn try_push(&mut self, item: Option<I>) -> Result<()> {
        match item {
            Some(i) => {
                self.values.try_extend(i)?;
                self.offsets.push(O::from_usize_(self.values.len()));
                self.validity.push(true);
            }
            None => self.push_null(),
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- helpers

macro_rules! with_prim {
    ($pt:expr, $t:ident => $e:expr) => {
        match $pt {
            PrimitiveType::Int8 => {
                type $t = i8;
                $e
            }
            PrimitiveType::Int16 => {
                type $t = i16;
                $e
            }
            PrimitiveType::Int32 => {
                type $t = i32;
                $e
            }
            PrimitiveType::Int64 => {
                type $t = i64;
                $e
            }
            PrimitiveType::Int128 => {
                type $t = i128;
                $e
            }
            PrimitiveType::UInt8 => {
                type $t = u8;
                $e
            }
            PrimitiveType::UInt16 => {
                type $t = u16;
                $e
            }
            PrimitiveType::UInt32 => {
                type $t = u32;
                $e
            }
            PrimitiveType::UInt64 => {
                type $t = u64;
                $e
            }
            PrimitiveType::Float32 => {
                type $t = f32;
                $e
            }
            PrimitiveType::Float64 => {
                type $t = f64;
                $e
            }
            p => unimplemented!("primitive type {p:?}"),
        }
    };
}
pub(crate) use with_prim;


pub fn new_null_array(dt: DataType, n: usize) -> Box<dyn Array> {
    let nulls = || if n == 0 { None } else { Some(vec![false; n]) };
    match dt.to_physical_type() {
        PhysicalType::Boolean => BooleanArray::make(vec![false; n], nulls()).boxed(),
        PhysicalType::Primitive(p) => with_prim!(p, T => {
            PrimitiveArray::<T>::make(dt, vec![T::default(); n], nulls()).boxed()
        }),
        PhysicalType::Utf8 => Utf8Array::<i32>::make(vec![String::new(); n], nulls()).boxed(),
        PhysicalType::LargeUtf8 => Utf8Array::<i64>::make(vec![String::new(); n], nulls()).boxed(),
        PhysicalType::Binary => BinaryArray::<i32>::make(vec![vec![]; n], nulls()).boxed(),
        PhysicalType::LargeBinary => BinaryArray::<i64>::make(vec![vec![]; n], nulls()).boxed(),
        PhysicalType::List => {
            let inner = match &dt {
                DataType::List(f) => new_null_array(f.data_type.clone(), 0),
                _ => unreachable!(),
            };
            Box::new(ListArray::<i32> {
                dt,
                offsets: OffsetsBuffer(vec![0; n + 1]),
                values: inner,
                validity: nulls().map(|v| v.into()),
            })
        }
        p => unimplemented!("{p:?}"),
    }
}

/// concatenation of (array, start, len) ranges
pub fn concat_ranges(arrs: &[&dyn Array], ranges: &[(usize, usize, usize)]) -> Box<dyn Array> {
    let dt = arrs[0].data_type().clone();
    let any_null = arrs.iter().any(|a| a.validity().is_some());
    let mut validity: Vec<bool> = vec![];
    if any_null {
        for (a, s, n) in ranges {
            for i in *s..*s + *n {
                validity.push(!arrs[*a].is_null(i));
            }
        }
    }
    let validity = if any_null && validity.iter().any(|v| !*v) {
        Some(validity)
    } else {
        None
    };
    macro_rules! gather {
        ($t:ty) => {{
            let d = arrs
                .iter()
                .map(|a| {
                    a.as_any().downcast_ref::<$t>().unwrap_or_else(|| {
                        panic!("array types differ: {:?} {:?}", a.data_type(), dt)
                    })
                })
                .collect::<Vec<_>>();
            let mut out = vec![];
            for (a, s, n) in ranges {
                out.extend_from_slice(&d[*a].values[*s..*s + *n]);
            }
            out
        }};
    }
    match dt.to_physical_type() {
        PhysicalType::Boolean => BooleanArray::make(gather!(BooleanArray), validity).boxed(),
        PhysicalType::Primitive(p) => with_prim!(p, T => {
            let v = gather!(PrimitiveArray<T>);
            PrimitiveArray::<T>::make(dt, v, validity).boxed()
        }),
        PhysicalType::Utf8 => Utf8Array::<i32>::make(gather!(Utf8Array<i32>), validity).boxed(),
        PhysicalType::LargeUtf8 => Utf8Array::<i64>::make(gather!(Utf8Array<i64>), validity).boxed(),
        PhysicalType::Binary => BinaryArray::<i32>::make(gather!(BinaryArray<i32>), validity).boxed(),
        PhysicalType::LargeBinary => {
            BinaryArray::<i64>::make(gather!(BinaryArray<i64>), validity).boxed()
        }
        PhysicalType::List => {
            let d = arrs
                .iter()
                .map(|a| a.as_any().downcast_ref::<ListArray<i32>>().unwrap())
                .collect::<Vec<_>>();
            let inner = d.iter().map(|l| l.values.as_ref()).collect::<Vec<_>>();
            let mut offs = vec![0i32];
            let mut r = vec![];
            for (a, s, n) in ranges {
                for i in *s..*s + *n {
                    let (x, y) = d[*a].offsets.start_end(i);
                    r.push((*a, x, y - x));
                    offs.push(offs.last().unwrap() + (y - x) as i32);
                }
            }
            Box::new(ListArray::<i32> {
                dt,
                offsets: OffsetsBuffer(offs),
                values: concat_ranges(&inner, &r),
                validity: validity.map(|v| v.into()),
            })
        }
        p => unimplemented!("{p:?}"),
    }
}

pub mod growable {
    use super::*;
    pub trait Growable<'a> {
        fn extend(&mut self, index: usize, start: usize, len: usize);
        fn as_box(&mut self) -> Box<dyn Array>;
    }
    struct G<'a> {
        arrs: Vec<&'a dyn Array>,
        r: Vec<(usize, usize, usize)>,
    }
    impl<'a> Growable<'a> for G<'a> {
        fn extend(&mut self, index: usize, start: usize, len: usize) {
            assert!(start + len <= self.arrs[index].len(), "growable out of range");
            self.r.push((index, start, len));
        }
        fn as_box(&mut self) -> Box<dyn Array> {
            concat_ranges(&self.arrs, &std::mem::take(&mut self.r))
        }
    }
    pub fn make_growable<'a>(
        arrays: &[&'a dyn Array],
        _use_validity: bool,
        _capacity: usize,
    ) -> Box<dyn Growable<'a> + 'a> {
        Box::new(G {
            arrs: arrays.to_vec(),
            r: vec![],
        })
    }
}

pub fn err(m: impl Into<String>) -> Error {
    Error::InvalidArgumentError(m.into())
}
