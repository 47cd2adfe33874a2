//! The parquet2 side: metadata, pages, statistics, reader and writer of the stand-in file format.
use serde::Deserialize;
use serde::Serialize;

use crate::array::*;
use crate::datatypes::DataType;
use crate::datatypes::PhysicalType as AP;
use crate::offset::OffsetsBuffer;
use crate::types::NativeType;
use crate::types::PrimitiveType;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Vals {
    Bool(Vec<bool>),
    I8(Vec<i8>),
    I16(Vec<i16>),
    I32(Vec<i32>),
    I64(Vec<i64>),
    I128(Vec<i128>),
    U8(Vec<u8>),
    U16(Vec<u16>),
    U32(Vec<u32>),
    U64(Vec<u64>),
    F32(Vec<f32>),
    F64(Vec<f64>),
    Bytes(Vec<Vec<u8>>),
    List(Vec<u64>, Box<Payload>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Payload {
    pub validity: Option<Vec<bool>>,
    pub vals: Vals,
}
impl Payload {
    /// null slots compare equal whatever they hold
    pub fn canon(&self) -> String {
        let n = |i: usize| self.validity.as_ref().map(|v| !v[i]).unwrap_or(false);
        macro_rules! c {
            ($v:expr) => {
                $v.iter()
                    .enumerate()
                    .map(|(i, x)| if n(i) { "~".to_string() } else { format!("{x:?}") })
                    .collect::<Vec<_>>()
                    .join(",")
            };
        }
        match &self.vals {
            Vals::Bool(v) => c!(v),
            Vals::I8(v) => c!(v),
            Vals::I16(v) => c!(v),
            Vals::I32(v) => c!(v),
            Vals::I64(v) => c!(v),
            Vals::I128(v) => c!(v),
            Vals::U8(v) => c!(v),
            Vals::U16(v) => c!(v),
            Vals::U32(v) => c!(v),
            Vals::U64(v) => c!(v),
            Vals::F32(v) => c!(v),
            Vals::F64(v) => c!(v),
            Vals::Bytes(v) => c!(v),
            Vals::List(o, p) => format!("{:?}|{}|{}", self.validity, c!(o), p.canon()),
        }
    }
}

pub fn to_payload(a: &dyn Array) -> Payload {
    let validity = a.validity().map(|v| v.iter().collect::<Vec<_>>());
    macro_rules! d {
        ($t:ty) => {
            a.as_any()
                .downcast_ref::<$t>()
                .unwrap_or_else(|| panic!("array is not what its type {:?} says", a.data_type()))
        };
    }
    let vals = match a.data_type().to_physical_type() {
        AP::Boolean => Vals::Bool(d!(BooleanArray).values.to_vec()),
        AP::Primitive(p) => with_prim!(p, T => <T as NativeType>::wrap(d!(PrimitiveArray<T>).values.to_vec())),
        AP::Utf8 => Vals::Bytes(d!(Utf8Array<i32>).values.iter().map(|s| s.as_bytes().to_vec()).collect()),
        AP::LargeUtf8 => Vals::Bytes(d!(Utf8Array<i64>).values.iter().map(|s| s.as_bytes().to_vec()).collect()),
        AP::Binary => Vals::Bytes(d!(BinaryArray<i32>).values.to_vec()),
        AP::LargeBinary => Vals::Bytes(d!(BinaryArray<i64>).values.to_vec()),
        AP::List => {
            let l = d!(ListArray<i32>);
            Vals::List(l.offsets.0.iter().map(|x| *x as u64).collect(), Box::new(to_payload(l.values.as_ref())))
        }
        p => unimplemented!("{p:?}"),
    };
    Payload { validity, vals }
}

fn bad(m: &str) -> crate::error::Error {
    crate::error::Error::ExternalFormat(m.to_string())
}

pub fn from_payload(p: &Payload, dt: &DataType) -> crate::error::Result<Box<dyn Array>> {
    let v = p.validity.clone();
    let bytes = || match &p.vals {
        Vals::Bytes(b) => Ok(b.clone()),
        _ => Err(bad("page type differs from column type")),
    };
    let strs = || -> crate::error::Result<Vec<String>> {
        bytes()?
            .into_iter()
            .map(|b| String::from_utf8(b).map_err(|_| bad("invalid utf8")))
            .collect()
    };
    Ok(match dt.to_physical_type() {
        AP::Boolean => match &p.vals {
            Vals::Bool(b) => BooleanArray::make(b.clone(), v).boxed(),
            _ => return Err(bad("page type differs from column type")),
        },
        AP::Primitive(pt) => with_prim!(pt, T => {
            let vals = <T as NativeType>::unwrap(&p.vals).ok_or_else(|| bad("page type differs from column type"))?;
            PrimitiveArray::<T>::make(dt.clone(), vals, v).boxed()
        }),
        AP::Utf8 => Utf8Array::<i32>::make(strs()?, v).boxed(),
        AP::LargeUtf8 => Utf8Array::<i64>::make(strs()?, v).boxed(),
        AP::Binary => BinaryArray::<i32>::make(bytes()?, v).boxed(),
        AP::LargeBinary => BinaryArray::<i64>::make(bytes()?, v).boxed(),
        AP::List => match (&p.vals, dt) {
            (Vals::List(o, inner), DataType::List(f)) => Box::new(ListArray::<i32> {
                dt: dt.clone(),
                offsets: OffsetsBuffer(o.iter().map(|x| *x as i32).collect()),
                values: from_payload(inner, &f.data_type)?,
                validity: v.map(|v| v.into()),
            }),
            _ => return Err(bad("page type differs from column type")),
        },
        p => unimplemented!("{p:?}"),
    })
}

pub fn byte_size(a: &dyn Array) -> usize {
    match a.data_type().to_physical_type() {
        AP::Boolean => a.len() / 8 + 1,
        AP::Primitive(p) => with_prim!(p, T => a.len() * std::mem::size_of::<T>()),
        _ => bincode::serialize(&to_payload(a)).unwrap().len(),
    }
}

pub mod payload {
    use super::*;
    /// min or max of one page or column chunk
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum PStat {
        None,
        Bool(bool),
        I32(i32),
        I64(i64),
        F32(f32),
        F64(f64),
        Bytes(Vec<u8>),
        I128(i128),
    }
    impl PStat {
        pub fn lt(&self, o: &PStat) -> bool {
            match (self, o) {
                (PStat::Bool(a), PStat::Bool(b)) => a < b,
                (PStat::I32(a), PStat::I32(b)) => a < b,
                (PStat::I64(a), PStat::I64(b)) => a < b,
                (PStat::F32(a), PStat::F32(b)) => a < b,
                (PStat::F64(a), PStat::F64(b)) => a < b,
                (PStat::Bytes(a), PStat::Bytes(b)) => a < b,
                (PStat::I128(a), PStat::I128(b)) => a < b,
                _ => false,
            }
        }
        pub fn to_array(v: &[PStat], dt: &DataType) -> Box<dyn Array> {
            match dt.to_physical_type() {
                AP::Primitive(PrimitiveType::Int64) => {
                    let mut m = MutablePrimitiveArray::<i64>::new();
                    for s in v {
                        m.push(match s {
                            PStat::I64(x) => Some(*x),
                            _ => None,
                        });
                    }
                    m.to(dt.clone()).as_box()
                }
                AP::Primitive(PrimitiveType::Int32) => {
                    let mut m = MutablePrimitiveArray::<i32>::new();
                    for s in v {
                        m.push(match s {
                            PStat::I32(x) => Some(*x),
                            _ => None,
                        });
                    }
                    m.to(dt.clone()).as_box()
                }
                _ => new_null_array(dt.clone(), v.len()),
            }
        }
    }
    pub fn stats(p: &Payload) -> (PStat, PStat) {
        let ok = |i: usize| p.validity.as_ref().map(|v| v[i]).unwrap_or(true);
        macro_rules! mm {
            ($v:expr,$f:expr) => {{
                let mut mi = PStat::None;
                let mut ma = PStat::None;
                for (i, x) in $v.iter().enumerate() {
                    if !ok(i) {
                        continue;
                    }
                    let s: PStat = $f(x);
                    if mi == PStat::None || s.lt(&mi) {
                        mi = s.clone();
                    }
                    if ma == PStat::None || ma.lt(&s) {
                        ma = s;
                    }
                }
                (mi, ma)
            }};
        }
        match &p.vals {
            Vals::Bool(v) => mm!(v, |x: &bool| PStat::Bool(*x)),
            Vals::I8(v) => mm!(v, |x: &i8| PStat::I32(*x as i32)),
            Vals::I16(v) => mm!(v, |x: &i16| PStat::I32(*x as i32)),
            Vals::I32(v) => mm!(v, |x: &i32| PStat::I32(*x)),
            Vals::I64(v) => mm!(v, |x: &i64| PStat::I64(*x)),
            Vals::I128(v) => mm!(v, |x: &i128| PStat::I128(*x)),
            Vals::U8(v) => mm!(v, |x: &u8| PStat::I32(*x as i32)),
            Vals::U16(v) => mm!(v, |x: &u16| PStat::I32(*x as i32)),
            Vals::U32(v) => mm!(v, |x: &u32| PStat::I32(*x as i32)),
            Vals::U64(v) => mm!(v, |x: &u64| PStat::I64(*x as i64)),
            Vals::F32(v) => mm!(v, |x: &f32| PStat::F32(*x)),
            Vals::F64(v) => mm!(v, |x: &f64| PStat::F64(*x)),
            Vals::Bytes(v) => mm!(v, |x: &Vec<u8>| PStat::Bytes(x.clone())),
            Vals::List(_, _) => (PStat::None, PStat::None),
        }
    }
}
use payload::PStat;

pub fn array_to_page(a: &dyn Array, _t: &schema::types::ParquetType, stats: bool) -> page::Page {
    let p = to_payload(a);
    let st = stats.then(|| payload::stats(&p));
    page::Page::Data(page::DataPage {
        num_values: a.len(),
        stats: st,
        buffer: bincode::serialize(&p).unwrap(),
    })
}
pub fn page_to_array(p: &page::Page, dt: &DataType) -> crate::error::Result<Box<dyn Array>> {
    let page::Page::Data(d) = p else {
        return Err(bad("dictionary page"));
    };
    let p: Payload = bincode::deserialize(&d.buffer).map_err(|_| bad("corrupted page"))?;
    from_payload(&p, dt)
}

pub mod error {
    #[derive(Debug)]
    pub enum Error {
        OutOfSpec(String),
        FeatureNotActive(String),
        WouldOverAllocate,
        Io(std::io::Error),
    }
    pub type Result<T> = std::result::Result<T, Error>;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::Io(e)
        }
    }
}
pub mod compression {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ZstdLevel(i32);
    impl ZstdLevel {
        pub fn try_new(v: i32) -> super::error::Result<Self> {
            if (1..=22).contains(&v) {
                Ok(ZstdLevel(v))
            } else {
                Err(super::error::Error::OutOfSpec("zstd level".into()))
            }
        }
    }
    impl Default for ZstdLevel {
        fn default() -> Self {
            ZstdLevel(3)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CompressionOptions {
        Uncompressed,
        Snappy,
        Zstd(Option<ZstdLevel>),
    }
}
pub mod encoding {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Encoding {
        Plain,
        PlainDictionary,
        Rle,
    }
}
pub mod schema {
    pub mod types {
        use serde::Deserialize;
        use serde::Serialize;
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct ParquetType {
            pub field: crate::datatypes::Field,
        }
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct PrimitiveType {
            pub field: crate::datatypes::Field,
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum PhysicalType {
            Boolean,
            Int32,
            Int64,
            Int96,
            Float,
            Double,
            ByteArray,
            FixedLenByteArray(usize),
        }
    }
}
pub mod metadata {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct Descriptor {
        pub primitive_type: schema::types::PrimitiveType,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct ColumnDescriptor {
        pub descriptor: Descriptor,
        pub path_in_schema: Vec<String>,
        pub base_type: schema::types::ParquetType,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct SchemaDescriptor {
        pub(crate) columns: Vec<ColumnDescriptor>,
    }
    impl SchemaDescriptor {
        pub fn from_fields(f: &[crate::datatypes::Field]) -> Self {
            SchemaDescriptor {
                columns: f
                    .iter()
                    .map(|f| ColumnDescriptor {
                        descriptor: Descriptor {
                            primitive_type: schema::types::PrimitiveType { field: f.clone() },
                        },
                        path_in_schema: vec![f.name.clone()],
                        base_type: schema::types::ParquetType { field: f.clone() },
                    })
                    .collect(),
            }
        }
        pub fn columns(&self) -> &[ColumnDescriptor] {
            &self.columns
        }
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct PageLoc {
        pub offset: u64,
        pub len: u64,
        pub num_values: usize,
        pub stats: Option<(PStat, PStat)>,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct ColumnChunkMetaData {
        pub(crate) descriptor: ColumnDescriptor,
        pub(crate) pages: Vec<PageLoc>,
    }
    impl ColumnChunkMetaData {
        pub fn descriptor(&self) -> &ColumnDescriptor {
            &self.descriptor
        }
        pub fn min_max(&self) -> (PStat, PStat) {
            let mut mi = PStat::None;
            let mut ma = PStat::None;
            for p in &self.pages {
                if let Some((a, b)) = &p.stats {
                    if mi == PStat::None || a.lt(&mi) {
                        mi = a.clone();
                    }
                    if ma == PStat::None || ma.lt(b) {
                        ma = b.clone();
                    }
                }
            }
            (mi, ma)
        }
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct RowGroupMetaData {
        pub(crate) columns: Vec<ColumnChunkMetaData>,
        pub(crate) num_rows: usize,
    }
    impl RowGroupMetaData {
        pub fn columns(&self) -> &[ColumnChunkMetaData] {
            &self.columns
        }
        pub fn num_rows(&self) -> usize {
            self.num_rows
        }
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct FileMetaData {
        pub(crate) schema: SchemaDescriptor,
        pub row_groups: Vec<RowGroupMetaData>,
        pub num_rows: usize,
    }
    impl FileMetaData {
        pub fn schema(&self) -> &SchemaDescriptor {
            &self.schema
        }
    }
}
pub mod statistics {
    use std::any::Any;
    use std::fmt::Debug;

    use super::schema::types::PhysicalType;
    pub trait Statistics: Send + Sync + Debug {
        fn as_any(&self) -> &dyn Any;
        fn physical_type(&self) -> &PhysicalType;
    }
    #[derive(Debug, Clone)]
    pub struct PrimitiveStatistics<T> {
        pub min_value: Option<T>,
        pub max_value: Option<T>,
        pub(crate) pt: PhysicalType,
    }
    impl<T: Debug + Send + Sync + 'static> Statistics for PrimitiveStatistics<T> {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn physical_type(&self) -> &PhysicalType {
            &self.pt
        }
    }
    #[derive(Debug, Clone)]
    pub struct BinaryStatistics {
        pub min_value: Option<Vec<u8>>,
        pub max_value: Option<Vec<u8>>,
    }
    impl Statistics for BinaryStatistics {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn physical_type(&self) -> &PhysicalType {
            &PhysicalType::ByteArray
        }
    }
    #[derive(Debug, Clone)]
    pub struct FixedLenStatistics {
        pub min_value: Option<Vec<u8>>,
        pub max_value: Option<Vec<u8>>,
    }
    impl Statistics for FixedLenStatistics {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn physical_type(&self) -> &PhysicalType {
            &PhysicalType::FixedLenByteArray(16)
        }
    }
}
pub mod page {
    use std::sync::Arc;

    use super::*;
    use crate::pq::schema::types::PhysicalType;
    use crate::pq::statistics::*;
    #[derive(Clone, Debug)]
    pub struct DataPage {
        pub(crate) num_values: usize,
        pub(crate) stats: Option<(PStat, PStat)>,
        pub(crate) buffer: Vec<u8>,
    }
    #[derive(Clone, Debug)]
    pub struct DictPage;
    #[derive(Clone, Debug)]
    pub enum Page {
        Data(DataPage),
        Dict(DictPage),
    }
    #[derive(Clone, Debug)]
    pub struct CompressedDataPage {
        pub(crate) num_values: usize,
        pub(crate) stats: Option<(PStat, PStat)>,
        pub(crate) buffer: Vec<u8>,
    }
    impl CompressedDataPage {
        pub fn num_values(&self) -> usize {
            self.num_values
        }
        pub fn uncompressed_size(&self) -> usize {
            self.buffer.len()
        }
        pub fn compressed_size(&self) -> usize {
            self.buffer.len()
        }
        pub fn statistics(&self) -> Option<error::Result<Arc<dyn Statistics>>> {
            let (a, b) = self.stats.as_ref()?;
            macro_rules! prim {
                ($v:ident,$p:ident) => {{
                    let g = |s: &PStat| match s {
                        PStat::$v(x) => Some(x.clone()),
                        _ => None,
                    };
                    Arc::new(PrimitiveStatistics {
                        min_value: g(a),
                        max_value: g(b),
                        pt: PhysicalType::$p,
                    }) as Arc<dyn Statistics>
                }};
            }
            Some(Ok(match a {
                PStat::I32(_) => prim!(I32, Int32),
                PStat::I64(_) => prim!(I64, Int64),
                PStat::F32(_) => prim!(F32, Float),
                PStat::F64(_) => prim!(F64, Double),
                PStat::Bytes(x) => Arc::new(BinaryStatistics {
                    min_value: Some(x.clone()),
                    max_value: match b {
                        PStat::Bytes(y) => Some(y.clone()),
                        _ => None,
                    },
                }),
                _ => return None,
            }))
        }
    }
    #[derive(Clone, Debug)]
    pub enum CompressedPage {
        Data(CompressedDataPage),
        Dict(DictPage),
    }
}
pub mod read {
    use std::io::Read;
    use std::io::Seek;
    use std::io::SeekFrom;

    use super::metadata::*;
    use super::page::*;
    use super::*;
    pub use super::error::Result;
    use crate::pq::error::Error;

    pub const MAGIC: &[u8; 4] = b"PSM1";

    pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
        let n = r.seek(SeekFrom::End(0))?;
        if n < 12 {
            return Err(Error::OutOfSpec("file is too small to be a parquet file".into()));
        }
        r.seek(SeekFrom::End(-8))?;
        let mut t = [0u8; 8];
        r.read_exact(&mut t)?;
        if &t[4..] != MAGIC {
            return Err(Error::OutOfSpec("The file must end with the magic".into()));
        }
        let l = u32::from_le_bytes(t[..4].try_into().unwrap()) as u64;
        if l + 12 > n {
            return Err(Error::OutOfSpec("footer larger than file".into()));
        }
        r.seek(SeekFrom::End(-8 - l as i64))?;
        let mut b = vec![0u8; l as usize];
        r.read_exact(&mut b)?;
        bincode::deserialize(&b).map_err(|_| Error::OutOfSpec("corrupted footer".into()))
    }
    pub struct PageReader<'a, R> {
        r: &'a mut R,
        pages: std::vec::IntoIter<PageLoc>,
        max: usize,
    }
    impl<'a, R: Read + Seek> Iterator for PageReader<'a, R> {
        type Item = Result<CompressedPage>;
        fn next(&mut self) -> Option<Self::Item> {
            let p = self.pages.next()?;
            let mut go = || {
                if p.len as usize > self.max {
                    return Err(Error::WouldOverAllocate);
                }
                self.r.seek(SeekFrom::Start(p.offset))?;
                let mut b = vec![0u8; p.len as usize];
                self.r.read_exact(&mut b)?;
                Ok(CompressedPage::Data(CompressedDataPage {
                    num_values: p.num_values,
                    stats: p.stats.clone(),
                    buffer: b,
                }))
            };
            Some(go())
        }
    }
    pub fn get_page_iterator<'a, R: Read + Seek>(
        c: &ColumnChunkMetaData,
        r: &'a mut R,
        _filter: Option<()>,
        _buf: Vec<u8>,
        max: usize,
    ) -> Result<PageReader<'a, R>> {
        Ok(PageReader {
            r,
            pages: c.pages.clone().into_iter(),
            max,
        })
    }
    pub fn decompress(p: CompressedPage, _buf: &mut Vec<u8>) -> Result<Page> {
        Ok(match p {
            CompressedPage::Data(d) => Page::Data(DataPage {
                num_values: d.num_values,
                stats: d.stats,
                buffer: d.buffer,
            }),
            CompressedPage::Dict(d) => Page::Dict(d),
        })
    }
}
pub mod write {
    use std::io::Write;

    use super::metadata::*;
    use super::page::*;
    use super::read::MAGIC;
    use super::*;
    use crate::pq::error::Error;
    use crate::pq::error::Result;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Version {
        V1,
        V2,
    }
    #[derive(Clone, Copy, Debug)]
    pub struct WriteOptions {
        pub write_statistics: bool,
        pub version: Version,
    }
    pub fn compress(
        p: Page,
        _buf: Vec<u8>,
        _c: super::compression::CompressionOptions,
    ) -> Result<CompressedPage> {
        Ok(match p {
            Page::Data(d) => CompressedPage::Data(CompressedDataPage {
                num_values: d.num_values,
                stats: d.stats,
                buffer: d.buffer,
            }),
            Page::Dict(d) => CompressedPage::Dict(d),
        })
    }
    pub struct FileSeqWriter<W: Write> {
        w: W,
        schema: SchemaDescriptor,
        off: u64,
        cols: Vec<ColumnChunkMetaData>,
        cur: Vec<PageLoc>,
        groups: Vec<RowGroupMetaData>,
    }
    impl<W: Write> FileSeqWriter<W> {
        pub fn new(w: W, schema: SchemaDescriptor, _o: WriteOptions, _c: Option<String>) -> Self {
            FileSeqWriter {
                w,
                schema,
                off: 0,
                cols: vec![],
                cur: vec![],
                groups: vec![],
            }
        }
        fn start(&mut self) -> Result<()> {
            if self.off == 0 {
                self.w.write_all(MAGIC)?;
                self.off = 4;
            }
            Ok(())
        }
        pub fn write_page(&mut self, p: &CompressedPage) -> Result<()> {
            self.start()?;
            let CompressedPage::Data(d) = p else {
                return Err(Error::OutOfSpec("dictionary page".into()));
            };
            self.w.write_all(&d.buffer)?;
            self.cur.push(PageLoc {
                offset: self.off,
                len: d.buffer.len() as u64,
                num_values: d.num_values,
                stats: d.stats.clone(),
            });
            self.off += d.buffer.len() as u64;
            Ok(())
        }
        pub fn end_column(&mut self) -> Result<()> {
            let i = self.cols.len();
            let cd = self
                .schema
                .columns
                .get(i)
                .cloned()
                .ok_or_else(|| Error::OutOfSpec("more columns than in the schema".into()))?;
            self.cols.push(ColumnChunkMetaData {
                descriptor: cd,
                pages: std::mem::take(&mut self.cur),
            });
            Ok(())
        }
        pub fn end_row_group(&mut self) -> Result<()> {
            if self.cols.len() != self.schema.columns.len() {
                return Err(Error::OutOfSpec("fewer columns than in the schema".into()));
            }
            // the real writer checks that all column chunks of a row group have the same length
            let rows = |c: &ColumnChunkMetaData| c.pages.iter().map(|p| p.num_values).sum::<usize>();
            let n = self.cols.first().map(rows).unwrap_or(0);
            self.groups.push(RowGroupMetaData {
                columns: std::mem::take(&mut self.cols),
                num_rows: n,
            });
            Ok(())
        }
        pub fn end(&mut self, _kv: Option<Vec<(String, String)>>) -> Result<u64> {
            self.start()?;
            let md = FileMetaData {
                schema: self.schema.clone(),
                num_rows: self.groups.iter().map(|g| g.num_rows).sum(),
                row_groups: std::mem::take(&mut self.groups),
            };
            let b = bincode::serialize(&md).unwrap();
            self.w.write_all(&b)?;
            self.w.write_all(&(b.len() as u32).to_le_bytes())?;
            self.w.write_all(MAGIC)?;
            self.w.flush()?;
            Ok(self.off + b.len() as u64 + 8)
        }
    }
}
