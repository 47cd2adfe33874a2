pub mod parquet {
    pub mod read {
        pub use crate::pq::error::Error as ParquetError;
        pub use crate::pq::metadata::FileMetaData;
        pub use crate::pq::metadata::RowGroupMetaData;
        use crate::array::*;
        use crate::chunk::Chunk;
        use crate::datatypes::*;
        use crate::error::Error;
        use crate::error::Result;
        use crate::pq;
        use crate::pq::page::Page;
        use fallible_streaming_iterator::FallibleStreamingIterator;
        use std::io::Read;
        use std::io::Seek;
        pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
            Ok(pq::read::read_metadata(r)?)
        }
        pub fn infer_schema(md: &FileMetaData) -> Result<Schema> {
            Ok(Schema::from(
                md.schema()
                    .columns()
                    .iter()
                    .map(|c| c.base_type.field.clone())
                    .collect::<Vec<_>>(),
            ))
        }
        pub mod schema {
            pub mod convert {
                use crate::datatypes::DataType;
                pub fn to_primitive_type(t: &crate::pq::schema::types::PrimitiveType) -> DataType {
                    t.field.data_type.clone()
                }
            }
        }
        pub type ArrayIter = std::vec::IntoIter<Result<Box<dyn Array>>>;
        fn pages_to_array<I>(mut pages: I, dt: &DataType) -> Result<Box<dyn Array>>
        where I: FallibleStreamingIterator<Item = Page, Error = ParquetError> {
            let mut arrs = vec![];
            while let Some(p) = pages.next().map_err(Error::from)? {
                arrs.push(pq::page_to_array(p, dt)?);
            }
            if arrs.is_empty() {
                return Ok(new_null_array(dt.clone(), 0));
            }
            let refs = arrs.iter().map(|a| a.as_ref()).collect::<Vec<_>>();
            crate::compute::concatenate::concatenate(&refs)
        }
        fn split(a: Box<dyn Array>, chunk: Option<usize>) -> Vec<Result<Box<dyn Array>>> {
            let n = a.len();
            match chunk {
                Some(c) if c < n => (0..n)
                    .step_by(c)
                    .map(|s| Ok(a.sliced(s, c.min(n - s))))
                    .collect(),
                _ => vec![Ok(a)],
            }
        }
        pub fn column_iter_to_arrays<I>(
            columns: Vec<I>,
            _types: Vec<&pq::schema::types::PrimitiveType>,
            field: Field,
            chunk_size: Option<usize>,
            _num_rows: usize,
        ) -> Result<ArrayIter>
        where
            I: FallibleStreamingIterator<Item = Page, Error = ParquetError>,
        {
            let c = columns.into_iter().next().unwrap();
            Ok(split(pages_to_array(c, &field.data_type)?, chunk_size).into_iter())
        }
        pub mod deserialize {
            use super::*;
            pub fn page_iter_to_arrays<I>(
                pages: I,
                _type: &pq::schema::types::PrimitiveType,
                dt: DataType,
                chunk_size: Option<usize>,
                _num_rows: usize,
            ) -> Result<ArrayIter>
            where
                I: FallibleStreamingIterator<Item = Page, Error = ParquetError>,
            {
                Ok(split(pages_to_array(pages, &dt)?, chunk_size).into_iter())
            }
        }
        pub mod statistics {
            use super::*;
            pub struct Statistics {
                pub min_value: Box<dyn Array>,
                pub max_value: Box<dyn Array>,
            }
            pub fn deserialize(field: &Field, groups: &[RowGroupMetaData]) -> Result<Statistics> {
                let mut mins = vec![];
                let mut maxs = vec![];
                for g in groups {
                    let c = g
                        .columns()
                        .iter()
                        .find(|c| c.descriptor().path_in_schema[0] == field.name)
                        .ok_or_else(|| Error::oos("no such column"))?;
                    let (mi, ma) = c.min_max();
                    mins.push(mi);
                    maxs.push(ma);
                }
                Ok(Statistics {
                    min_value: pq::payload::PStat::to_array(&mins, &field.data_type),
                    max_value: pq::payload::PStat::to_array(&maxs, &field.data_type),
                })
            }
        }
        pub struct FileReader<R: Read + Seek> {
            r: R,
            groups: std::vec::IntoIter<RowGroupMetaData>,
            schema: Schema,
            chunk_size: Option<usize>,
            cur: std::collections::VecDeque<Chunk<Box<dyn Array>>>,
        }
        impl<R: Read + Seek> FileReader<R> {
            pub fn new(
                r: R,
                groups: Vec<RowGroupMetaData>,
                schema: Schema,
                chunk_size: Option<usize>,
                _limit: Option<usize>,
                _pages: Option<()>,
            ) -> Self {
                FileReader {
                    r,
                    groups: groups.into_iter(),
                    schema,
                    chunk_size,
                    cur: Default::default(),
                }
            }
            fn load(&mut self, g: RowGroupMetaData) -> Result<()> {
                let mut cols: Vec<Vec<Box<dyn Array>>> = vec![];
                for f in &self.schema.fields {
                    let c = g
                        .columns()
                        .iter()
                        .find(|c| c.descriptor().path_in_schema[0] == f.name)
                        .ok_or_else(|| Error::oos("column not in row group"))?;
                    let mut arrs = vec![];
                    for p in pq::read::get_page_iterator(c, &mut self.r, None, vec![], usize::MAX)? {
                        let p = pq::read::decompress(p?, &mut vec![])?;
                        arrs.push(pq::page_to_array(&p, &f.data_type)?);
                    }
                    let refs = arrs.iter().map(|a| a.as_ref()).collect::<Vec<_>>();
                    let a = if refs.is_empty() {
                        new_null_array(f.data_type.clone(), 0)
                    } else {
                        crate::compute::concatenate::concatenate(&refs)?
                    };
                    cols.push(
                        split(a, self.chunk_size)
                            .into_iter()
                            .collect::<Result<Vec<_>>>()?,
                    );
                }
                if cols.is_empty() {
                    return Ok(());
                }
                for i in 0..cols[0].len() {
                    let mut v = vec![];
                    for c in &cols {
                        v.push(
                            c.get(i)
                                .ok_or_else(|| Error::oos("columns of a row group differ in length"))?
                                .clone(),
                        );
                    }
                    self.cur.push_back(Chunk::try_new(v)?);
                }
                Ok(())
            }
        }
        impl<R: Read + Seek> Iterator for FileReader<R> {
            type Item = Result<Chunk<Box<dyn Array>>>;
            fn next(&mut self) -> Option<Self::Item> {
                loop {
                    if let Some(c) = self.cur.pop_front() {
                        return Some(Ok(c));
                    }
                    let g = self.groups.next()?;
                    if let Err(e) = self.load(g) {
                        return Some(Err(e));
                    }
                }
            }
        }
    }
    pub mod write {
        pub use crate::pq::compression::CompressionOptions;
        pub use crate::pq::encoding::Encoding;
        pub use crate::pq::write::Version;
        use crate::array::Array;
        use crate::chunk::Chunk;
        use crate::datatypes::*;
        use crate::error::Result;
        use crate::pq;
        use crate::pq::metadata::SchemaDescriptor;
        use crate::pq::page::Page;
        use crate::pq::schema::types::ParquetType;
        use std::io::Write;
        #[derive(Clone, Copy, Debug)]
        pub struct WriteOptions {
            pub write_statistics: bool,
            pub compression: CompressionOptions,
            pub version: Version,
            pub data_pagesize_limit: Option<usize>,
        }
        pub fn transverse<T, F: Fn(&DataType) -> T + Clone>(dt: &DataType, map: F) -> Vec<T> {
            match dt {
                DataType::List(f) => transverse(&f.data_type, map),
                d => vec![map(d)],
            }
        }
        pub fn to_parquet_schema(s: &Schema) -> Result<SchemaDescriptor> {
            Ok(SchemaDescriptor::from_fields(&s.fields))
        }
        pub fn add_arrow_schema(
            _s: &Schema,
            kv: Option<Vec<(String, String)>>,
        ) -> Option<Vec<(String, String)>> {
            kv
        }
        pub fn array_to_columns<A: AsRef<dyn Array> + Send + Sync>(
            a: A,
            t: ParquetType,
            o: WriteOptions,
            _e: &[Encoding],
        ) -> Result<Vec<std::vec::IntoIter<Result<Page>>>> {
            let a = a.as_ref();
            // as arrow2: at most `limit` bytes of values per page
            let limit = o.data_pagesize_limit.unwrap_or(1024 * 1024);
            let n = a.len();
            let bytes = pq::byte_size(a);
            let per_row = if n == 0 { 1 } else { bytes / n + 1 };
            let rows = (limit / per_row).max(1);
            let mut out = vec![];
            let mut s = 0;
            loop {
                let l = rows.min(n - s);
                out.push(Ok(pq::array_to_page(
                    a.sliced(s, l).as_ref(),
                    &t,
                    o.write_statistics,
                )));
                s += l;
                if s >= n {
                    break;
                }
            }
            Ok(vec![out.into_iter()])
        }
        pub struct RowGroupIterator<I> {
            it: I,
            schema: Schema,
            opts: WriteOptions,
        }
        impl<A, I> RowGroupIterator<I>
        where
            A: AsRef<dyn Array> + Clone + Send + Sync,
            I: Iterator<Item = Result<Chunk<A>>>,
        {
            pub fn try_new(
                it: I,
                schema: &Schema,
                opts: WriteOptions,
                _e: Vec<Vec<Encoding>>,
            ) -> Result<Self> {
                Ok(RowGroupIterator {
                    it,
                    schema: schema.clone(),
                    opts,
                })
            }
        }
        impl<A, I> Iterator for RowGroupIterator<I>
        where
            A: AsRef<dyn Array> + Clone + Send + Sync,
            I: Iterator<Item = Result<Chunk<A>>>,
        {
            type Item = Result<Vec<Vec<Page>>>;
            fn next(&mut self) -> Option<Self::Item> {
                let c = match self.it.next()? {
                    Ok(c) => c,
                    Err(e) => return Some(Err(e)),
                };
                if c.arrays().len() != self.schema.fields.len() {
                    return Some(Err(crate::error::Error::InvalidArgumentError(
                        "The number of arrays in the chunk must equal the number of fields in the schema".into(),
                    )));
                }
                let d = SchemaDescriptor::from_fields(&self.schema.fields);
                let mut out = vec![];
                for (a, cd) in c.arrays().iter().zip(d.columns()) {
                    let pages = match array_to_columns(
                        a.clone(),
                        cd.base_type.clone(),
                        self.opts,
                        &[Encoding::Plain],
                    ) {
                        Ok(mut p) => p.pop().unwrap().collect::<Result<Vec<_>>>(),
                        Err(e) => return Some(Err(e)),
                    };
                    match pages {
                        Ok(p) => out.push(p),
                        Err(e) => return Some(Err(e)),
                    }
                }
                Some(Ok(out))
            }
        }
        pub struct FileWriter<W: Write> {
            w: pq::write::FileSeqWriter<W>,
            opts: WriteOptions,
        }
        impl<W: Write> FileWriter<W> {
            pub fn try_new(w: W, schema: Schema, opts: WriteOptions) -> Result<Self> {
                let d = to_parquet_schema(&schema)?;
                Ok(FileWriter {
                    w: pq::write::FileSeqWriter::new(
                        w,
                        d,
                        pq::write::WriteOptions {
                            write_statistics: opts.write_statistics,
                            version: opts.version,
                        },
                        None,
                    ),
                    opts,
                })
            }
            pub fn write(&mut self, g: Vec<Vec<Page>>) -> Result<()> {
                for col in g {
                    for p in col {
                        let p = pq::write::compress(p, vec![], self.opts.compression)?;
                        self.w.write_page(&p)?;
                    }
                    self.w.end_column()?;
                }
                self.w.end_row_group()?;
                Ok(())
            }
            pub fn end(&mut self, kv: Option<Vec<(String, String)>>) -> Result<u64> {
                Ok(self.w.end(kv)?)
            }
        }
    }
}
