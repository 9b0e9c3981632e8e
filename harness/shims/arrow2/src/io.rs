pub mod print {
    use crate::array::Array;
    use crate::chunk::Chunk;
    pub fn write<A: AsRef<dyn Array>, S: AsRef<str>>(chunks: &[Chunk<A>], names: &[S]) -> String {
        let mut o = names.iter().map(|n| n.as_ref().to_string()).collect::<Vec<_>>().join(" | ");
        for c in chunks {
            for a in c.arrays() {
                o.push_str(&format!("\n{:?}", a.as_ref()));
            }
        }
        o
    }
}
pub mod parquet {
    fn logical(dt: &crate::datatypes::DataType) -> String {
        serde_json::to_string(dt).unwrap()
    }
    fn physical(dt: &crate::datatypes::DataType) -> parquet2::schema::types::PhysicalType {
        use parquet2::schema::types::PhysicalType as Q;

        use crate::datatypes::DataType;
        use crate::datatypes::PhysicalType;
        use crate::types::PrimitiveType as P;
        match dt.to_physical_type() {
            PhysicalType::Boolean => Q::Boolean,
            PhysicalType::Primitive(p) => match p {
                P::Int8 | P::Int16 | P::Int32 | P::UInt8 | P::UInt16 | P::UInt32 => Q::Int32,
                P::Int64 | P::UInt64 => Q::Int64,
                P::Float32 => Q::Float,
                P::Float64 => Q::Double,
                P::Int128 => match dt.to_logical_type() {
                    DataType::Decimal(p, _) if *p <= 9 => Q::Int32,
                    DataType::Decimal(p, _) if *p <= 18 => Q::Int64,
                    _ => Q::FixedLenByteArray(16),
                },
                _ => Q::FixedLenByteArray(16),
            },
            PhysicalType::Null => Q::Int32,
            PhysicalType::List | PhysicalType::LargeList => match dt.to_logical_type() {
                DataType::List(f) | DataType::LargeList(f) => physical(&f.data_type),
                _ => unreachable!(),
            },
            PhysicalType::FixedSizeBinary => match dt.to_logical_type() {
                DataType::FixedSizeBinary(n) => Q::FixedLenByteArray(*n),
                _ => unreachable!(),
            },
            _ => Q::ByteArray,
        }
    }

    pub mod write {
        pub use parquet2::compression::CompressionOptions;
        pub use parquet2::encoding::Encoding;
        use parquet2::metadata::ColumnDescriptor;
        use parquet2::metadata::Descriptor;
        pub use parquet2::metadata::KeyValue;
        pub use parquet2::metadata::SchemaDescriptor;
        use parquet2::page::DataPage;
        use parquet2::page::Page;
        use parquet2::page::RawStats;
        use parquet2::schema::types::FieldInfo;
        pub use parquet2::schema::types::ParquetType;
        use parquet2::schema::types::PhysicalType as Q;
        use parquet2::schema::types::PrimitiveType as ParquetPrimitive;
        pub use parquet2::write::Version;

        use crate::array::*;
        use crate::chunk::Chunk;
        use crate::datatypes::DataType;
        use crate::datatypes::PhysicalType;
        use crate::datatypes::Schema;
        use crate::error::Error;
        use crate::error::Result;
        use crate::types::NativeType;
        use crate::types::PrimitiveType as P;

        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct WriteOptions {
            pub write_statistics: bool,
            pub version: Version,
            pub compression: CompressionOptions,
            pub data_pagesize_limit: Option<usize>,
        }

        pub fn to_parquet_schema(s: &Schema) -> Result<SchemaDescriptor> {
            let leaves = s
                .fields
                .iter()
                .map(|f| {
                    let pt = ParquetPrimitive {
                        field_info: FieldInfo { name: f.name.clone(), nullable: f.is_nullable },
                        physical_type: super::physical(&f.data_type),
                        logical: super::logical(&f.data_type),
                    };
                    let list = matches!(f.data_type.to_physical_type(), PhysicalType::List | PhysicalType::LargeList);
                    let path = if list {
                        vec![f.name.clone(), "list".to_string(), "item".to_string()]
                    } else {
                        vec![f.name.clone()]
                    };
                    ColumnDescriptor {
                        descriptor: Descriptor {
                            primitive_type: pt.clone(),
                            max_def_level: f.is_nullable as i16 + 2 * list as i16,
                            max_rep_level: list as i16,
                        },
                        path_in_schema: path,
                        base_type: ParquetType::PrimitiveType(pt),
                    }
                })
                .collect();
            Ok(SchemaDescriptor::__new("root".to_string(), leaves))
        }
        pub fn add_arrow_schema(schema: &Schema, kv: Option<Vec<KeyValue>>) -> Option<Vec<KeyValue>> {
            let mut v = kv.unwrap_or_default();
            v.push(KeyValue { key: "ARROW:schema".to_string(), value: Some(serde_json::to_string(schema).unwrap()) });
            Some(v)
        }
        pub fn transverse<T, F: Fn(&DataType) -> T + Clone>(dt: &DataType, map: F) -> Vec<T> {
            match dt.to_logical_type() {
                DataType::List(f) | DataType::LargeList(f) | DataType::FixedSizeList(f, _) => transverse(&f.data_type, map),
                DataType::Struct(fs) => fs.iter().flat_map(|f| transverse(&f.data_type, map.clone())).collect(),
                d => vec![map(d)],
            }
        }
        fn leaf(a: &dyn Array) -> Box<dyn Array> {
            match a.data_type().to_physical_type() {
                PhysicalType::List => {
                    let l = a.as_any().downcast_ref::<ListArray<i32>>().unwrap();
                    let b = l.offsets().buffer();
                    let (s, e) = (b[0] as usize, *b.last().unwrap() as usize);
                    leaf(l.values().sliced(s, e - s).as_ref())
                }
                PhysicalType::LargeList => {
                    let l = a.as_any().downcast_ref::<ListArray<i64>>().unwrap();
                    let b = l.offsets().buffer();
                    let (s, e) = (b[0] as usize, *b.last().unwrap() as usize);
                    leaf(l.values().sliced(s, e - s).as_ref())
                }
                _ => a.to_boxed(),
            }
        }
        fn stats(a: &dyn Array) -> Option<RawStats> {
            let a = leaf(a);
            let a = a.as_ref();
            let q = super::physical(a.data_type());
            let ix: Vec<usize> = (0..a.len()).filter(|i| a.is_valid(*i)).collect();
            let min = ix.iter().copied().min_by(|x, y| a.__cmp(*x, *y));
            let max = ix.iter().copied().max_by(|x, y| a.__cmp(*x, *y));
            fn prim<T: NativeType>(a: &dyn Array, i: usize) -> T {
                a.as_any().downcast_ref::<PrimitiveArray<T>>().unwrap().value(i)
            }
            let get = |i: usize| -> Vec<u8> {
                match a.data_type().to_physical_type() {
                    PhysicalType::Boolean => vec![a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i) as u8],
                    PhysicalType::Primitive(p) => match p {
                        P::Int8 => (prim::<i8>(a, i) as i32).to_le_bytes().to_vec(),
                        P::Int16 => (prim::<i16>(a, i) as i32).to_le_bytes().to_vec(),
                        P::Int32 => prim::<i32>(a, i).to_le_bytes().to_vec(),
                        P::UInt8 => (prim::<u8>(a, i) as i32).to_le_bytes().to_vec(),
                        P::UInt16 => (prim::<u16>(a, i) as i32).to_le_bytes().to_vec(),
                        P::UInt32 => (prim::<u32>(a, i) as i32).to_le_bytes().to_vec(),
                        P::Int64 => prim::<i64>(a, i).to_le_bytes().to_vec(),
                        P::UInt64 => (prim::<u64>(a, i) as i64).to_le_bytes().to_vec(),
                        P::Float32 => prim::<f32>(a, i).to_le_bytes().to_vec(),
                        P::Float64 => prim::<f64>(a, i).to_le_bytes().to_vec(),
                        P::Int128 => match q {
                            Q::Int32 => (prim::<i128>(a, i) as i32).to_le_bytes().to_vec(),
                            Q::Int64 => (prim::<i128>(a, i) as i64).to_le_bytes().to_vec(),
                            _ => prim::<i128>(a, i).to_be_bytes().to_vec(),
                        },
                        _ => vec![],
                    },
                    PhysicalType::Utf8 => a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().value(i).as_bytes().to_vec(),
                    PhysicalType::LargeUtf8 => a.as_any().downcast_ref::<Utf8Array<i64>>().unwrap().value(i).as_bytes().to_vec(),
                    PhysicalType::Binary => a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap().value(i).to_vec(),
                    PhysicalType::LargeBinary => a.as_any().downcast_ref::<BinaryArray<i64>>().unwrap().value(i).to_vec(),
                    _ => vec![],
                }
            };
            Some(RawStats { physical_type: q, null_count: (a.len() - ix.len()) as i64, min: min.map(get), max: max.map(get) })
        }
        fn byte_size(a: &dyn Array) -> usize {
            let v = a.validity().map(|v| v.len() / 8).unwrap_or(0);
            v + match a.data_type().to_physical_type() {
                PhysicalType::Boolean => a.len() / 8,
                PhysicalType::Primitive(p) => {
                    a.len()
                        * match p {
                            P::Int8 | P::UInt8 => 1,
                            P::Int16 | P::UInt16 | P::Float16 => 2,
                            P::Int32 | P::UInt32 | P::Float32 => 4,
                            P::Int128 | P::MonthDayNano => 16,
                            P::Int256 => 32,
                            _ => 8,
                        }
                }
                PhysicalType::Utf8 => a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().values_iter().map(|s| s.len() + 4).sum(),
                PhysicalType::LargeUtf8 => a.as_any().downcast_ref::<Utf8Array<i64>>().unwrap().values_iter().map(|s| s.len() + 8).sum(),
                PhysicalType::Binary => a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap().values_iter().map(|s| s.len() + 4).sum(),
                PhysicalType::LargeBinary => a.as_any().downcast_ref::<BinaryArray<i64>>().unwrap().values_iter().map(|s| s.len() + 8).sum(),
                PhysicalType::List | PhysicalType::LargeList => byte_size(leaf(a).as_ref()) + a.len() * 4,
                _ => a.len() * 8,
            }
        }
        pub type DynIter = std::vec::IntoIter<Result<Page>>;
        /// Pages of one array, split like arrow2: every page holds `limit / bytes-per-row` rows (default limit 1 MiB).
        pub fn array_to_pages(array: &dyn Array, o: WriteOptions) -> Result<DynIter> {
            let n = array.len();
            let limit = o.data_pagesize_limit.unwrap_or(1024 * 1024);
            let per_row = if n == 0 { 0 } else { byte_size(array) / (n + 1) };
            let rows = (limit / (per_row + 1)).max(1);
            let mut out = vec![];
            let mut i = 0;
            while i < n {
                let l = rows.min(n - i);
                let a = array.sliced(i, l);
                let num_values = match a.data_type().to_physical_type() {
                    // as in parquet: a list page counts its leaf entries, an empty or null list counts one
                    PhysicalType::List => {
                        let x = a.as_any().downcast_ref::<ListArray<i32>>().unwrap();
                        (0..l).map(|r| if x.is_null(r) { 1 } else { let (s, e) = x.offsets().start_end(r); (e - s).max(1) }).sum()
                    }
                    PhysicalType::LargeList => {
                        let x = a.as_any().downcast_ref::<ListArray<i64>>().unwrap();
                        (0..l).map(|r| if x.is_null(r) { 1 } else { let (s, e) = x.offsets().start_end(r); (e - s).max(1) }).sum()
                    }
                    _ => l,
                };
                out.push(Ok(Page::Data(DataPage {
                    __buffer: bincode::serialize(&crate::array::encode(a.as_ref())).map_err(|e| Error::oos(e.to_string()))?,
                    __num_values: num_values,
                    __num_rows: l,
                    __stats: if o.write_statistics { stats(a.as_ref()) } else { None },
                })));
                i += l;
            }
            Ok(out.into_iter())
        }
        pub fn array_to_columns<A: AsRef<dyn Array> + Send + Sync>(
            array: A,
            _type: ParquetType,
            o: WriteOptions,
            _e: &[Encoding],
        ) -> Result<Vec<DynIter>> {
            Ok(vec![array_to_pages(array.as_ref(), o)?])
        }

        pub struct RowGroupIterator<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> {
            it: I,
            o: WriteOptions,
            schema: SchemaDescriptor,
        }
        impl<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> RowGroupIterator<A, I> {
            pub fn try_new(it: I, schema: &Schema, o: WriteOptions, encodings: Vec<Vec<Encoding>>) -> Result<Self> {
                if encodings.len() != schema.fields.len() {
                    return Err(Error::InvalidArgumentError("The number of encodings must equal the number of fields".to_string()));
                }
                Ok(RowGroupIterator { it, o, schema: to_parquet_schema(schema)? })
            }
            pub fn parquet_schema(&self) -> &SchemaDescriptor {
                &self.schema
            }
        }
        pub struct RowGroup(Vec<Vec<Page>>);
        impl<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> Iterator for RowGroupIterator<A, I> {
            type Item = Result<RowGroup>;
            fn next(&mut self) -> Option<Self::Item> {
                let c = self.it.next()?;
                Some(c.and_then(|c| {
                    if c.arrays().len() != self.schema.columns().len() {
                        return Err(Error::InvalidArgumentError("The number of arrays in the chunk must equal the number of fields in the schema".to_string()));
                    }
                    let cols = c
                        .arrays()
                        .iter()
                        .map(|a| array_to_pages(a.as_ref(), self.o)?.collect::<Result<Vec<_>>>())
                        .collect::<Result<Vec<_>>>()?;
                    Ok(RowGroup(cols))
                }))
            }
        }
        pub struct FileWriter<W: std::io::Write> {
            w: parquet2::write::FileSeqWriter<W>,
            schema: Schema,
            o: WriteOptions,
        }
        impl<W: std::io::Write> FileWriter<W> {
            pub fn try_new(w: W, schema: Schema, o: WriteOptions) -> Result<Self> {
                let ps = to_parquet_schema(&schema)?;
                let wo = parquet2::write::WriteOptions { write_statistics: o.write_statistics, version: o.version };
                Ok(FileWriter { w: parquet2::write::FileSeqWriter::new(w, ps, wo, None), schema, o })
            }
            pub fn schema(&self) -> &Schema {
                &self.schema
            }
            pub fn write(&mut self, g: RowGroup) -> Result<()> {
                for col in g.0 {
                    for p in col {
                        let c = parquet2::write::compress(p, vec![], self.o.compression)?;
                        self.w.write_page(&c)?;
                    }
                    self.w.end_column()?;
                }
                Ok(self.w.end_row_group()?)
            }
            pub fn end(&mut self, kv: Option<Vec<KeyValue>>) -> Result<u64> {
                let kv = add_arrow_schema(&self.schema, kv);
                Ok(self.w.end(kv)?)
            }
            pub fn into_inner(self) -> W {
                self.w.into_inner()
            }
        }
    }

    pub mod read {
        use std::io::Read;
        use std::io::Seek;

        use fallible_streaming_iterator::FallibleStreamingIterator;
        pub use parquet2::error::Error as ParquetError;
        pub use parquet2::metadata::FileMetaData;
        pub use parquet2::metadata::RowGroupMetaData;
        use parquet2::page::Page;
        use parquet2::schema::types::PrimitiveType;

        use crate::array::Array;
        use crate::chunk::Chunk;
        use crate::datatypes::DataType;
        use crate::datatypes::Field;
        use crate::datatypes::Schema;
        use crate::error::Error;
        use crate::error::Result;

        pub mod schema {
            pub mod convert {
                use parquet2::schema::types::PrimitiveType;

                use crate::datatypes::DataType;
                pub fn to_primitive_type(p: &PrimitiveType) -> DataType {
                    serde_json::from_str(&p.logical).unwrap()
                }
            }
        }
        pub mod statistics {
            use parquet2::schema::types::PhysicalType as Q;

            use super::*;
            use crate::array::*;
            pub struct Statistics {
                pub null_count: Box<dyn Array>,
                pub distinct_count: Box<dyn Array>,
                pub min_value: Box<dyn Array>,
                pub max_value: Box<dyn Array>,
            }
            /// One value per row group: the column chunk's bounds, null where there are none.
            pub fn deserialize(field: &Field, row_groups: &[RowGroupMetaData]) -> Result<Statistics> {
                let mut nulls = vec![];
                let mut bounds: Vec<(Option<Vec<u8>>, Option<Vec<u8>>)> = vec![];
                let mut phys = None;
                for g in row_groups {
                    let c = g
                        .columns()
                        .iter()
                        .find(|c| c.descriptor().path_in_schema[0] == field.name)
                        .ok_or_else(|| Error::oos(format!("column {} not in the file", field.name)))?;
                    let st = c.__page_stats();
                    let mut min: Option<Vec<u8>> = None;
                    let mut max: Option<Vec<u8>> = None;
                    nulls.push(st.as_ref().map(|v| v.iter().map(|s| s.null_count as u64).sum::<u64>()));
                    for s in st.unwrap_or_default() {
                        phys = Some(s.physical_type);
                        let cmp = |a: &[u8], b: &[u8]| match s.physical_type {
                            Q::Int32 => i32::from_le_bytes(a.try_into().unwrap()).cmp(&i32::from_le_bytes(b.try_into().unwrap())),
                            Q::Int64 => i64::from_le_bytes(a.try_into().unwrap()).cmp(&i64::from_le_bytes(b.try_into().unwrap())),
                            Q::Float => f32::from_le_bytes(a.try_into().unwrap()).total_cmp(&f32::from_le_bytes(b.try_into().unwrap())),
                            Q::Double => f64::from_le_bytes(a.try_into().unwrap()).total_cmp(&f64::from_le_bytes(b.try_into().unwrap())),
                            _ => a.cmp(b),
                        };
                        if let Some(m) = &s.min {
                            if min.as_ref().map(|x| cmp(m, x).is_lt()).unwrap_or(true) {
                                min = Some(m.clone());
                            }
                        }
                        if let Some(m) = &s.max {
                            if max.as_ref().map(|x| cmp(m, x).is_gt()).unwrap_or(true) {
                                max = Some(m.clone());
                            }
                        }
                    }
                    bounds.push((min, max));
                }
                let mk = |v: Vec<Option<Vec<u8>>>| -> Box<dyn Array> {
                    macro_rules! p {
                        ($t:ty) => {
                            Box::new(
                                PrimitiveArray::<$t>::from(
                                    v.iter().map(|b| b.as_ref().map(|b| <$t>::from_le_bytes(b[..].try_into().unwrap()))).collect::<Vec<_>>(),
                                )
                                .to(field.data_type.clone()),
                            )
                        };
                    }
                    use crate::datatypes::PhysicalType as P;
                    use crate::datatypes::PrimitiveType as T;
                    match (phys, field.data_type.to_physical_type()) {
                        (Some(Q::Int64), P::Primitive(T::Int64)) => p!(i64),
                        (Some(Q::Int32), P::Primitive(T::Int32)) => p!(i32),
                        (Some(Q::Float), P::Primitive(T::Float32)) => p!(f32),
                        (Some(Q::Double), P::Primitive(T::Float64)) => p!(f64),
                        (Some(Q::ByteArray), P::Utf8) => Box::new(Utf8Array::<i32>::from(
                            v.iter().map(|b| b.as_ref().map(|b| String::from_utf8_lossy(b).into_owned())).collect::<Vec<_>>(),
                        )),
                        (Some(Q::ByteArray), P::LargeUtf8) => Box::new(Utf8Array::<i64>::from(
                            v.iter().map(|b| b.as_ref().map(|b| String::from_utf8_lossy(b).into_owned())).collect::<Vec<_>>(),
                        )),
                        _ => new_null_array(field.data_type.clone(), v.len()),
                    }
                };
                Ok(Statistics {
                    distinct_count: new_null_array(DataType::UInt64, nulls.len()),
                    null_count: Box::new(PrimitiveArray::<u64>::from(nulls)),
                    min_value: mk(bounds.iter().map(|b| b.0.clone()).collect()),
                    max_value: mk(bounds.iter().map(|b| b.1.clone()).collect()),
                })
            }
        }
        pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
            Ok(parquet2::read::read_metadata(r)?)
        }
        pub fn infer_schema(md: &FileMetaData) -> Result<Schema> {
            if let Some(kv) = &md.key_value_metadata {
                if let Some(v) = kv.iter().find(|k| k.key == "ARROW:schema").and_then(|k| k.value.as_ref()) {
                    return serde_json::from_str(v).map_err(|e| Error::oos(e.to_string()));
                }
            }
            let fields = md
                .schema()
                .columns()
                .iter()
                .map(|c| {
                    let p = &c.descriptor.primitive_type;
                    Field::new(p.field_info.name.clone(), schema::convert::to_primitive_type(p), p.field_info.nullable)
                })
                .collect::<Vec<_>>();
            Ok(Schema::from(fields))
        }
        pub type ArrayIter<'a> = Box<dyn Iterator<Item = Result<Box<dyn Array>>> + Send + Sync + 'a>;
        fn page_array(p: &Page, dt: &DataType) -> Result<Box<dyn Array>> {
            match p {
                Page::Data(d) => {
                    let e: crate::array::Enc = bincode::deserialize(d.buffer()).map_err(|e| Error::oos(e.to_string()))?;
                    crate::array::decode(e, dt)
                }
                Page::Dict(_) => Err(Error::nyi("dictionary page")),
            }
        }
        fn split(all: Vec<Box<dyn Array>>, dt: &DataType, chunk: Option<usize>, num_rows: usize) -> Result<Vec<Box<dyn Array>>> {
            let refs: Vec<&dyn Array> = all.iter().map(|a| a.as_ref()).collect();
            let a = if refs.is_empty() {
                crate::array::new_empty_array(dt.clone())
            } else {
                crate::compute::concatenate::concatenate(&refs)?
            };
            let n = a.len().min(num_rows);
            let a = a.sliced(0, n);
            Ok(match chunk {
                None => vec![a],
                Some(c) => {
                    let mut v = vec![];
                    let mut i = 0;
                    while i < n {
                        let l = c.min(n - i);
                        v.push(a.sliced(i, l));
                        i += l;
                    }
                    v
                }
            })
        }
        pub fn column_iter_to_arrays<'a, I>(
            columns: Vec<I>,
            _types: Vec<&PrimitiveType>,
            field: Field,
            chunk_size: Option<usize>,
            num_rows: usize,
        ) -> Result<ArrayIter<'a>>
        where
            I: FallibleStreamingIterator<Item = Page, Error = ParquetError>,
        {
            let mut arrs = vec![];
            for mut c in columns {
                while let Some(p) = c.next()? {
                    arrs.push(page_array(p, &field.data_type)?);
                }
            }
            let v = split(arrs, &field.data_type, chunk_size, num_rows)?;
            Ok(Box::new(v.into_iter().map(Ok)))
        }
        pub mod deserialize {
            use super::*;
            pub use super::column_iter_to_arrays;
            pub fn page_iter_to_arrays<'a, I>(
                mut pages: I,
                _type: &PrimitiveType,
                data_type: DataType,
                chunk_size: Option<usize>,
                num_rows: usize,
            ) -> Result<ArrayIter<'a>>
            where
                I: FallibleStreamingIterator<Item = Page, Error = ParquetError>,
            {
                let mut arrs = vec![];
                while let Some(p) = pages.next()? {
                    arrs.push(page_array(p, &data_type)?);
                }
                let v = split(arrs, &data_type, chunk_size, num_rows)?;
                Ok(Box::new(v.into_iter().map(Ok)))
            }
        }
        pub struct FileReader<R: Read + Seek> {
            r: R,
            groups: std::vec::IntoIter<RowGroupMetaData>,
            schema: Schema,
            chunk_size: Option<usize>,
            remaining: usize,
            cur: std::collections::VecDeque<Chunk<Box<dyn Array>>>,
        }
        impl<R: Read + Seek> FileReader<R> {
            pub fn new(
                r: R,
                groups: Vec<RowGroupMetaData>,
                schema: Schema,
                chunk_size: Option<usize>,
                limit: Option<usize>,
                _page_indexes: Option<Vec<()>>,
            ) -> Self {
                FileReader {
                    r,
                    groups: groups.into_iter(),
                    schema,
                    chunk_size,
                    remaining: limit.unwrap_or(usize::MAX),
                    cur: Default::default(),
                }
            }
            pub fn schema(&self) -> &Schema {
                &self.schema
            }
            fn load(&mut self, g: RowGroupMetaData) -> Result<()> {
                let rows = g.num_rows().min(self.remaining);
                self.remaining -= rows;
                let mut cols = vec![];
                for f in &self.schema.fields {
                    let c = g
                        .columns()
                        .iter()
                        .find(|c| c.descriptor().path_in_schema[0] == f.name)
                        .ok_or_else(|| Error::oos(format!("column {} not in the file", f.name)))?;
                    let mut arrs = vec![];
                    for p in parquet2::read::get_page_iterator(c, &mut self.r, None, vec![], usize::MAX)? {
                        let p = parquet2::read::decompress(p?, &mut vec![])?;
                        arrs.push(page_array(&p, &f.data_type)?);
                    }
                    cols.push(split(arrs, &f.data_type, self.chunk_size.map(|c| c.min(rows).max(1)), rows)?);
                }
                let n = cols.iter().map(|c| c.len()).max().unwrap_or(0);
                if cols.iter().any(|c| c.len() != n) {
                    return Err(Error::oos("columns of a row group have different lengths"));
                }
                for i in 0..n {
                    self.cur.push_back(Chunk::try_new(cols.iter().map(|c| c[i].clone()).collect())?);
                }
                Ok(())
            }
        }
        impl<R: Read + Seek> Iterator for FileReader<R> {
            type Item = Result<Chunk<Box<dyn Array>>>;
            fn next(&mut self) -> Option<Self::Item> {
                loop {
                    if let Some(c) = self.cur.pop_front() {
                        return Some(Ok(c));
                    }
                    if self.schema.fields.is_empty() || self.remaining == 0 {
                        return None;
                    }
                    let g = self.groups.next()?;
                    if let Err(e) = self.load(g) {
                        return Some(Err(e));
                    }
                }
            }
        }
    }
}
