//! Stand-in for `parquet2`: the same page / row group / footer structure and API, with an own byte
//! encoding (this crate is both the only writer and the only reader of these files).
pub mod error {
    use std::fmt;
    #[derive(Debug, Clone)]
    pub enum Error {
        OutOfSpec(String),
        FeatureNotSupported(String),
        InvalidParameter(String),
        WouldOverAllocate,
        Transport(String),
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::Transport(format!("underlying IO error: {e}"))
        }
    }
    impl Error {
        pub fn oos<I: Into<String>>(m: I) -> Self {
            Error::OutOfSpec(m.into())
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
pub use fallible_streaming_iterator::FallibleStreamingIterator;

pub mod compression {
    use crate::error::Error;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ZstdLevel(i32);
    impl ZstdLevel {
        pub fn try_new(l: i32) -> Result<Self, Error> {
            if (1..=22).contains(&l) {
                Ok(ZstdLevel(l))
            } else {
                Err(Error::InvalidParameter(format!("zstd level {l}")))
            }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct GzipLevel(u8);
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct BrotliLevel(u32);
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CompressionOptions {
        Uncompressed,
        Snappy,
        Gzip(Option<GzipLevel>),
        Lzo,
        Brotli(Option<BrotliLevel>),
        Lz4,
        Zstd(Option<ZstdLevel>),
        Lz4Raw,
    }
}
pub mod encoding {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Encoding {
        Plain,
        PlainDictionary,
        Rle,
        BitPacked,
        DeltaBinaryPacked,
        DeltaLengthByteArray,
        DeltaByteArray,
        RleDictionary,
        ByteStreamSplit,
    }
}
pub mod schema {
    pub mod types {
        use serde::Deserialize;
        use serde::Serialize;
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub enum PhysicalType {
            Boolean,
            Int32,
            Int64,
            Int96,
            Float,
            Double,
            ByteArray,
            FixedLenByteArray(usize),
        }
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub struct FieldInfo {
            pub name: String,
            pub nullable: bool,
        }
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub struct PrimitiveType {
            pub field_info: FieldInfo,
            pub physical_type: PhysicalType,
            /// serialized arrow type of the whole column
            pub logical: String,
        }
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub enum ParquetType {
            PrimitiveType(PrimitiveType),
        }
        impl ParquetType {
            pub fn name(&self) -> &str {
                match self {
                    ParquetType::PrimitiveType(p) => &p.field_info.name,
                }
            }
        }
    }
}
pub mod metadata {
    use serde::Deserialize;
    use serde::Serialize;

    use crate::schema::types::ParquetType;
    use crate::schema::types::PrimitiveType;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Descriptor {
        pub primitive_type: PrimitiveType,
        pub max_def_level: i16,
        pub max_rep_level: i16,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ColumnDescriptor {
        pub descriptor: Descriptor,
        pub path_in_schema: Vec<String>,
        pub base_type: ParquetType,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SchemaDescriptor {
        pub(crate) name: String,
        pub(crate) leaves: Vec<ColumnDescriptor>,
    }
    impl SchemaDescriptor {
        pub fn __new(name: String, leaves: Vec<ColumnDescriptor>) -> Self {
            SchemaDescriptor { name, leaves }
        }
        pub fn name(&self) -> &str {
            &self.name
        }
        pub fn columns(&self) -> &[ColumnDescriptor] {
            &self.leaves
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct KeyValue {
        pub key: String,
        pub value: Option<String>,
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct PageLoc {
        pub(crate) offset: u64,
        pub(crate) len: u64,
        pub(crate) num_values: usize,
        pub(crate) num_rows: usize,
        pub(crate) uncompressed: usize,
        pub(crate) stats: Option<crate::page::RawStats>,
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct ColumnChunkMetaData {
        pub(crate) descr: ColumnDescriptor,
        pub(crate) pages: Vec<PageLoc>,
    }
    impl ColumnChunkMetaData {
        pub fn descriptor(&self) -> &ColumnDescriptor {
            &self.descr
        }
        /// Per-page raw statistics; None when a page was written without them.
        pub fn __page_stats(&self) -> Option<Vec<crate::page::RawStats>> {
            self.pages.iter().map(|p| p.stats.clone()).collect()
        }
        pub fn num_values(&self) -> i64 {
            self.pages.iter().map(|p| p.num_values as i64).sum()
        }
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct RowGroupMetaData {
        pub(crate) columns: Vec<ColumnChunkMetaData>,
        pub(crate) num_rows: usize,
    }
    impl RowGroupMetaData {
        pub fn columns(&self) -> &[ColumnChunkMetaData] {
            &self.columns
        }
        pub fn num_rows(&self) -> usize {
            self.num_rows
        }
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct FileMetaData {
        pub version: i32,
        pub num_rows: usize,
        pub created_by: Option<String>,
        pub row_groups: Vec<RowGroupMetaData>,
        pub key_value_metadata: Option<Vec<KeyValue>>,
        pub schema_descr: SchemaDescriptor,
    }
    impl FileMetaData {
        pub fn schema(&self) -> &SchemaDescriptor {
            &self.schema_descr
        }
        pub fn key_value_metadata(&self) -> &Option<Vec<KeyValue>> {
            &self.key_value_metadata
        }
    }
}
pub mod statistics {
    use std::any::Any;
    use std::fmt::Debug;

    use crate::schema::types::PhysicalType;
    pub trait Statistics: Debug + Send + Sync {
        fn as_any(&self) -> &dyn Any;
        fn physical_type(&self) -> &PhysicalType;
        fn null_count(&self) -> Option<i64>;
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct PrimitiveStatistics<T> {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<T>,
        pub max_value: Option<T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BinaryStatistics {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<Vec<u8>>,
        pub max_value: Option<Vec<u8>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct FixedLenStatistics {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub distinct_count: Option<i64>,
        pub min_value: Option<Vec<u8>>,
        pub max_value: Option<Vec<u8>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BooleanStatistics {
        pub physical_type: PhysicalType,
        pub null_count: Option<i64>,
        pub min_value: Option<bool>,
        pub max_value: Option<bool>,
    }
    impl<T: Debug + Send + Sync + 'static> Statistics for PrimitiveStatistics<T> {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn physical_type(&self) -> &PhysicalType {
            &self.physical_type
        }
        fn null_count(&self) -> Option<i64> {
            self.null_count
        }
    }
    macro_rules! im { ($($t:ty)*) => { $( impl Statistics for $t {
        fn as_any(&self) -> &dyn Any { self }
        fn physical_type(&self) -> &PhysicalType { &self.physical_type }
        fn null_count(&self) -> Option<i64> { self.null_count }
    } )* } }
    im!(BinaryStatistics FixedLenStatistics BooleanStatistics);
}
pub mod page {
    use std::sync::Arc;

    use serde::Deserialize;
    use serde::Serialize;

    use crate::error::Result;
    use crate::schema::types::PhysicalType;
    use crate::statistics::*;
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    pub struct RawStats {
        pub physical_type: PhysicalType,
        pub null_count: i64,
        pub min: Option<Vec<u8>>,
        pub max: Option<Vec<u8>>,
    }
    impl RawStats {
        fn typed(&self) -> Arc<dyn Statistics> {
            macro_rules! prim {
                ($t:ty) => {
                    Arc::new(PrimitiveStatistics::<$t> {
                        physical_type: self.physical_type,
                        null_count: Some(self.null_count),
                        distinct_count: None,
                        min_value: self.min.as_ref().map(|b| <$t>::from_le_bytes(b[..].try_into().unwrap())),
                        max_value: self.max.as_ref().map(|b| <$t>::from_le_bytes(b[..].try_into().unwrap())),
                    })
                };
            }
            match self.physical_type {
                PhysicalType::Int32 => prim!(i32),
                PhysicalType::Int64 => prim!(i64),
                PhysicalType::Float => prim!(f32),
                PhysicalType::Double => prim!(f64),
                PhysicalType::Boolean => Arc::new(BooleanStatistics {
                    physical_type: self.physical_type,
                    null_count: Some(self.null_count),
                    min_value: self.min.as_ref().map(|b| b[0] != 0),
                    max_value: self.max.as_ref().map(|b| b[0] != 0),
                }),
                PhysicalType::ByteArray => Arc::new(BinaryStatistics {
                    physical_type: self.physical_type,
                    null_count: Some(self.null_count),
                    distinct_count: None,
                    min_value: self.min.clone(),
                    max_value: self.max.clone(),
                }),
                PhysicalType::FixedLenByteArray(_) => Arc::new(FixedLenStatistics {
                    physical_type: self.physical_type,
                    null_count: Some(self.null_count),
                    distinct_count: None,
                    min_value: self.min.clone(),
                    max_value: self.max.clone(),
                }),
                PhysicalType::Int96 => unimplemented!("int96 statistics"),
            }
        }
    }
    /// An uncompressed data page.
    #[derive(Debug, Clone)]
    pub struct DataPage {
        pub __buffer: Vec<u8>,
        pub __num_values: usize,
        pub __num_rows: usize,
        pub __stats: Option<RawStats>,
    }
    impl DataPage {
        pub fn num_values(&self) -> usize {
            self.__num_values
        }
        pub fn buffer(&self) -> &[u8] {
            &self.__buffer
        }
    }
    #[derive(Debug, Clone)]
    pub enum Page {
        Data(DataPage),
        Dict(DictPage),
    }
    #[derive(Debug, Clone)]
    pub struct DictPage {}
    #[derive(Debug, Clone)]
    pub struct CompressedDictPage {}
    #[derive(Debug, Clone)]
    pub struct CompressedDataPage {
        pub(crate) buffer: Vec<u8>,
        pub(crate) num_values: usize,
        pub(crate) num_rows: usize,
        pub(crate) uncompressed: usize,
        pub(crate) stats: Option<RawStats>,
    }
    impl CompressedDataPage {
        pub fn num_values(&self) -> usize {
            self.num_values
        }
        pub fn uncompressed_size(&self) -> usize {
            self.uncompressed
        }
        pub fn compressed_size(&self) -> usize {
            self.buffer.len()
        }
        pub fn statistics(&self) -> Option<Result<Arc<dyn Statistics>>> {
            self.stats.as_ref().map(|s| Ok(s.typed()))
        }
    }
    #[derive(Debug, Clone)]
    pub enum CompressedPage {
        Data(CompressedDataPage),
        Dict(CompressedDictPage),
    }
}
pub mod read {
    use std::io::Read;
    use std::io::Seek;
    use std::io::SeekFrom;
    use std::sync::Arc;

    use crate::error::Error;
    use crate::error::Result;
    use crate::metadata::ColumnChunkMetaData;
    use crate::metadata::FileMetaData;
    use crate::page::*;
    pub(crate) const MAGIC: &[u8; 4] = b"PAR1";

    pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
        let len = r.seek(SeekFrom::End(0))?;
        if len < 12 {
            return Err(Error::oos("A parquet file must contain a header and footer with at least 12 bytes"));
        }
        r.seek(SeekFrom::Start(len - 8))?;
        let mut b = [0u8; 8];
        r.read_exact(&mut b)?;
        if &b[4..] != MAGIC {
            return Err(Error::oos("The file must end with PAR1"));
        }
        let fl = u32::from_le_bytes(b[..4].try_into().unwrap()) as u64;
        if fl + 12 > len {
            return Err(Error::oos("The footer size must be smaller or equal to the file's size"));
        }
        r.seek(SeekFrom::Start(len - 8 - fl))?;
        let mut f = vec![0u8; fl as usize];
        r.read_exact(&mut f)?;
        let md = bincode::deserialize(&f).map_err(|e| Error::oos(format!("footer: {e}")))?;
        r.seek(SeekFrom::Start(0))?;
        Ok(md)
    }
    pub type PageFilter = Arc<dyn Fn(&ColumnChunkMetaData) -> bool + Send + Sync>;
    pub fn get_page_iterator<R: Read + Seek>(
        column: &ColumnChunkMetaData,
        mut reader: R,
        _filter: Option<PageFilter>,
        _scratch: Vec<u8>,
        max_page_size: usize,
    ) -> Result<std::vec::IntoIter<Result<CompressedPage>>> {
        let mut out = vec![];
        for p in &column.pages {
            if p.len as usize > max_page_size {
                out.push(Err(Error::WouldOverAllocate));
                break;
            }
            reader.seek(SeekFrom::Start(p.offset))?;
            let mut b = vec![0u8; p.len as usize];
            reader.read_exact(&mut b)?;
            out.push(Ok(CompressedPage::Data(CompressedDataPage {
                buffer: b,
                num_values: p.num_values,
                num_rows: p.num_rows,
                uncompressed: p.uncompressed,
                stats: p.stats.clone(),
            })));
        }
        Ok(out.into_iter())
    }
    pub fn decompress(page: CompressedPage, _buf: &mut Vec<u8>) -> Result<Page> {
        match page {
            CompressedPage::Data(p) => {
                let b = p.buffer.get(1..).ok_or_else(|| Error::oos("empty page"))?.to_vec();
                if p.buffer[0] != 0xC5 || b.len() != p.uncompressed {
                    return Err(Error::oos("corrupt page"));
                }
                Ok(Page::Data(DataPage { __buffer: b, __num_values: p.num_values, __num_rows: p.num_rows, __stats: p.stats }))
            }
            CompressedPage::Dict(_) => Ok(Page::Dict(DictPage {})),
        }
    }
}
pub mod write {
    use std::io::Write;

    use crate::compression::CompressionOptions;
    use crate::error::Error;
    use crate::error::Result;
    use crate::metadata::*;
    use crate::page::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Version {
        V1,
        V2,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct WriteOptions {
        pub write_statistics: bool,
        pub version: Version,
    }
    pub fn compress(page: Page, _buf: Vec<u8>, _c: CompressionOptions) -> Result<CompressedPage> {
        Ok(match page {
            Page::Data(p) => {
                let un = p.__buffer.len();
                let mut buffer = Vec::with_capacity(un + 1);
                buffer.push(0xC5);
                buffer.extend_from_slice(&p.__buffer);
                CompressedPage::Data(CompressedDataPage {
                    buffer,
                    num_values: p.__num_values,
                    num_rows: p.__num_rows,
                    uncompressed: un,
                    stats: p.__stats,
                })
            }
            Page::Dict(_) => CompressedPage::Dict(CompressedDictPage {}),
        })
    }
    pub struct FileSeqWriter<W: Write> {
        w: W,
        schema: SchemaDescriptor,
        created_by: Option<String>,
        offset: u64,
        groups: Vec<RowGroupMetaData>,
        cols: Vec<Vec<PageLoc>>,
        cur: Vec<PageLoc>,
        started: bool,
    }
    impl<W: Write> FileSeqWriter<W> {
        pub fn new(w: W, schema: SchemaDescriptor, _o: WriteOptions, created_by: Option<String>) -> Self {
            FileSeqWriter { w, schema, created_by, offset: 0, groups: vec![], cols: vec![], cur: vec![], started: false }
        }
        fn start(&mut self) -> Result<()> {
            if !self.started {
                self.w.write_all(crate::read::MAGIC)?;
                self.offset = 4;
                self.started = true;
            }
            Ok(())
        }
        pub fn write_page(&mut self, p: &CompressedPage) -> Result<()> {
            self.start()?;
            match p {
                CompressedPage::Data(p) => {
                    self.w.write_all(&p.buffer)?;
                    self.cur.push(PageLoc {
                        offset: self.offset,
                        len: p.buffer.len() as u64,
                        num_values: p.num_values,
                        num_rows: p.num_rows,
                        uncompressed: p.uncompressed,
                        stats: p.stats.clone(),
                    });
                    self.offset += p.buffer.len() as u64;
                    Ok(())
                }
                CompressedPage::Dict(_) => Err(Error::FeatureNotSupported("dictionary page".into())),
            }
        }
        pub fn end_column(&mut self) -> Result<()> {
            self.cols.push(std::mem::take(&mut self.cur));
            Ok(())
        }
        pub fn end_row_group(&mut self) -> Result<()> {
            self.start()?;
            let cols = std::mem::take(&mut self.cols);
            if cols.len() != self.schema.columns().len() {
                return Err(Error::InvalidParameter(format!(
                    "row group has {} columns, the schema {}",
                    cols.len(),
                    self.schema.columns().len()
                )));
            }
            let num_rows = cols.first().map(|c| c.iter().map(|p| p.num_rows).sum()).unwrap_or(0);
            let columns = cols
                .into_iter()
                .zip(self.schema.columns())
                .map(|(pages, d)| ColumnChunkMetaData { descr: d.clone(), pages })
                .collect();
            self.groups.push(RowGroupMetaData { columns, num_rows });
            // the bytes of a finished row group are visible in the file
            self.w.flush()?;
            Ok(())
        }
        pub fn end(&mut self, kv: Option<Vec<KeyValue>>) -> Result<u64> {
            self.start()?;
            let md = FileMetaData {
                version: 2,
                num_rows: self.groups.iter().map(|g| g.num_rows).sum(),
                created_by: self.created_by.clone(),
                row_groups: std::mem::take(&mut self.groups),
                key_value_metadata: kv,
                schema_descr: self.schema.clone(),
            };
            let f = bincode::serialize(&md).map_err(|e| Error::oos(e.to_string()))?;
            self.w.write_all(&f)?;
            self.w.write_all(&(f.len() as u32).to_le_bytes())?;
            self.w.write_all(crate::read::MAGIC)?;
            self.w.flush()?;
            Ok(self.offset + f.len() as u64 + 8)
        }
        pub fn into_inner(self) -> W {
            self.w
        }
    }
}
