//! Buckets in memory. A multipart upload's object is there from its completion on.
//! `faults` makes an operation on a bucket fail.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub use bytes::Bytes;

#[derive(Debug)]
pub enum Error {
    Generic { store: &'static str, source: Box<dyn std::error::Error + Send + Sync> },
    NotFound { path: String },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn failed(what: &str) -> Error {
    Error::Generic { store: "GCS", source: format!("{what}: connection reset").into() }
}

pub mod path {
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Path(String);
    impl From<&str> for Path {
        fn from(s: &str) -> Self {
            Path(s.split('/').filter(|p| !p.is_empty()).collect::<Vec<_>>().join("/"))
        }
    }
    impl From<String> for Path {
        fn from(s: String) -> Self {
            s.as_str().into()
        }
    }
    impl AsRef<str> for Path {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
    impl std::fmt::Display for Path {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
}
use path::Path;

#[derive(Default)]
pub struct Bucket {
    pub key: String,
    pub objects: HashMap<String, Vec<u8>>,
    /// uploads begun and neither completed nor given up
    pub open: usize,
    pub fault: Option<Fault>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Create,
    Part(usize),
    Complete,
}
static BUCKETS: Mutex<Option<HashMap<String, Arc<Mutex<Bucket>>>>> = Mutex::new(None);
pub fn bucket(name: &str) -> Arc<Mutex<Bucket>> {
    BUCKETS.lock().unwrap().get_or_insert_with(HashMap::new).entry(name.to_string()).or_default().clone()
}
pub fn drop_bucket(name: &str) {
    BUCKETS.lock().unwrap().get_or_insert_with(HashMap::new).remove(name);
}

#[derive(Clone, Debug, Default)]
pub struct PutPayload(Vec<u8>);
impl<T: AsRef<[u8]>> From<T> for PutPayload {
    fn from(b: T) -> Self {
        PutPayload(b.as_ref().to_vec())
    }
}
#[derive(Clone, Debug, Default)]
pub struct PutResult {
    pub e_tag: Option<String>,
    pub version: Option<String>,
}
#[async_trait::async_trait]
pub trait MultipartUpload: Send + std::fmt::Debug {
    async fn put_part(&mut self, p: PutPayload) -> Result<()>;
    async fn complete(&mut self) -> Result<PutResult>;
    async fn abort(&mut self) -> Result<()>;
}
#[async_trait::async_trait]
pub trait ObjectStore: Send + Sync {
    async fn put(&self, p: &Path, d: PutPayload) -> Result<PutResult>;
    async fn put_multipart(&self, p: &Path) -> Result<Box<dyn MultipartUpload>>;
    async fn delete(&self, p: &Path) -> Result<()>;
}

pub mod gcp {
    use super::*;
    #[derive(Clone, Default)]
    pub struct GoogleCloudStorageBuilder {
        bucket: String,
        key: String,
    }
    impl GoogleCloudStorageBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_bucket_name(mut self, b: impl Into<String>) -> Self {
            self.bucket = b.into();
            self
        }
        pub fn with_service_account_key(mut self, k: impl Into<String>) -> Self {
            self.key = k.into();
            self
        }
        pub fn build(self) -> Result<GoogleCloudStorage> {
            if self.bucket.is_empty() || !self.key.starts_with('{') {
                return Err(failed("unable to decode service account file"));
            }
            Ok(GoogleCloudStorage { name: self.bucket, key: self.key })
        }
    }
    #[derive(Clone, Debug)]
    pub struct GoogleCloudStorage {
        name: String,
        key: String,
    }
    #[derive(Debug)]
    struct Upload {
        bucket: String,
        path: String,
        parts: Vec<Vec<u8>>,
        open: bool,
    }
    impl GoogleCloudStorage {
        fn open(&self) -> Result<Arc<Mutex<Bucket>>> {
            let b = bucket(&self.name);
            let g = b.lock().unwrap();
            if g.key != self.key {
                return Err(failed("403"));
            }
            if g.fault == Some(Fault::Create) {
                return Err(failed("create"));
            }
            drop(g);
            Ok(b)
        }
    }
    #[async_trait::async_trait]
    impl ObjectStore for GoogleCloudStorage {
        async fn put(&self, p: &Path, d: PutPayload) -> Result<PutResult> {
            let b = self.open()?;
            let mut g = b.lock().unwrap();
            if g.fault.is_some() {
                return Err(failed("put"));
            }
            g.objects.insert(p.to_string(), d.0);
            Ok(PutResult::default())
        }
        async fn put_multipart(&self, p: &Path) -> Result<Box<dyn MultipartUpload>> {
            let b = self.open()?;
            b.lock().unwrap().open += 1;
            Ok(Box::new(Upload { bucket: self.name.clone(), path: p.to_string(), parts: vec![], open: true }))
        }
        async fn delete(&self, p: &Path) -> Result<()> {
            let b = self.open()?;
            b.lock().unwrap().objects.remove(p.as_ref());
            Ok(())
        }
    }
    #[async_trait::async_trait]
    impl MultipartUpload for Upload {
        async fn put_part(&mut self, p: PutPayload) -> Result<()> {
            let b = bucket(&self.bucket);
            let g = b.lock().unwrap();
            if let Some(Fault::Part(n)) = g.fault {
                if self.parts.len() >= n {
                    return Err(failed("part"));
                }
            }
            self.parts.push(p.0);
            Ok(())
        }
        async fn complete(&mut self) -> Result<PutResult> {
            let b = bucket(&self.bucket);
            let mut g = b.lock().unwrap();
            if g.fault == Some(Fault::Complete) {
                return Err(failed("complete"));
            }
            g.objects.insert(self.path.clone(), self.parts.concat());
            g.open -= self.open as usize;
            self.open = false;
            Ok(PutResult::default())
        }
        async fn abort(&mut self) -> Result<()> {
            bucket(&self.bucket).lock().unwrap().open -= self.open as usize;
            self.open = false;
            Ok(())
        }
    }
}

#[derive(Debug)]
pub struct WriteMultipart {
    upload: Box<dyn MultipartUpload>,
    buffer: Vec<u8>,
    parts: Vec<Vec<u8>>,
    chunk_size: usize,
}
impl WriteMultipart {
    pub fn new(upload: Box<dyn MultipartUpload>) -> Self {
        Self::new_with_chunk_size(upload, 512)
    }
    pub fn new_with_chunk_size(upload: Box<dyn MultipartUpload>, chunk_size: usize) -> Self {
        WriteMultipart { upload, buffer: vec![], parts: vec![], chunk_size }
    }
    pub async fn wait_for_capacity(&mut self, _: usize) -> Result<()> {
        for p in std::mem::take(&mut self.parts) {
            self.upload.put_part(p.into()).await?;
        }
        Ok(())
    }
    pub fn write(&mut self, mut b: &[u8]) {
        while !b.is_empty() {
            let n = b.len().min(self.chunk_size - self.buffer.len());
            self.buffer.extend(&b[..n]);
            b = &b[n..];
            if self.buffer.len() == self.chunk_size {
                self.parts.push(std::mem::take(&mut self.buffer));
            }
        }
    }
    pub fn put(&mut self, b: Bytes) {
        self.write(&b)
    }
    pub async fn abort(mut self) -> Result<()> {
        self.upload.abort().await
    }
    pub async fn finish(mut self) -> Result<PutResult> {
        if !self.buffer.is_empty() {
            self.parts.push(std::mem::take(&mut self.buffer));
        }
        if let Err(e) = self.wait_for_capacity(0).await {
            self.upload.abort().await?;
            return Err(e);
        }
        match self.upload.complete().await {
            Ok(r) => Ok(r),
            Err(e) => {
                self.upload.abort().await?;
                Err(e)
            }
        }
    }
}
