//! Stand-in for the part of `rocksdb::TransactionDB` that optiprism uses: pessimistic transactions
//! (writes take key locks, reads do not), read-your-own-writes, atomic commit, rollback on drop,
//! persistence through a checksummed log. Ordered like RocksDB's default comparator.
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::fmt;
use std::fs::File;
use std::fs::OpenOptions;
use std::io::Read;
use std::io::Write;
use std::path::Path;
use std::path::PathBuf;
use std::sync::Condvar;
use std::sync::Mutex;
use std::time::Duration;
use std::time::Instant;

#[derive(Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    fn new(m: impl Into<String>) -> Self {
        Error { message: m.into() }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error {{ message: {:?} }}", self.message)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::new(format!("IO error: {e}"))
    }
}

#[derive(Clone, Default)]
pub struct Options {
    create_if_missing: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct TransactionDBOptions {}
impl TransactionDBOptions {
    pub fn new() -> Self {
        Self {}
    }
}
#[derive(Default)]
pub struct TransactionOptions {}
impl TransactionOptions {
    pub fn new() -> Self {
        Self {}
    }
}
#[derive(Default)]
pub struct WriteOptions {}
impl WriteOptions {
    pub fn new() -> Self {
        Self {}
    }
    pub fn set_sync(&mut self, _: bool) {}
}
pub struct ColumnFamilyDescriptor {
    _name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _: Options) -> Self {
        ColumnFamilyDescriptor { _name: name.into() }
    }
}

pub struct MultiThreaded;
pub struct SingleThreaded;

struct Store {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    log: Option<File>,
}

pub struct TransactionDB<T = MultiThreaded> {
    store: Mutex<Store>,
    locks: Mutex<(HashMap<Vec<u8>, u64>, u64)>,
    cv: Condvar,
    path: PathBuf,
    _t: std::marker::PhantomData<fn() -> T>,
}

type Batch = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

fn enc(b: &Batch) -> Vec<u8> {
    let mut o = vec![];
    o.extend((b.len() as u32).to_le_bytes());
    for (k, v) in b {
        o.extend((k.len() as u32).to_le_bytes());
        o.extend(k);
        match v {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                o.extend((v.len() as u32).to_le_bytes());
                o.extend(v);
            }
        }
    }
    o
}
fn dec(b: &[u8]) -> Option<Vec<(Vec<u8>, Option<Vec<u8>>)>> {
    let mut p = 0;
    fn u(b: &[u8], p: &mut usize) -> Option<usize> {
        let v = u32::from_le_bytes(b.get(*p..*p + 4)?.try_into().ok()?) as usize;
        *p += 4;
        Some(v)
    }
    let n = u(b, &mut p)?;
    let mut out = vec![];
    for _ in 0..n {
        let l = u(b, &mut p)?;
        let k = b.get(p..p + l)?.to_vec();
        p += l;
        let t = *b.get(p)?;
        p += 1;
        if t == 0 {
            out.push((k, None));
        } else {
            let l = u(b, &mut p)?;
            out.push((k, Some(b.get(p..p + l)?.to_vec())));
            p += l;
        }
    }
    Some(out)
}

impl<T> TransactionDB<T> {
    pub fn open_cf_descriptors<P, I>(opts: &Options, _: &TransactionDBOptions, path: P, _cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let path = path.as_ref().to_path_buf();
        if !path.exists() {
            if !opts.create_if_missing {
                return Err(Error::new("Invalid argument: does not exist (create_if_missing is false)"));
            }
            std::fs::create_dir_all(&path)?;
        }
        let lp = path.join("000001.log");
        let mut map = BTreeMap::new();
        let mut good = 0u64;
        if let Ok(mut f) = File::open(&lp) {
            let mut b = vec![];
            f.read_to_end(&mut b)?;
            let mut p = 0;
            while p + 8 <= b.len() {
                let l = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
                let crc = u32::from_le_bytes(b[p + 4..p + 8].try_into().unwrap());
                let Some(rec) = b.get(p + 8..p + 8 + l) else { break };
                if crc32fast::hash(rec) != crc {
                    break;
                }
                for (k, v) in dec(rec).unwrap() {
                    match v {
                        None => {
                            map.remove(&k);
                        }
                        Some(v) => {
                            map.insert(k, v);
                        }
                    }
                }
                p += 8 + l;
                good = p as u64;
            }
        }
        let log = OpenOptions::new().create(true).append(true).open(&lp)?;
        log.set_len(good)?;
        Ok(TransactionDB {
            store: Mutex::new(Store { map, log: Some(log) }),
            locks: Mutex::new((HashMap::new(), 0)),
            cv: Condvar::new(),
            path,
            _t: Default::default(),
        })
    }
    pub fn open<P: AsRef<Path>>(opts: &Options, tx: &TransactionDBOptions, path: P) -> Result<Self, Error> {
        Self::open_cf_descriptors(opts, tx, path, Vec::new())
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB<T>> {
        let mut l = self.locks.lock().unwrap_or_else(|e| e.into_inner());
        l.1 += 1;
        Transaction { db: self, id: l.1, writes: Mutex::new(BTreeMap::new()) }
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        let t = self.transaction();
        t.put(k, v)?;
        t.commit()
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        let t = self.transaction();
        t.delete(k)?;
        t.commit()
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.st().map.get(k.as_ref()).cloned())
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> KvIter {
        self.transaction().prefix_iterator(p)
    }
    fn st(&self) -> std::sync::MutexGuard<'_, Store> {
        self.store.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// harness-only: every committed key and value
    pub fn __dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.st().map.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}

pub struct Transaction<'a, D: TxParent> {
    db: &'a D,
    id: u64,
    writes: Mutex<Batch>,
}
#[doc(hidden)]
pub trait TxParent {
    fn lock_key(&self, id: u64, k: &[u8]) -> Result<(), Error>;
    fn unlock_all(&self, id: u64);
    fn base_get(&self, k: &[u8]) -> Option<Vec<u8>>;
    fn base_from(&self, k: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)>;
    fn apply(&self, b: &Batch) -> Result<(), Error>;
}
impl<T> TxParent for TransactionDB<T> {
    fn lock_key(&self, id: u64, k: &[u8]) -> Result<(), Error> {
        let end = Instant::now() + Duration::from_millis(1000);
        let mut l = self.locks.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            match l.0.get(k) {
                Some(o) if *o != id => {}
                _ => {
                    l.0.insert(k.to_vec(), id);
                    return Ok(());
                }
            }
            let now = Instant::now();
            if now >= end {
                return Err(Error::new("Operation timed out: Timeout waiting to lock key"));
            }
            l = self.cv.wait_timeout(l, end - now).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    fn unlock_all(&self, id: u64) {
        let mut l = self.locks.lock().unwrap_or_else(|e| e.into_inner());
        l.0.retain(|_, v| *v != id);
        self.cv.notify_all();
    }
    fn base_get(&self, k: &[u8]) -> Option<Vec<u8>> {
        self.st().map.get(k).cloned()
    }
    fn base_from(&self, k: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.st().map.range(k.to_vec()..).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    fn apply(&self, b: &Batch) -> Result<(), Error> {
        if b.is_empty() {
            return Ok(());
        }
        let rec = enc(b);
        let mut st = self.st();
        if let Some(f) = st.log.as_mut() {
            let mut o = Vec::with_capacity(rec.len() + 8);
            o.extend((rec.len() as u32).to_le_bytes());
            o.extend(crc32fast::hash(&rec).to_le_bytes());
            o.extend(&rec);
            f.write_all(&o)?;
        }
        for (k, v) in b {
            match v {
                None => {
                    st.map.remove(k);
                }
                Some(v) => {
                    st.map.insert(k.clone(), v.clone());
                }
            }
        }
        Ok(())
    }
}

impl<'a, D: TxParent> Transaction<'a, D> {
    fn w(&self) -> std::sync::MutexGuard<'_, Batch> {
        self.writes.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        if let Some(v) = self.w().get(k.as_ref()) {
            return Ok(v.clone());
        }
        Ok(self.db.base_get(k.as_ref()))
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, _exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        self.db.lock_key(self.id, k.as_ref())?;
        self.get(k)
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.db.lock_key(self.id, k.as_ref())?;
        self.w().insert(k.as_ref().to_vec(), Some(v.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.db.lock_key(self.id, k.as_ref())?;
        self.w().insert(k.as_ref().to_vec(), None);
        Ok(())
    }
    /// As RocksDB without a prefix extractor: seeks to the prefix and runs to the end of the keyspace.
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> KvIter {
        let mut m: BTreeMap<Vec<u8>, Vec<u8>> = self.db.base_from(p.as_ref()).into_iter().collect();
        for (k, v) in self.w().range(p.as_ref().to_vec()..) {
            match v {
                None => {
                    m.remove(k);
                }
                Some(v) => {
                    m.insert(k.clone(), v.clone());
                }
            }
        }
        KvIter { it: m.into_iter() }
    }
    pub fn commit(self) -> Result<(), Error> {
        let b = std::mem::take(&mut *self.w());
        self.db.apply(&b)
    }
    pub fn rollback(&self) -> Result<(), Error> {
        self.w().clear();
        self.db.unlock_all(self.id);
        Ok(())
    }
}
impl<'a, D: TxParent> Drop for Transaction<'a, D> {
    fn drop(&mut self) {
        self.db.unlock_all(self.id);
    }
}

pub struct KvIter {
    it: std::collections::btree_map::IntoIter<Vec<u8>, Vec<u8>>,
}
impl Iterator for KvIter {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next().map(|(k, v)| Ok((k.into_boxed_slice(), v.into_boxed_slice())))
    }
}
