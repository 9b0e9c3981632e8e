//! Opens a metadata store and an event store the way the server does.
use std::path::{Path, PathBuf};
use std::sync::Arc;

use common::types::TABLE_EVENTS;
use common::{group_col, GROUPS_COUNT};
use metadata::MetadataProvider;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;

pub struct World {
    pub path: PathBuf,
    pub inner: Option<Open>,
}
pub struct Open {
    pub md: Arc<MetadataProvider>,
    pub db: Arc<OptiDBImpl>,
}
impl World {
    pub fn new(root: &Path) -> Result<World, String> {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let path = root.join(format!("w{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        let mut w = World { path, inner: None };
        w.open()?;
        let db = w.db();
        // the options the server creates its tables with, at the sizes of its tests
        db.create_table(TABLE_EVENTS.to_string(), TableOptions { index_cols: 2, ..TableOptions::test(false) })
            .map_err(|e| e.to_string())?;
        for i in 0..GROUPS_COUNT {
            db.create_table(group_col(i), TableOptions { index_cols: 2, ..TableOptions::test(true) })
                .map_err(|e| e.to_string())?;
        }
        Ok(w)
    }
    pub fn open(&mut self) -> Result<(), String> {
        let store = Arc::new(metadata::rocksdb::new(self.path.join("md")).map_err(|e| e.to_string())?);
        let db = Arc::new(OptiDBImpl::open(self.path.join("db"), Options {}).map_err(|e| e.to_string())?);
        let md = Arc::new(MetadataProvider::try_new(store, db.clone()).map_err(|e| e.to_string())?);
        self.inner = Some(Open { md, db });
        Ok(())
    }
    pub fn reopen(&mut self) -> Result<(), String> {
        self.inner = None;
        // the threads of the old process live on here: they must not find the files
        let to = self.path.with_extension(match self.path.extension() {
            Some(e) => format!("{}r", e.to_string_lossy()),
            None => "r".to_string(),
        });
        std::fs::rename(&self.path, &to).map_err(|e| e.to_string())?;
        self.path = to;
        self.open()
    }
    /// Asks for a compaction and gives the compactor, which looks every few milliseconds, the time.
    pub fn compact(&self) {
        self.db().compact();
        std::thread::sleep(std::time::Duration::from_millis(40));
    }
    pub fn o(&self) -> &Open {
        self.inner.as_ref().unwrap()
    }
    pub fn md(&self) -> &Arc<MetadataProvider> {
        &self.o().md
    }
    pub fn db(&self) -> Arc<OptiDBImpl> {
        self.o().db.clone()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        self.inner = None;
        let _ = std::fs::remove_dir_all(&self.path);
    }
}
