//! Opens the metadata store with the tables the metadata writes columns into.
use std::path::{Path, PathBuf};
use std::sync::Arc;

use common::types::TABLE_EVENTS;
use common::{group_col, GROUPS_COUNT};
use metadata::teams::Teams;
use metadata::MetadataProvider;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;

pub struct World {
    pub path: PathBuf,
    pub inner: Option<Open>,
}
pub struct Open {
    pub md: Arc<MetadataProvider>,
    pub db: Arc<OptiDBImpl>,
    pub teams: Teams,
}
impl World {
    pub fn new(root: &Path) -> Result<World, String> {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let path = root.join(format!("w{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        let mut w = World { path, inner: None };
        w.open()?;
        let db = w.db();
        db.create_table(TABLE_EVENTS.to_string(), TableOptions::test(false)).map_err(|e| e.to_string())?;
        for i in 0..GROUPS_COUNT {
            db.create_table(group_col(i), TableOptions::test(true)).map_err(|e| e.to_string())?;
        }
        Ok(w)
    }
    pub fn open(&mut self) -> Result<(), String> {
        let store = Arc::new(metadata::rocksdb::new(self.path.join("md")).map_err(|e| e.to_string())?);
        let db = Arc::new(OptiDBImpl::open(self.path.join("db"), Options {}).map_err(|e| e.to_string())?);
        let md = Arc::new(MetadataProvider::try_new(store.clone(), db.clone()).map_err(|e| e.to_string())?);
        self.inner = Some(Open { md, db, teams: Teams::new(store) });
        Ok(())
    }
    pub fn reopen(&mut self) -> Result<(), String> {
        self.inner = None;
        self.open()
    }
    pub fn o(&self) -> &Open {
        self.inner.as_ref().unwrap()
    }
    pub fn md(&self) -> &Arc<MetadataProvider> {
        &self.o().md
    }
    pub fn db(&self) -> Arc<OptiDBImpl> {
        self.o().db.clone()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        self.inner = None;
        let _ = std::fs::remove_dir_all(&self.path);
    }
}
