//! Opens a metadata store and an event store the way the server does.
#![allow(dead_code)]
use std::path::PathBuf;
use std::sync::Arc;

use common::types::*;
use common::{group_col, GROUPS_COUNT};
use metadata::MetadataProvider;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use storage::{NamedValue, Value};

pub struct World {
    pub md: Arc<MetadataProvider>,
    pub db: Arc<OptiDBImpl>,
}
pub fn dir() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!("w{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}
impl World {
    pub fn new() -> World {
        let w = World::open(&dir());
        w.db.create_table(TABLE_EVENTS.to_string(), TableOptions { index_cols: 2, ..TableOptions::test(false) }).unwrap();
        for i in 0..GROUPS_COUNT {
            w.db.create_table(group_col(i), TableOptions { index_cols: 2, ..TableOptions::test(true) }).unwrap();
        }
        w
    }
    pub fn open(path: &std::path::Path) -> World {
        let store = Arc::new(metadata::rocksdb::new(path.join("md")).unwrap());
        let db = Arc::new(OptiDBImpl::open(path.join("db"), Options {}).unwrap());
        let md = Arc::new(MetadataProvider::try_new(store, db.clone()).unwrap());
        World { md, db }
    }
    /// The columns every project has, the properties country, amount, count and paid, and the events alpha, beta, gamma.
    pub fn project(&self, id: u64) {
        use metadata::properties::{DictionaryType, Type};
        use metadata::util::{create_event, create_property, CreatePropertyMainRequest};
        let mk = |name: String, typ: Type, data_type: DType, nullable: bool, dict: bool, is_system: bool| {
            let dict = if dict { Some(DictionaryType::Int64) } else { None };
            create_property(&self.md, id, CreatePropertyMainRequest {
                name, display_name: None, typ, data_type, nullable, hidden: false, dict, is_system,
            }).unwrap();
        };
        mk(COLUMN_PROJECT_ID.into(), Type::Event, DType::String, false, true, true);
        for g in 0..GROUPS_COUNT {
            mk(group_col(g), Type::Event, DType::String, true, true, true);
        }
        mk(COLUMN_CREATED_AT.into(), Type::Event, DType::Timestamp, false, false, true);
        mk(COLUMN_EVENT_ID.into(), Type::Event, DType::Int64, false, false, true);
        mk(COLUMN_EVENT.into(), Type::Event, DType::String, false, true, true);
        mk(COLUMN_IP.into(), Type::Event, DType::String, true, false, true);
        for g in 0..GROUPS_COUNT {
            mk(GROUP_COLUMN_PROJECT_ID.into(), Type::Group(g), DType::String, true, true, true);
            mk(GROUP_COLUMN_ID.into(), Type::Group(g), DType::String, true, true, true);
            mk(GROUP_COLUMN_VERSION.into(), Type::Group(g), DType::Int64, true, false, true);
            mk(GROUP_COLUMN_CREATED_AT.into(), Type::Group(g), DType::Timestamp, true, false, true);
        }
        let d = &self.md.dictionaries;
        d.create_key(id, TABLE_EVENTS, COLUMN_PROJECT_ID, id, &format!("p{id}")).unwrap();
        for g in 0..GROUPS_COUNT {
            d.create_key(id, &group_col(g), COLUMN_PROJECT_ID, id, &format!("p{id}")).unwrap();
        }
        mk("country".into(), Type::Event, DType::String, true, true, false);
        mk("amount".into(), Type::Event, DType::Decimal, true, false, false);
        mk("count".into(), Type::Event, DType::Int64, true, false, false);
        mk("paid".into(), Type::Event, DType::Boolean, true, false, false);
        for e in ["alpha", "beta", "gamma"] {
            create_event(&self.md, id, e.to_string()).unwrap();
        }
    }
    pub fn col(&self, project: u64, prop: &str) -> String {
        self.md.event_properties.get_by_name(project, prop).unwrap().column_name()
    }
    /// a value of country as it is stored
    pub fn country(&self, project: u64, v: &str) -> NamedValue {
        let c = self.col(project, "country");
        let k = self.md.dictionaries.get_key_or_create(project, TABLE_EVENTS, &c, v).unwrap();
        nv(&c, Value::Int64(Some(k as i64)))
    }
    pub fn event(&self, project: u64, user: i64, ts: i64, event: &str, mut more: Vec<NamedValue>) {
        static N: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1);
        let e = self.md.events.get_by_name(project, event).unwrap().id;
        self.md.dictionaries.create_key(project, TABLE_EVENTS, &group_col(0), user as u64, &format!("u{user}")).unwrap();
        let mut v = vec![
            nv(COLUMN_PROJECT_ID, Value::Int64(Some(project as i64))),
            nv(&group_col(0), Value::Int64(Some(user))),
            nv(COLUMN_CREATED_AT, Value::Timestamp(Some(ts))),
            nv(COLUMN_EVENT_ID, Value::Int64(Some(N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)))),
            nv(COLUMN_EVENT, Value::Int64(Some(e as i64))),
        ];
        v.append(&mut more);
        self.db.insert(TABLE_EVENTS, v).unwrap();
    }
}
/// Thursday 2026-01-01T00:00:00Z
pub const T0: i64 = 1_767_225_600_000;
pub const HOUR: i64 = 3_600_000;
pub fn nv(name: &str, v: Value) -> NamedValue {
    NamedValue::new(name.to_string(), v)
}
