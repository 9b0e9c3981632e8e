//! Backups against a model of what is due, over a virtual clock.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
use common::config::Config;
use common::{DATA_PATH_BACKUPS, DATA_PATH_BACKUP_TMP, DATA_PATH_METADATA, DATA_PATH_STORAGE};
use common::types::DType;
use metadata::backups::{Backup, CreateBackupRequest, Provider, Status};
use metadata::settings::{BackupProvider, BackupScheduleInterval as Every, Settings};
use metadata::MetadataProvider;
use object_store::Fault;
use proputil::*;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use storage::{NamedValue, Value};

use crate::{clock, e2s};

const T: &str = "t";
const KEY: &str = "{\"key\": 1}";
static N: AtomicUsize = AtomicUsize::new(0);

type Rows = Vec<(i64, i64)>;
fn open(dir: &Path) -> Result<Arc<OptiDBImpl>, String> {
    Ok(Arc::new(OptiDBImpl::open(dir.to_path_buf(), Options {}).map_err(e2s)?))
}
fn rows(db: &OptiDBImpl) -> Result<Rows, String> {
    let st = db.scan(T, vec![0, 1]).map_err(e2s)?;
    let mut out = vec![];
    for ch in futures::executor::block_on_stream(st) {
        let ch = ch.map_err(e2s)?;
        let col = |i: usize| -> Vec<i64> {
            ch.arrays()[i].as_any().downcast_ref::<arrow2::array::PrimitiveArray<i64>>().unwrap().iter().map(|v| *v.unwrap()).collect()
        };
        out.extend(col(0).into_iter().zip(col(1)));
    }
    out.sort();
    Ok(out)
}

struct Sut {
    dir: PathBuf,
    cfg: Config,
    md: Arc<MetadataProvider>,
    db: Arc<OptiDBImpl>,
    rt: Option<tokio::runtime::Runtime>,
    now: i64,
    st: Settings,
    rows: Rows,
    buckets: [String; 2],
    /// what is stored where: rows and password
    stored: BTreeMap<String, (Rows, Option<String>)>,
    no_room: bool,
    no_dir: bool,
    bucket_fault: bool,
    /// minute in which the last backup has been made
    made: Vec<i64>,
    /// a record the check has made itself, of the time before
    old: Vec<u64>,
}
impl Drop for Sut {
    fn drop(&mut self) {
        self.rt = None;
        clock::set(None);
        zip::faults::limit(&self.dir, None);
        for b in &self.buckets {
            object_store::drop_bucket(b);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn minute(ms: i64) -> i64 {
    ms.div_euclid(60_000)
}
impl Sut {
    fn new(root: &Path, now: i64) -> Result<Sut, String> {
        let n = N.fetch_add(1, Ordering::Relaxed);
        let dir = root.join(format!("b{n}"));
        let mut cfg = Config::default();
        cfg.data.path = dir.clone();
        cmd::init_fs(&cfg).map_err(e2s)?;
        let rocks = Arc::new(metadata::rocksdb::new(dir.join(DATA_PATH_METADATA)).map_err(e2s)?);
        let db = open(&dir.join(DATA_PATH_STORAGE))?;
        let md = Arc::new(MetadataProvider::try_new(rocks, db.clone()).map_err(e2s)?);
        cmd::init_settings(&md).map_err(e2s)?;
        db.create_table(T.into(), TableOptions { index_cols: 1, ..TableOptions::test(false) }).map_err(e2s)?;
        for f in ["k", "v"] {
            db.add_field(T, f, DType::Int64, false).map_err(e2s)?;
        }
        let buckets = [format!("one-{n}"), format!("two-{n}")];
        for b in &buckets {
            object_store::bucket(b).lock().unwrap().key = KEY.to_string();
        }
        let mut st = md.settings.load().map_err(e2s)?;
        st.backup_provider_local_path = dir.join(DATA_PATH_BACKUPS).to_string_lossy().to_string();
        st.backup_provider_gcp_bucket = buckets[0].clone();
        st.backup_provider_gcp_key = KEY.to_string();
        st.backup_provider_gcp_path = "a/b".to_string();
        Ok(Sut {
            dir, cfg, md, db, rt: None, now, st, rows: vec![], buckets, stored: BTreeMap::new(), no_room: false,
            no_dir: false, bucket_fault: false, made: vec![], old: vec![],
        })
    }
    fn list(&self) -> Result<BTreeMap<u64, Backup>, String> {
        Ok(self.md.backups.list().map_err(e2s)?.data.into_iter().map(|b| (b.id, b)).collect())
    }
    fn clock(&self) {
        clock::set(Some(self.now));
    }
    fn tmp(&self, id: u64) -> PathBuf {
        self.dir.join(DATA_PATH_BACKUP_TMP).join(id.to_string())
    }
    fn start(&mut self) -> R {
        self.rt = None;
        self.clock();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(e2s)?;
        let (md, db, cfg) = (self.md.clone(), self.db.clone(), self.cfg.clone());
        rt.block_on(async {
            cmd::backup::init(md, db, cfg).await.map_err(e2s)?;
            // the scheduler looks every ten seconds: this is between two looks
            tokio::time::sleep(Duration::from_secs(5)).await;
            Ok::<_, String>(())
        })?;
        self.rt = Some(rt);
        Ok(())
    }
    /// Ten seconds pass: the scheduler looks once.
    fn look(&mut self) {
        self.clock();
        self.rt.as_ref().unwrap().block_on(async { tokio::time::sleep(Duration::from_secs(10)).await });
    }
    fn due(&self) -> bool {
        let t: DateTime<Utc> = Utc.timestamp_millis_opt(self.now).unwrap();
        let h = t.minute() == 0 && t.hour() as usize == self.st.backup_schedule_start_hour;
        match self.st.backup_schedule_interval {
            Every::Hourly => t.minute() == 0,
            Every::Daily => h,
            Every::Weekly => h && t.weekday() == chrono::Weekday::Sun,
            Every::Monthly => h && t.day() == 1,
            Every::Yearly => h && t.day() == 1 && t.month() == 1,
        }
    }
    /// The stored bytes of a place.
    fn at(&self, place: &str) -> Option<Vec<u8>> {
        if let Some(p) = place.strip_prefix("file:") {
            return std::fs::read(p).ok();
        }
        let (b, p) = place.strip_prefix("gcp:").unwrap().split_once('/').unwrap();
        object_store::bucket(b).lock().unwrap().objects.get(p).cloned()
    }
    fn place(&self, b: &Backup) -> Option<String> {
        match &b.provider {
            Provider::Local(_) => Some(format!("file:{}", b.path())),
            Provider::GCP(g) => Some(format!("gcp:{}/{}", g.bucket, object_store::path::Path::from(b.path()))),
            Provider::S3(_) => None,
        }
    }
    fn restores(&self, place: &str, what: &str) -> R {
        let (want, pwd) = &self.stored[place];
        let Some(b) = self.at(place) else { return Err(format!("{what}: nothing is stored at {place}")) };
        let data = zip::content(&b, pwd.as_deref()).map_err(|e| format!("{what}: the stored archive: {e}"))?;
        let dst = self.dir.join(format!("r{}", N.fetch_add(1, Ordering::Relaxed)));
        let db = open(&dst)?;
        db.full_restore(&mut &data[..]).map_err(|e| format!("{what}: the stored backup: {e}"))?;
        let got = rows(&db)?;
        drop(db);
        let _ = std::fs::remove_dir_all(&dst);
        ensure_eq!(got, *want, "{what}: rows of the restored backup");
        Ok(())
    }
    /// What is where, apart from the database.
    fn files(&self) -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        let sum = |b: &[u8]| b.iter().fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64));
        for d in [DATA_PATH_BACKUPS, DATA_PATH_BACKUP_TMP] {
            for f in std::fs::read_dir(self.dir.join(d)).into_iter().flatten().flatten() {
                m.insert(format!("file:{}", f.path().display()), sum(&std::fs::read(f.path()).unwrap_or_default()));
            }
        }
        for b in &self.buckets {
            let g = object_store::bucket(b);
            let g = g.lock().unwrap();
            for (k, v) in &g.objects {
                m.insert(format!("gcp:{b}/{k}"), sum(v));
            }
            if g.open > 0 {
                m.insert(format!("uploads left open in {b}"), g.open as u64);
            }
        }
        m
    }
    fn fin(&mut self, b: &Backup, before: &BTreeMap<String, u64>, c: &mut Case) -> R {
        let what = format!("backup {}", b.id);
        let calm = !self.no_room && !self.no_dir && !self.bucket_fault && self.place(b).is_some();
        let mut after = self.files();
        match &b.status {
            Status::Completed => {
                let Some(place) = self.place(b) else { return Err(format!("{what} is completed, but nothing stores backups on {:?}", b.provider)) };
                self.stored.insert(place.clone(), (self.rows.clone(), b.password.clone()));
                self.restores(&place, &format!("{what}, completed"))?;
                c.label(if b.is_encrypted { "completed under a password" } else { "completed" });
                c.label(if matches!(b.provider, Provider::GCP(_)) { "uploaded" } else { "moved" });
                let mut before = before.clone();
                before.remove(&place);
                after.remove(&place);
                ensure_eq!(after, before, "{what}, completed: the other files");
            }
            Status::Failed(e) => {
                ensure!(!calm, "{what} failed though nothing stood in its way: {e}");
                ensure_eq!(after, *before, "{what}, failed ({e}): what is stored");
                c.label("failed");
            }
            o => return Err(format!("{what} is left {o:?}")),
        }
        Ok(())
    }
    fn tick(&mut self, c: &mut Case) -> R {
        let before = self.list()?;
        let files = self.files();
        self.look();
        let after = self.list()?;
        let when = format!("at {}", Utc.timestamp_millis_opt(self.now).unwrap());
        let changed: Vec<u64> = after.iter().filter(|(i, b)| before.get(i) != Some(b)).map(|(i, _)| *i).collect();
        ensure!(before.keys().all(|i| after.contains_key(i)), "{when}: a backup is gone");
        let idle = before.values().find(|b| b.status == Status::Idle).map(|b| b.id);
        let due = self.due() && !self.made.contains(&minute(self.now));
        if !self.st.backup_enabled {
            ensure_eq!(changed, Vec::<u64>::new(), "{when}: backups are off, but these changed");
            ensure_eq!(self.files(), files, "{when}: backups are off, but what is stored");
            return Ok(());
        }
        if let Some(id) = idle {
            ensure_eq!(changed, vec![id], "{when}: backups that changed, where {id} was idle");
            c.label("asked for");
            return self.fin(&after[&id].clone(), &files, c);
        }
        if !due {
            ensure_eq!(changed, Vec::<u64>::new(), "{when}: no backup is due, but these changed");
            ensure_eq!(self.files(), files, "{when}: no backup is due, but what is stored");
            return Ok(());
        }
        // nothing can be made on a provider nothing stores on
        if self.st.backup_provider == BackupProvider::S3 && changed.is_empty() {
            return Ok(());
        }
        ensure!(changed.len() == 1, "{when}: a backup is due, and these changed: {changed:?}");
        let b = after[&changed[0]].clone();
        ensure!(!before.contains_key(&b.id), "{when}: a backup is due, and an old one changed: {b:?}");
        self.made.push(minute(self.now));
        c.label("scheduled");
        let want = CreateBackupRequest::from_settings(&self.st);
        ensure_eq!((&b.provider, b.is_encrypted, &b.password), (&want.provider, want.is_encrypted, &want.password), "{when}: the backup made");
        ensure_eq!(b.created_at.timestamp(), self.now / 1000, "{when}: the time of the backup");
        self.fin(&b, &files, c)
    }
}
fn settings(s: &mut Src, x: &mut Sut, c: &mut Case) -> R {
    let st = &mut x.st;
    st.backup_enabled = s.chance(7, 8);
    st.backup_provider = [BackupProvider::Local, BackupProvider::GCP, BackupProvider::S3][s.weighted(&[6, 5, 1])].clone();
    st.backup_provider_gcp_bucket = x.buckets[s.us(0, 1)].clone();
    st.backup_provider_gcp_path = s.pick(&["a/b", "", "x"]).to_string();
    st.backup_provider_s3_bucket = "s".into();
    st.backup_provider_s3_region = "r".into();
    st.backup_provider_s3_access_key = "a".into();
    st.backup_provider_s3_secret_key = "k".into();
    st.backup_schedule_interval = [Every::Hourly, Every::Daily, Every::Weekly, Every::Monthly, Every::Yearly][s.weighted(&[4, 2, 1, 1, 1])].clone();
    st.backup_schedule_start_hour = s.us(0, 23);
    st.backup_encryption_enabled = s.chance(1, 3);
    st.backup_encryption_password = s.pick(&["pw", "other"]).to_string();
    c.note(format!(
        "settings: on {}, {:?}, bucket {}, path {:?}, {:?} at {}, encryption {}", st.backup_enabled, st.backup_provider,
        st.backup_provider_gcp_bucket, st.backup_provider_gcp_path, st.backup_schedule_interval, st.backup_schedule_start_hour, st.backup_encryption_enabled
    ));
    x.md.settings.save(&x.st).map_err(e2s)
}
pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    // a year, with its end
    let start = Utc.with_ymd_and_hms(2024, 1 + s.us(0, 11) as u32, 1 + s.us(0, 27) as u32, s.us(0, 23) as u32, s.us(0, 59) as u32, s.us(0, 59) as u32).unwrap();
    let mut x = Sut::new(root, start.timestamp_millis())?;
    for i in 0..s.us(0, 11) {
        // backups of the days before
        clock::set(Some(x.now - (20 - i as i64) * 3 * 86_400_000));
        let mut r = CreateBackupRequest::from_settings(&x.st);
        r.status = if s.bool() { Status::Completed } else { Status::Failed("disk".into()) };
        x.old.push(x.md.backups.create(r).map_err(e2s)?.id);
    }
    c.note(format!("{} old backups", x.old.len()));
    settings(s, &mut x, c)?;
    x.start()?;
    let mut k = 0;
    let mut completed = 0;
    let steps = s.us(1, 14);
    for i in 0..steps {
        match s.weighted(&[9, 4, 2, 3, 2, 1]) {
            0 => {
                // often to the next minute a backup is due in
                if s.chance(2, 3) && x.st.backup_enabled {
                    let mut t = x.now.div_euclid(60_000) * 60_000;
                    let save = x.now;
                    for _ in 0..400 * 24 {
                        t = if minute(t) % 60 == 0 { t + 3_600_000 } else { t.div_euclid(3_600_000) * 3_600_000 + 3_600_000 };
                        x.now = t;
                        if x.due() {
                            break;
                        }
                    }
                    if !x.due() {
                        x.now = save;
                    } else {
                        x.now += s.range(-1500, 20_000);
                    }
                } else if s.chance(2, 3) {
                    // or to one that is nearly so: the hour or the day is right
                    let now: DateTime<Utc> = Utc.timestamp_millis_opt(x.now).unwrap();
                    let h = x.st.backup_schedule_start_hour as i64;
                    let day = match s.us(0, 3) {
                        0 => Utc.with_ymd_and_hms(now.year() + 1, 1, 1, 0, 0, 0).unwrap().timestamp() / 86400 + s.range(0, 30),
                        1 => Utc.with_ymd_and_hms(now.year() + 1, s.us(1, 12) as u32, 1, 0, 0, 0).unwrap().timestamp() / 86400,
                        2 => x.now / 86_400_000 + s.range(1, 8),
                        _ => x.now / 86_400_000 + s.range(1, 366),
                    };
                    let h = if s.chance(1, 6) { (h + *s.pick(&[1, 23, 12])) % 24 } else { h };
                    let m = if s.chance(1, 6) { *s.pick(&[1, 30, 59]) } else { 0 };
                    x.now = ((day * 24 + h) * 60 + m) * 60_000 + s.range(-1500, 20_000);
                } else {
                    x.now += match s.us(0, 2) {
                        0 => s.range(10_000, 70_000),
                        1 => s.range(10_000, 4_000_000),
                        _ => s.range(10_000, 40 * 86_400_000),
                    };
                }
                // and for a while from there on, as the scheduler does
                for _ in 0..s.us(1, 7) {
                    c.note(format!("{i}: look at {}", Utc.timestamp_millis_opt(x.now).unwrap()));
                    x.tick(c)?;
                    x.now += s.range(10_000, 10_400);
                }
            }
            1 => {
                if x.list()?.values().all(|b| b.status != Status::Idle) && x.st.backup_provider != BackupProvider::S3 || s.chance(1, 5) {
                    x.clock();
                    match x.md.backups.create(CreateBackupRequest::from_settings(&x.st)) {
                        Ok(b) => {
                            c.note(format!("{i}: asked for backup {}", b.id));
                            // made by hand in a minute one is due in: that one will do
                            x.made.push(minute(x.now));
                        }
                        Err(_) => c.note(format!("{i}: one is asked for already")),
                    }
                    x.now += s.range(1000, 10_000);
                    x.tick(c)?;
                }
            }
            2 => settings(s, &mut x, c)?,
            3 => {
                for _ in 0..s.us(1, 6) {
                    k += 1;
                    let v = s.range(-5, 5);
                    let row = vec![NamedValue::new("k".into(), Value::Int64(Some(k))), NamedValue::new("v".into(), Value::Int64(Some(v)))];
                    x.db.insert(T, row).map_err(e2s)?;
                    x.rows.push((k, v));
                }
                if s.bool() {
                    x.db.flush(T).map_err(e2s)?;
                }
                c.note(format!("{i}: {} rows", x.rows.len()));
            }
            4 => match s.us(0, 4) {
                0 => {
                    let n = s.us(0, 1500) as u64;
                    zip::faults::limit(&x.dir, Some(n));
                    x.no_room = true;
                    c.note(format!("{i}: the disk has room for {n} bytes"));
                }
                1 => {
                    let f = [Fault::Create, Fault::Part(s.us(0, 3)), Fault::Complete][s.us(0, 2)];
                    for b in &x.buckets {
                        object_store::bucket(b).lock().unwrap().fault = Some(f);
                    }
                    x.bucket_fault = true;
                    c.note(format!("{i}: the buckets refuse: {f:?}"));
                }
                2 => {
                    let d = x.dir.join(DATA_PATH_BACKUPS);
                    if x.stored.keys().all(|k| !k.starts_with("file:")) && std::fs::remove_dir(&d).is_ok() {
                        x.no_dir = true;
                        c.note(format!("{i}: the directory of the backups is gone"));
                    }
                }
                _ => {
                    zip::faults::limit(&x.dir, None);
                    for b in &x.buckets {
                        object_store::bucket(b).lock().unwrap().fault = None;
                    }
                    std::fs::create_dir_all(x.dir.join(DATA_PATH_BACKUPS)).map_err(e2s)?;
                    (x.no_room, x.no_dir, x.bucket_fault) = (false, false, false);
                    c.note(format!("{i}: all is well again"));
                }
            },
            _ => {
                // the server stops while a backup is made
                x.rt = None;
                let mut torn = None;
                if s.chance(2, 3) && x.list()?.values().all(|b| b.status != Status::Idle) {
                    x.clock();
                    let b = x.md.backups.create(CreateBackupRequest::from_settings(&x.st)).map_err(e2s)?;
                    x.made.push(minute(x.now));
                    let up = matches!(b.provider, Provider::GCP(_)) && s.bool();
                    let st = if up { Status::Uploading } else { Status::InProgress(s.us(0, 100)) };
                    x.md.backups.update_status(b.id, st.clone()).map_err(e2s)?;
                    std::fs::write(x.tmp(b.id), b"PKshim half").map_err(e2s)?;
                    c.note(format!("{i}: backup {} is {st:?} when the server stops", b.id));
                    torn = Some(b.id);
                }
                let before = x.list()?;
                c.note(format!("{i}: restart"));
                x.start()?;
                c.label("restarted");
                let after = x.list()?;
                for (id, b) in &after {
                    if Some(*id) == torn {
                        ensure!(matches!(b.status, Status::Failed(_)), "backup {id}, torn by the restart, is {:?}", b.status);
                        ensure!(!x.tmp(*id).exists(), "the temporary file of backup {id}, torn by the restart, is left");
                    } else {
                        ensure_eq!(Some(b), before.get(id), "backup {id} over the restart");
                    }
                }
                ensure_eq!(after.len(), before.len(), "backups over the restart");
            }
        }
        if x.stored.len() > completed {
            completed = x.stored.len();
            c.nontrivial(i + 1 < steps);
        }
    }
    // what is stored stays good
    for p in x.stored.keys() {
        x.restores(p, "at the end")?;
    }
    ensure_eq!(rows(&x.db)?, x.rows, "rows of the database itself");
    Ok(())
}
