BUGS = [
 dict(id='x02-projects-of-the-start', property='X02', kind='kit:cmd',
  edits=[('src/cmd/src/lib.rs', """    thread::spawn(move || {
        loop {
            thread::sleep(cfg.misc.session_cleaner_interval.to_std().unwrap());
            for project in md.projects.list().unwrap() {
                md.sessions
""", """    thread::spawn(move || {
        let projects = md.projects.list().unwrap().data;
        loop {
            thread::sleep(cfg.misc.session_cleaner_interval.to_std().unwrap());
            for project in &projects {
                md.sessions
""")],
  needs='A project created, or a session duration changed, after the server has started.',
  breaks='The sessions of projects made since the server started never end.',
  demo=r'''
mod world;
use chrono::{Duration, Utc};
use metadata::projects::CreateProjectRequest;
use world::World;

fn project(w: &World, n: &str) -> u64 {
    let p = w.md.projects.create(CreateProjectRequest {
        created_by: 1, organization_id: 1, name: n.to_string(), description: None, tags: None, token: n.to_string(), session_duration_seconds: 60,
    }).unwrap();
    platform::projects::init_project(p.id, &w.md).unwrap();
    p.id
}
fn main() {
    let w = World::new();
    let a = project(&w, "a");
    let mut cfg = common::config::Config::default();
    cfg.misc.session_cleaner_interval = Duration::milliseconds(100);
    cmd::init_session_cleaner(w.md.clone(), w.db.clone(), cfg).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(700));
    let b = project(&w, "b");
    for p in [a, b] {
        w.md.sessions.set_current_time(p, 7, Utc::now() - Duration::hours(1)).unwrap();
        w.md.sessions.set_current_time(p, 8, Utc::now() + Duration::hours(1)).unwrap();
    }
    for p in [a, b] {
        let t = std::time::Instant::now();
        while w.md.sessions.get_by_user_id(p, 7).is_ok() {
            assert!(t.elapsed().as_secs() < 10, "a session of project {p} that began an hour ago has not ended");
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        assert!(w.md.sessions.get_by_user_id(p, 8).is_ok(), "a session of project {p} has ended too early");
    }
}
'''),
 dict(id='x01-yearly-in-january', property='X01', kind='kit:cmd',
  edits=[('src/cmd/src/backup.rs', """                    format!("0 {} 1 1 *", settings.backup_schedule_start_hour)
""", """                    format!("0 {} * 1 *", settings.backup_schedule_start_hour)
""")],
  needs='Yearly backups, and a day of January that is not the first, at the hour set.',
  breaks='Yearly backups are made on every day of January.',
  demo=r'''
mod clock;
mod world;
use std::time::Duration;

use chrono::{TimeZone, Utc};
use metadata::settings::{BackupProvider, BackupScheduleInterval, Settings};
use world::World;

fn main() {
    let d = world::dir();
    let mut cfg = common::config::Config::default();
    cfg.data.path = d.clone();
    cmd::init_fs(&cfg).unwrap();
    let w = World::new();
    let mut st = Settings::default();
    st.backup_enabled = true;
    st.backup_provider = BackupProvider::Local;
    st.backup_provider_local_path = d.join(common::DATA_PATH_BACKUPS).to_string_lossy().to_string();
    st.backup_schedule_interval = BackupScheduleInterval::Yearly;
    st.backup_schedule_start_hour = 5;
    w.md.settings.save(&st).unwrap();
    let at = |y, m, d, h, i| Utc.with_ymd_and_hms(y, m, d, h, i, 7).unwrap().timestamp_millis();
    clock::set(Some(at(2024, 1, 15, 3, 0)));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let n = |t: i64| {
        clock::set(Some(t));
        rt.block_on(async { tokio::time::sleep(Duration::from_secs(10)).await });
        w.md.backups.list().unwrap().data.len()
    };
    rt.block_on(async {
        cmd::backup::init(w.md.clone(), w.db.clone(), cfg.clone()).await.unwrap();
        tokio::time::sleep(Duration::from_secs(5)).await;
    });
    for t in [at(2024, 1, 15, 3, 0), at(2024, 1, 15, 5, 0), at(2024, 2, 1, 5, 0), at(2024, 12, 31, 5, 0), at(2025, 1, 1, 4, 59)] {
        assert_eq!(n(t), 0, "a yearly backup at {:?}", Utc.timestamp_millis_opt(t).unwrap());
    }
    assert_eq!(n(at(2025, 1, 1, 5, 0)), 1, "backups on the first of January");
    assert_eq!(n(at(2025, 1, 2, 5, 0)), 1, "backups on the second of January");
}
'''),
 dict(id='x03-another-password', property='X03', kind='kit:cmd',
  edits=[('src/cmd/src/command/server.rs', """    let admin_acc = match md.accounts.get_by_id(ADMIN_ID) {
        Ok(acc) => acc,
        Err(err) => match err {
            MetadataError::NotFound(_) => {
                let pwd: String = rand::thread_rng()
                    .sample_iter(&Alphanumeric)
                    .take(32)
                    .map(char::from)
                    .collect();
                let mut settings = md.settings.load()?;
                settings.auth_admin_default_password.clone_from(&pwd);
                md.settings.save(&settings)?;
                info!("creating admin account...");
""", """    // the password that is shown until the administrator has chosen one
    let pwd: String = rand::thread_rng()
        .sample_iter(&Alphanumeric)
        .take(32)
        .map(char::from)
        .collect();
    let mut settings = md.settings.load()?;
    settings.auth_admin_default_password.clone_from(&pwd);
    md.settings.save(&settings)?;

    let admin_acc = match md.accounts.get_by_id(ADMIN_ID) {
        Ok(acc) => acc,
        Err(err) => match err {
            MetadataError::NotFound(_) => {
                info!("creating admin account...");
""")],
  needs='A second start of the server over the same directory.',
  breaks="The server shows a default password for the administrator, from its second start on, that does not log in.",
  demo=r'''
mod world;
use std::process::Command;
use std::time::Duration;

use common::{ADMIN_ID, DATA_PATH_METADATA, DATA_PATH_STORAGE};

fn cfg(d: &std::path::Path, port: u16) -> common::config::Config {
    let mut c = common::config::Config::default();
    c.data.path = d.join("d");
    c.data.ua_db_path = d.join("ua");
    c.data.geo_city_path = d.join("geo");
    c.data.ui_path = d.join("ui");
    c.misc.session_cleaner_interval = chrono::Duration::hours(1);
    c.misc.project_default_session_duration = chrono::Duration::days(1);
    c.auth.access_token_duration = chrono::Duration::hours(1);
    c.auth.refresh_token_duration = chrono::Duration::hours(24);
    c.server.host = format!("127.0.0.1:{port}").parse().unwrap();
    for t in [&mut c.events_table, &mut c.group_table] {
        t.levels = 7;
        t.merge_array_size = 10000;
        t.l1_max_size_bytes = 1 << 20;
        t.level_size_multiplier = 10;
        t.l0_max_parts = 4;
        t.max_log_length_bytes = 1 << 20;
        t.merge_array_page_size = 10000;
        t.merge_data_page_size_limit_bytes = 1 << 20;
        t.merge_max_l1_part_size_bytes = 1 << 20;
        t.merge_part_size_multiplier = 10;
        t.merge_row_group_values_limit = 1000;
        t.merge_chunk_size = 65536;
        t.merge_max_page_size = 1 << 20;
    }
    c
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(cmd::command::server::start(cfg(a[1].as_ref(), a[2].parse().unwrap()))).unwrap();
        return;
    }
    let d = world::dir();
    for f in ["ua", "geo"] {
        std::fs::write(d.join(f), "").unwrap();
    }
    std::fs::create_dir_all(d.join("ui")).unwrap();
    for start in 1..4 {
        let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let mut p = Command::new(&a[0]).arg(&d).arg(port.to_string()).spawn().unwrap();
        let mut n = 0;
        while std::net::TcpStream::connect(("127.0.0.1", port)).is_err() && n < 500 {
            std::thread::sleep(Duration::from_millis(20));
            n += 1;
        }
        p.kill().unwrap();
        p.wait().unwrap();
        assert!(n < 500, "the server does not start");
        let rocks = std::sync::Arc::new(metadata::rocksdb::new(d.join("d").join(DATA_PATH_METADATA)).unwrap());
        let db = std::sync::Arc::new(storage::db::OptiDBImpl::open(d.join("d").join(DATA_PATH_STORAGE), storage::db::Options {}).unwrap());
        let md = metadata::MetadataProvider::try_new(rocks, db).unwrap();
        let acc = md.accounts.get_by_id(ADMIN_ID).unwrap();
        let shown = md.settings.load().unwrap().auth_admin_default_password;
        platform::auth::password::verify_password(&shown, password_hash::PasswordHash::new(&acc.password_hash).unwrap())
            .unwrap_or_else(|e| panic!("start {start}: the password that is shown is not the administrator's: {e}"));
    }
}
'''),
]
