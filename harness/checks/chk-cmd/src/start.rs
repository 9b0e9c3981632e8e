//! The server's configuration and its start, again and again over one directory.
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

use cmd::gate::{self, Gate};
use common::config::Config;
use common::types::TABLE_EVENTS;
use common::{group_col, ADMIN_ID, DATA_PATH_METADATA, DATA_PATH_STORAGE, GROUPS_COUNT};
use metadata::MetadataProvider;
use proputil::*;
use serde_json::{json, Value as J};
use storage::db::{OptiDBImpl, Options};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

use crate::e2s;

static N: AtomicUsize = AtomicUsize::new(0);

const TABLE: [&str; 13] = [
    "levels", "l0_max_parts", "l1_max_size_bytes", "level_size_multiplier", "max_log_length_bytes",
    "merge_max_l1_part_size_bytes", "merge_part_size_multiplier", "merge_data_page_size_limit_bytes",
    "merge_row_group_values_limit", "merge_array_size", "merge_chunk_size", "merge_array_page_size", "merge_max_page_size",
];
fn table_of(t: &common::config::Table) -> [usize; 13] {
    [
        t.levels, t.l0_max_parts, t.l1_max_size_bytes, t.level_size_multiplier, t.max_log_length_bytes,
        t.merge_max_l1_part_size_bytes, t.merge_part_size_multiplier, t.merge_data_page_size_limit_bytes,
        t.merge_row_group_values_limit, t.merge_array_size, t.merge_chunk_size, t.merge_array_page_size, t.merge_max_page_size,
    ]
}
fn duration(s: &mut Src) -> (String, i64) {
    let (u, k) = *s.pick(&[("second", 1), ("minutes", 60), ("hours", 3600), ("days", 86400)]);
    let n = s.range(0, 5000);
    if s.chance(1, 4) {
        let m = s.range(1, 59);
        return (format!("{n} {u} {m} seconds"), n * k + m);
    }
    (format!("{n} {u}"), n * k)
}
pub fn config_case(s: &mut Src, c: &mut Case) -> R {
    let mut ds = vec![];
    let mut ts = vec![];
    for _ in 0..4 {
        ds.push(duration(s));
    }
    for _ in 0..2 {
        let v: Vec<u64> = (0..13).map(|_| s.below(1 << 40)).collect();
        ts.push(v);
    }
    let level = *s.pick(&["trace", "debug", "info", "warn", "error"]);
    let host = format!("{}.{}.0.1:{}", s.us(1, 250), s.us(0, 255), s.us(1, 65535));
    let mut j = json!({
        "server": {"host": host},
        "data": {"path": format!("/p{}", s.us(0, 9)), "ui_path": format!("/u{}", s.us(0, 9)), "ua_db_path": format!("/a{}", s.us(0, 9)), "geo_city_path": format!("/g{}", s.us(0, 9))},
        "misc": {"session_cleaner_interval": ds[0].0, "project_default_session_duration": ds[1].0},
        "auth": {"access_token_duration": ds[2].0, "refresh_token_duration": ds[3].0},
        "events_table": TABLE.iter().zip(&ts[0]).map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "group_table": TABLE.iter().zip(&ts[1]).map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "log": {"level": level},
    });
    let bad = s.chance(1, 6);
    if bad {
        let (a, b) = *s.pick(&[("misc", "session_cleaner_interval"), ("misc", "project_default_session_duration"), ("auth", "access_token_duration"), ("auth", "refresh_token_duration")]);
        j[a][b] = json!(*s.pick(&["", "soon", "5 parsecs"]));
    }
    c.note(j.to_string());
    let raw: cmd::config::Config = serde_json::from_value(j.clone()).map_err(e2s)?;
    let got: Result<Config, _> = raw.try_into();
    if bad {
        ensure!(got.is_err(), "a duration that is none is taken");
        c.label("refused");
        return Ok(());
    }
    let g = got.map_err(|e| format!("refused: {e}"))?;
    ensure_eq!(g.server.host.to_string(), host, "host");
    ensure_eq!(
        json!({"path": g.data.path, "ui_path": g.data.ui_path, "ua_db_path": g.data.ua_db_path, "geo_city_path": g.data.geo_city_path}),
        j["data"], "paths"
    );
    let d = [g.misc.session_cleaner_interval, g.misc.project_default_session_duration, g.auth.access_token_duration, g.auth.refresh_token_duration];
    ensure_eq!(d.map(|d| d.num_seconds()).to_vec(), ds.iter().map(|d| d.1).collect::<Vec<_>>(), "durations (cleaner, session, access, refresh)");
    for (n, t, w) in [("events", &g.events_table, &ts[0]), ("group", &g.group_table, &ts[1])] {
        for ((k, a), b) in TABLE.iter().zip(table_of(t)).zip(w) {
            ensure_eq!(a as u64, *b, "{k} of the {n} table");
        }
    }
    ensure_eq!(g.log.level.to_string(), level, "level");
    let mut all: Vec<u64> = ts.concat();
    all.sort();
    all.dedup();
    c.nontrivial(all.len() == 26);
    Ok(())
}

async fn http(addr: std::net::SocketAddr, method: &str, path: &str, token: &str, body: &J) -> Result<(u16, J), String> {
    let mut t = tokio::net::TcpStream::connect(addr).await.map_err(e2s)?;
    let b = body.to_string();
    let auth = if token.is_empty() { String::new() } else { format!("Authorization: Bearer {token}\r\n") };
    let req = format!("{method} {path} HTTP/1.1\r\nHost: x\r\n{auth}Content-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{b}", b.len());
    t.write_all(req.as_bytes()).await.map_err(e2s)?;
    let mut out = vec![];
    t.read_to_end(&mut out).await.map_err(e2s)?;
    let out = String::from_utf8_lossy(&out).to_string();
    let st = out.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or(format!("an answer: {out:?}"))?;
    let body = out.split_once("\r\n\r\n").map_or("", |x| x.1);
    Ok((st, serde_json::from_str(body).unwrap_or(J::String(body.to_string()))))
}
/// What the server keeps, read while it is down.
#[derive(Clone, Debug, PartialEq)]
struct Kept {
    settings: metadata::settings::Settings,
    admin: metadata::accounts::Account,
    orgs: Vec<metadata::organizations::Organization>,
    projects: Vec<metadata::projects::Project>,
    events: usize,
    tables: Vec<usize>,
}
struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Dir {
    /// The threads of the server that has stopped live on here: they must not find the files.
    fn moved(&mut self) -> R {
        let to = self.0.with_file_name(format!("m{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::rename(&self.0, &to).map_err(e2s)?;
        self.0 = to;
        Ok(())
    }
    fn kept(&mut self, change: impl FnOnce(&MetadataProvider) -> R) -> Result<Kept, String> {
        self.moved()?;
        let r = {
            let rocks = Arc::new(metadata::rocksdb::new(self.0.join("d").join(DATA_PATH_METADATA)).map_err(e2s)?);
            let db = Arc::new(OptiDBImpl::open(self.0.join("d").join(DATA_PATH_STORAGE), Options {}).map_err(e2s)?);
            let md = MetadataProvider::try_new(rocks, db.clone()).map_err(e2s)?;
            change(&md)?;
            let mut tables = vec![];
            let mut events = 0;
            for t in [TABLE_EVENTS.to_string()].into_iter().chain((0..GROUPS_COUNT).map(group_col)) {
                let n = db.schema(&t).map_err(|e| format!("table {t}: {e}"))?.fields.len();
                tables.push(n);
                if t == TABLE_EVENTS && n > 0 {
                    let st = db.scan(&t, vec![0, 1]).map_err(e2s)?;
                    for ch in futures::executor::block_on_stream(st) {
                        events += ch.map_err(e2s)?.len();
                    }
                }
            }
            Kept {
                settings: md.settings.load().map_err(e2s)?,
                admin: md.accounts.get_by_id(ADMIN_ID).map_err(|e| format!("the administrator's account: {e}"))?,
                orgs: md.organizations.list().map_err(e2s)?.data,
                projects: md.projects.list().map_err(e2s)?.data,
                events,
                tables,
            }
        };
        self.moved()?;
        Ok(r)
    }
}
fn config(dir: &Path, s: &mut Src) -> Result<Config, String> {
    let mut cfg = Config::default();
    cfg.data.path = dir.join("d");
    cfg.data.ua_db_path = dir.join("ua");
    cfg.data.geo_city_path = dir.join("geo");
    cfg.data.ui_path = dir.join("ui");
    cfg.misc.session_cleaner_interval = chrono::Duration::seconds(30);
    cfg.misc.project_default_session_duration = chrono::Duration::days(1);
    cfg.auth.access_token_duration = chrono::Duration::hours(1);
    cfg.auth.refresh_token_duration = chrono::Duration::hours(24);
    // an address of its own, so that no other server answers
    let n = N.fetch_add(1, Ordering::Relaxed);
    let ip = format!("127.{}.{}.{}:0", std::process::id() % 200 + 1, n / 250 % 250 + 1, n % 250 + 1);
    let l = std::net::TcpListener::bind(ip).map_err(e2s)?;
    cfg.server.host = l.local_addr().map_err(e2s)?;
    for t in [&mut cfg.events_table, &mut cfg.group_table] {
        t.levels = s.us(2, 7);
        t.merge_array_size = 10000;
        t.l1_max_size_bytes = 1 << 20;
        t.level_size_multiplier = 10;
        t.l0_max_parts = 4;
        t.max_log_length_bytes = 1 << 20;
        t.merge_array_page_size = 10000;
        t.merge_data_page_size_limit_bytes = 1 << 20;
        t.merge_max_l1_part_size_bytes = 1 << 20;
        t.merge_part_size_multiplier = 10;
        t.merge_row_group_values_limit = 1000;
        t.merge_chunk_size = 65536;
        t.merge_max_page_size = 1 << 20;
    }
    Ok(cfg)
}
struct Stop(Arc<Gate>);
impl Drop for Stop {
    fn drop(&mut self) {
        self.0.stop();
        gate::bind(None);
    }
}
/// Runs the server for the time of `f`; None if the port has been taken by somebody else.
fn serve<F: std::future::Future<Output = R>>(cfg: &Config, f: F) -> Result<Result<(), String>, String> {
    let g = Arc::new(Gate::default());
    gate::bind(Some(g.clone()));
    let _stop = Stop(g);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(e2s)?;
    let r = rt.block_on(async {
        tokio::select! {
            r = cmd::command::server::start(cfg.clone()) => Ok(Err(match r { Ok(()) => "it ended".to_string(), Err(e) => e.to_string() })),
            r = async {
                for _ in 0..3000 {
                    if tokio::net::TcpStream::connect(cfg.server.host).await.is_ok() {
                        return f.await.map(Ok);
                    }
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                Err("the server is not there".to_string())
            } => r,
        }
    });
    rt.shutdown_timeout(Duration::from_secs(5));
    r
}
pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let mut dir = Dir(root.join(format!("m{}", N.fetch_add(1, Ordering::Relaxed))));
    std::fs::create_dir_all(&dir.0).map_err(e2s)?;
    for f in ["ua", "geo"] {
        std::fs::write(dir.0.join(f), "").map_err(e2s)?;
    }
    std::fs::create_dir_all(dir.0.join("ui")).map_err(e2s)?;
    let mut last: Option<Kept> = None;
    let mut pass: Option<String> = None;
    let mut tokens: Vec<(String, String)> = vec![];
    let mut starts = 0;
    for i in 0..s.us(1, 4) {
        let cfg = config(&dir.0, s)?;
        let host = cfg.server.host;
        let missing = if s.chance(1, 6) { Some(*s.pick(&["ui", "ua", "geo"])) } else { None };
        if let Some(m) = missing {
            c.note(format!("{i}: start without {m}"));
            std::fs::rename(dir.0.join(m), dir.0.join("away")).map_err(e2s)?;
            let r = serve(&cfg, async { Ok(()) })?;
            ensure!(r.is_err(), "the server runs without {m}");
            std::fs::rename(dir.0.join("away"), dir.0.join(m)).map_err(e2s)?;
            // the first steps have been taken; the administrator comes later
            dir.moved()?;
            c.label("refused");
            continue;
        }
        // what a client does while the server runs
        let (mut project, mut sent) = (None, 0usize);
        let n = s.us(0, 3);
        let make = s.bool();
        c.note(format!("{i}: start, a project {make}, {n} events"));
        let r = {
            let (pass, tokens, last, project, sent) = (&pass, &mut tokens, &last, &mut project, &mut sent);
            serve(&cfg, async move {
                let (st, _) = http(host, "POST", "/api/v1/auth/login", "", &json!({"email": "admin@admin.com", "password": "not it"})).await?;
                ensure_eq!(st, 401, "a log in with a wrong password");
                for (t, f) in tokens.iter() {
                    let (st, j) = http(host, "GET", "/api/v1/profile", t, &json!({})).await?;
                    ensure!(st == 200 && j["email"] == "admin@admin.com", "the profile with a token of an earlier run: {st} {j}");
                    let (st, j) = http(host, "POST", "/api/v1/auth/refresh-token", t, &json!({"refreshToken": f})).await?;
                    ensure_eq!(st, 200, "refreshing a token of an earlier run: {j}");
                }
                if let Some(p) = pass {
                    let (st, j) = http(host, "POST", "/api/v1/auth/login", "", &json!({"email": "admin@admin.com", "password": p})).await?;
                    ensure_eq!(st, 200, "the administrator's log in: {j}");
                    let t = j["accessToken"].as_str().unwrap_or("").to_string();
                    tokens.push((t.clone(), j["refreshToken"].as_str().unwrap_or("").to_string()));
                    if make {
                        let (st, j) = http(host, "POST", "/api/v1/projects", &t, &json!({"name": format!("made {i}")})).await?;
                        ensure_eq!(st, 201, "a project: {j}");
                        *project = Some(j["sdkToken"].as_str().or(j["token"].as_str()).ok_or(format!("no token: {j}"))?.to_string());
                    }
                }
                let known = last.as_ref().and_then(|k| k.projects.last().map(|p| p.token.clone()));
                if let Some(t) = project.clone().or(known) {
                    for k in 0..n {
                        let b = json!({"userId": format!("u{k}"), "event": "Seen", "properties": {"n": k}, "sentAt": "2024-01-01T00:00:00Z", "timestamp": "2024-01-01T00:00:00Z",
                            "context": {"ip": "127.0.0.1", "library": {"name": "l", "version": "1"}}});
                        let (st, j) = http(host, "POST", &format!("/api/v1/ingest/{t}/track"), "", &b).await?;
                        ensure!(st < 300, "an event: {st} {j}");
                        *sent += 1;
                    }
                }
                let (st, _) = http(host, "POST", "/api/v1/ingest/nobody/track", "", &json!({"userId": "u", "event": "Seen"})).await?;
                ensure!(st >= 400, "an event for nobody: {st}");
                Ok(())
            })?
        };
        if let Err(e) = &r {
            if e.contains("in use") {
                return Ok(());
            }
            return Err(format!("{i}: the server stops: {e}"));
        }
        starts += 1;
        c.nontrivial(starts > 1);
        let k = dir.kept(|_| Ok(()))?;
        let st = &k.settings;
        ensure!(st.auth_access_token.len() >= 32 && st.auth_refresh_token.len() >= 32, "keys: {st:?}");
        ensure!(st.auth_access_token != st.auth_refresh_token, "one key for both kinds of tokens");
        ensure_eq!(k.orgs.len(), 1, "organizations");
        ensure!(k.admin.role == Some(common::rbac::Role::Admin), "role of the administrator: {:?}", k.admin.role);
        match &last {
            None => {
                ensure!(pass.is_none(), "a password before");
                ensure_eq!(k.projects.len(), 0, "projects at the first start");
                pass = Some(st.auth_admin_default_password.clone());
            }
            Some(l) => {
                ensure_eq!(k.settings, l.settings, "settings over a start");
                ensure_eq!(k.admin, l.admin, "the administrator over a start");
                // a new project may be noted in its organization
                ensure_eq!(k.orgs.iter().map(|o| (o.id, &o.name)).collect::<Vec<_>>(), l.orgs.iter().map(|o| (o.id, &o.name)).collect::<Vec<_>>(), "organizations over a start");
                ensure_eq!(k.projects.len(), l.projects.len() + project.is_some() as usize, "projects over a start");
                for (a, b) in k.projects.iter().zip(&l.projects) {
                    ensure_eq!((a.id, &a.token, &a.name), (b.id, &b.token, &b.name), "a project over a start");
                }
                ensure!(k.events >= l.events + sent, "{} events of {} and {sent} sent since", k.events, l.events);
                ensure!(k.tables.iter().zip(&l.tables).all(|(a, b)| a >= b), "columns {:?} of {:?}", k.tables, l.tables);
                if sent > 0 {
                    c.label("events");
                }
                if project.is_some() {
                    c.label("project");
                }
            }
        }
        // the administrator's changes stay
        let k = if s.bool() {
            let h = s.us(0, 23);
            c.note(format!("{i}: backups at {h}"));
            dir.kept(|md| {
                let mut st = md.settings.load().map_err(e2s)?;
                st.backup_enabled = true;
                st.backup_schedule_interval = metadata::settings::BackupScheduleInterval::Yearly;
                st.backup_schedule_start_hour = h;
                md.settings.save(&st).map_err(e2s)
            })?
        } else {
            k
        };
        last = Some(k);
    }
    Ok(())
}
