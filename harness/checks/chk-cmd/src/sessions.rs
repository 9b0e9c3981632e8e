//! The ends of sessions against a model, over a virtual clock.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use chrono::{TimeZone, Utc};
use cmd::gate::{self, Gate};
use common::config::Config;
use common::types::*;
use common::{group_col, DATA_PATH_METADATA, DATA_PATH_STORAGE, GROUPS_COUNT};
use common::types::OptionalProperty;
use metadata::projects::{CreateProjectRequest, UpdateProjectRequest};
use metadata::MetadataProvider;
use proputil::*;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;

use crate::{clock, e2s};

static N: AtomicUsize = AtomicUsize::new(0);

struct P {
    id: u64,
    secs: u64,
    /// column of the length, number of the end event; None once the project lacks one of them
    end: Option<(String, u64)>,
    gone: bool,
    /// user -> start, in seconds
    open: BTreeMap<u64, i64>,
}
type Row = (i64, i64, i64, i64, i64);

struct Sut {
    dir: std::path::PathBuf,
    md: Arc<MetadataProvider>,
    db: Arc<OptiDBImpl>,
    gate: Arc<Gate>,
}
impl Drop for Sut {
    fn drop(&mut self) {
        self.gate.stop();
        gate::bind(None);
        clock::set(None);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// (project, user, time, event, length) of the rows, and their numbers
fn events(x: &Sut, ps: &[P], lens: &[String]) -> Result<(Vec<Row>, BTreeMap<i64, Vec<i64>>), String> {
    let names: Vec<String> = x.db.schema(TABLE_EVENTS).map_err(e2s)?.fields.iter().map(|f| f.name.clone()).collect();
    let st = x.db.scan(TABLE_EVENTS, (0..names.len()).collect()).map_err(e2s)?;
    let mut out = vec![];
    let mut nums: BTreeMap<i64, Vec<i64>> = BTreeMap::new();
    for ch in futures::executor::block_on_stream(st) {
        let ch = ch.map_err(e2s)?;
        for i in 0..ch.len() {
            let get = |n: &str| -> Option<i64> {
                let k = names.iter().position(|x| x == n)?;
                let a = &ch.arrays()[k];
                a.as_any().downcast_ref::<arrow2::array::PrimitiveArray<i64>>().and_then(|a| a.get(i))
            };
            let p = get(COLUMN_PROJECT_ID).ok_or("an event of no project")?;
            let k = ps.iter().position(|x| x.id as i64 == p).ok_or("an event of an unknown project")?;
            for g in 1..GROUPS_COUNT {
                ensure_eq!(get(&group_col(g)), None, "group {g} of a session's end");
            }
            out.push((
                p,
                get(&group_col(0)).ok_or("an event of no user")?,
                get(COLUMN_CREATED_AT).ok_or("an event of no time")?,
                get(COLUMN_EVENT).ok_or("an event of no kind")?,
                get(&lens[k]).ok_or("no length")?,
            ));
            nums.entry(p).or_default().push(get(COLUMN_EVENT_ID).ok_or("an event of no number")?);
        }
    }
    out.sort();
    Ok((out, nums))
}
pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let dir = root.join(format!("s{}", N.fetch_add(1, Ordering::Relaxed)));
    let mut cfg = Config::default();
    cfg.data.path = dir.clone();
    cfg.misc.session_cleaner_interval = chrono::Duration::seconds(s.range(1, 100));
    cmd::init_fs(&cfg).map_err(e2s)?;
    let rocks = Arc::new(metadata::rocksdb::new(dir.join(DATA_PATH_METADATA)).map_err(e2s)?);
    let db = Arc::new(OptiDBImpl::open(dir.join(DATA_PATH_STORAGE), Options {}).map_err(e2s)?);
    let md = Arc::new(MetadataProvider::try_new(rocks, db.clone()).map_err(e2s)?);
    db.create_table(TABLE_EVENTS.into(), TableOptions { index_cols: 2, ..TableOptions::test(false) }).map_err(e2s)?;
    for g in 0..GROUPS_COUNT {
        db.create_table(group_col(g), TableOptions { index_cols: 2, ..TableOptions::test(true) }).map_err(e2s)?;
    }
    let x = Sut { dir, md: md.clone(), db: db.clone(), gate: Arc::new(Gate::default()) };
    let mut now = Utc.with_ymd_and_hms(2024, 5, 6, 7, 8, 9).unwrap().timestamp_millis() + s.range(0, 999);
    let mut ps = vec![];
    let mut lens = vec![];
    let add = |secs: u64, ps: &mut Vec<P>, lens: &mut Vec<String>| -> R {
        let i = ps.len();
        let p = md
            .projects
            .create(CreateProjectRequest {
                created_by: 1,
                organization_id: 1,
                name: format!("p{i}"),
                description: None,
                tags: None,
                token: format!("t{i}"),
                session_duration_seconds: secs,
            })
            .map_err(e2s)?;
        platform::projects::init_project(p.id, &md).map_err(e2s)?;
        let col = md.event_properties.get_by_name(p.id, EVENT_PROPERTY_SESSION_LENGTH).map_err(e2s)?.column_name();
        let ev = md.events.get_by_name(p.id, EVENT_SESSION_END).map_err(e2s)?.id;
        lens.push(col.clone());
        ps.push(P { id: p.id, secs, end: Some((col, ev)), gone: false, open: BTreeMap::new() });
        Ok(())
    };
    const SECS: [u64; 4] = [1, 10, 60, 3600];
    for _ in 0..s.us(1, 3) {
        let secs = *s.pick(&SECS);
        add(secs, &mut ps, &mut lens)?;
        c.note(format!("project {}: sessions of {secs} s", ps.last().unwrap().id));
    }
    gate::bind(Some(x.gate.clone()));
    *gate::CLOCK.lock().unwrap() = Some(|ms| clock::set(Some(ms)));
    cmd::init_session_cleaner(md.clone(), db.clone(), cfg.clone()).map_err(e2s)?;
    let mut want: Vec<Row> = vec![];
    let mut broken = false;
    for i in 0..s.us(2, 14) {
        let k = s.us(0, ps.len() - 1);
        match s.weighted(&[8, 8, 1, 1, 1, 1, 1]) {
            0 => {
                if ps[k].gone {
                    continue;
                }
                let u = *s.pick(&[1u64, 2, 3, 10, 11, 123]);
                let t = now - if s.chance(1, 4) { s.range(0, 5000) } else { 0 };
                clock::set(Some(now));
                let new = md.sessions.set_current_time(ps[k].id, u, Utc.timestamp_millis_opt(t).unwrap()).map_err(e2s)?;
                let known = ps[k].end.is_some();
                ensure!(!known || new != ps[k].open.contains_key(&u), "whether the session of {u} in project {} is new: {new}", ps[k].id);
                ps[k].open.insert(u, t.div_euclid(1000));
                c.note(format!("{i}: user {u} of project {} at {t}", ps[k].id));
                now += s.range(0, 3000);
            }
            1 => {
                // near the end of a session, often
                let edge = (ps[k].secs * 1000) as i64;
                now = match (s.us(0, 2), ps[k].open.values().min()) {
                    (0, Some(t)) => now.max(t * 1000 + edge + s.range(-1100, 1100)),
                    (1, _) => now + s.range(0, edge),
                    _ => now + s.range(0, 4_000_000),
                };
                c.note(format!("{i}: round at {now}"));
                ensure!(x.gate.step(now), "the thread that ends sessions has ended");
                let mut ended = 0;
                for p in ps.iter_mut().filter(|p| !p.gone) {
                    let over: Vec<(u64, i64)> =
                        p.open.iter().map(|(u, t)| (*u, (now - t * 1000).div_euclid(1000))).filter(|(_, l)| *l >= p.secs as i64).collect();
                    let Some((_, ev)) = &p.end else { continue };
                    for (u, l) in over {
                        p.open.remove(&u);
                        want.push((p.id as i64, u as i64, now, *ev as i64, l));
                        ended += 1;
                    }
                }
                want.sort();
                c.nontrivial(ended > 0 && ps.iter().any(|p| !p.open.is_empty()));
                if ended > 0 {
                    c.label(if broken { "ended beside a project that cannot" } else { "ended" });
                }
            }
            2 => {
                if let Some((_, ev)) = &ps[k].end {
                    if s.bool() {
                        md.events.delete(ps[k].id, *ev).map_err(e2s)?;
                    } else {
                        let pr = md.event_properties.get_by_name(ps[k].id, EVENT_PROPERTY_SESSION_LENGTH).map_err(e2s)?;
                        md.event_properties.delete(ps[k].id, pr.id).map_err(e2s)?;
                    }
                    c.note(format!("{i}: project {} has no event for ends any more, or no length", ps[k].id));
                    ps[k].end = None;
                    ps[k].open.clear();
                    broken = true;
                }
            }
            3 => {
                if !ps[k].gone {
                    md.projects.delete(ps[k].id).map_err(e2s)?;
                    ps[k].gone = true;
                    c.note(format!("{i}: project {} is deleted", ps[k].id));
                }
            }
            4 => {
                if ps.len() < 5 {
                    let secs = *s.pick(&SECS);
                    add(secs, &mut ps, &mut lens)?;
                    c.note(format!("{i}: project {} from now on: sessions of {secs} s", ps.last().unwrap().id));
                    c.label("later project");
                }
            }
            5 => {
                if !ps[k].gone {
                    let secs = *s.pick(&SECS);
                    let p = md.projects.get_by_id(ps[k].id).map_err(e2s)?;
                    md.projects
                        .update(p.id, UpdateProjectRequest {
                            updated_by: 1,
                            name: OptionalProperty::None,
                            description: OptionalProperty::None,
                            tags: OptionalProperty::None,
                            token: OptionalProperty::None,
                            session_duration_seconds: OptionalProperty::Some(secs),
                        })
                        .map_err(e2s)?;
                    ps[k].secs = secs;
                    c.note(format!("{i}: sessions of project {} last {secs} s now", p.id));
                }
            }
            _ => {
                if s.bool() {
                    db.flush(TABLE_EVENTS).map_err(e2s)?;
                    c.note(format!("{i}: flush"));
                }
            }
        }
        let (got, nums) = events(&x, &ps, &lens)?;
        ensure_eq!(got, want, "events stored (project, user, time, event, length)");
        for (p, n) in nums {
            ensure!(n.iter().collect::<BTreeSet<_>>().len() == n.len(), "events of project {p} with one number: {n:?}");
        }
        for p in ps.iter().filter(|p| p.end.is_some()) {
            for u in [1u64, 2, 3, 10, 11, 123] {
                let got = md.sessions.get_by_user_id(p.id, u).ok().map(|x| (x.user_id, x.created_at.timestamp()));
                ensure_eq!(got, p.open.get(&u).map(|t| (u, *t)), "session of user {u} in project {}", p.id);
            }
        }
    }
    let asked = x.gate.s.lock().unwrap().asked.clone();
    let every = cfg.misc.session_cleaner_interval.to_std().unwrap();
    ensure!(asked.iter().all(|d| *d == every), "it looks every {every:?}, but waited {asked:?}");
    Ok(())
}
