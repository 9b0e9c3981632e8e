mod ents;
mod reqs;
mod world;

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use chrono::{DateTime, Utc};
use common::rbac::OrganizationRole;
use common::types::{DType, OptionalProperty, COLUMN_EVENT, TABLE_EVENTS};
use common::{group_col, GROUPS_COUNT};
use ents::*;
use metadata::accounts::CreateAccountRequest;
use metadata::custom_events as ce;
use metadata::dictionaries::SingleDictionaryProvider;
use metadata::error::MetadataError;
use metadata::groups::{PropertyValue, Value};
use metadata::organizations::CreateOrganizationRequest;
use metadata::projects::CreateProjectRequest;
use metadata::properties::{CreatePropertyRequest, Property, Type};
use metadata::util::create_event;
use proputil::*;
use world::World;

/// Projects whose numbers are prefixes of each other.
const SCOPES: [u64; 4] = [1, 11, 2, 111];
const NAMES: [&str; 12] = ["a", "A", "ab", "a/b", "data/1", "idx/name/a", "naïve ☃", "1", "name", "b", "a b", "id_seq"];

fn ctx(names: &[&str], w: &World) -> Result<Ctx, String> {
    // accounts that own organizations live apart from those of the account history
    let mut accounts = vec![];
    let _ = w;
    accounts.extend([1, 2, 3]);
    Ok(Ctx { names: names.iter().map(|s| s.to_string()).collect(), accounts, events: BTreeMap::new(), scope: 1 })
}
fn account(w: &World, email: &str) -> Result<u64, String> {
    Ok(w.md()
        .accounts
        .create(CreateAccountRequest {
            created_by: 0,
            password_hash: "x".into(),
            email: email.into(),
            name: None,
            force_update_password: false,
            force_update_email: false,
            role: None,
            organizations: None,
            projects: None,
            teams: None,
        })
        .map_err(|e| e.to_string())?
        .id)
}

#[derive(Default)]
struct All {
    events: Engine<Events>,
    customs: Engine<CustomEvents>,
    eprops: Engine<EventProps>,
    gprops: Engine<GroupProps>,
    dashboards: Engine<Dashboards>,
    reports: Engine<Reports>,
    teams: Engine<Teams>,
    accounts: Engine<Accounts>,
    projects: Engine<Projects>,
    orgs: Engine<Organizations>,
    backups: Engine<Backups>,
}
impl All {
    /// organizations and accounts refer to each other (M11): a history has one of them
    fn steps(&mut self, orgs: bool) -> Vec<&mut dyn Step> {
        let mut v: Vec<&mut dyn Step> = vec![
            &mut self.events, &mut self.customs, &mut self.eprops, &mut self.gprops, &mut self.dashboards,
            &mut self.reports, &mut self.teams, &mut self.projects, &mut self.backups,
        ];
        v.push(if orgs { &mut self.orgs } else { &mut self.accounts });
        v
    }
}
/// Random operations on all kinds of entities of several projects, against the model.
fn entities(s: &mut Src, c: &mut Case, root: &Path, names: &[&str], max: usize, focus: bool, reopen: bool) -> R {
    let mut w = World::new(root)?;
    let mut x = ctx(names, &w)?;
    let mut all = All::default();
    let orgs = s.bool();
    if orgs {
        for i in 0..3 {
            account(&w, &format!("owner {i}"))?;
        }
    }
    // the custom events of the history refer to the two fixed events: they stay
    all.events.protect = 2;
    for sc in SCOPES {
        for n in ["fixed 1", "fixed 2"] {
            let e = create_event(w.md(), sc, n.to_string()).map_err(|e| e.to_string())?;
            *all.events.seq.entry(sc).or_insert(0) += 1;
            let mut e = e;
            sec(&mut e.created_at);
            all.events.live.entry(sc).or_default().insert(e.id, e);
        }
    }
    let scopes: Vec<u64> = SCOPES[..s.us(1, 4)].to_vec();
    let n = all.steps(orgs).len();
    let kinds: Vec<usize> = if focus { s.vec(1, 2, |s| s.us(0, n - 1)) } else { (0..n).collect() };
    for _ in 0..s.us(1, max) {
        if reopen && s.chance(1, 12) {
            c.note("reopen");
            w.reopen()?;
        }
        x.scope = *s.pick(&scopes);
        let k = *s.pick(&kinds);
        all.steps(orgs)[k].step(s, c, &w, &x)?;
    }
    let stats: Vec<_> = all.steps(orgs).iter().map(|e| e.stats()).collect();
    let refused: usize = stats.iter().map(|s| s.1).sum();
    let live: usize = stats.iter().map(|s| s.2).sum::<usize>() - 8;
    c.label(format!("{} live", match live { 0..=2 => "0-2", 3..=9 => "3-9", _ => "10+" }));
    if refused > 0 {
        c.label("name taken");
    }
    c.nontrivial(if focus { refused > 0 } else { live >= 3 });
    for round in 0..if reopen { 2 } else { 1 } {
        for e in all.steps(orgs) {
            e.verify(&w, &SCOPES).map_err(|e| format!("at the end, round {round}: {e}"))?;
        }
        if reopen && round == 0 {
            w.reopen()?;
        }
    }
    Ok(())
}
fn m01(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.suite("entities", "at least 3 entities are alive at the end of the history", 500, 12000, move |s, c| {
        entities(s, c, &r, &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"], 60, false, true)
    });
    p.suite("one-kind", "at least one operation was refused because its name was taken", 300, 6000, move |s, c| {
        entities(s, c, &root, &["a", "b", "c", "d", "e", "f", "g"], 40, true, true)
    });
}
fn m02(p: &mut Prop) {
    let root = p.scratch();
    p.suite("names", "at least one operation was refused because its name was taken", 600, 12000, move |s, c| {
        entities(s, c, &root, &["a", "b", "c", "d"], 40, true, false)
    });
}

fn m03(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.suite("entities", "at least 3 entities are alive at the end of the history", 300, 6000, move |s, c| {
        entities(s, c, &r, &NAMES, 50, false, false)
    });
    // everything else that is kept per project: one project's history alone ends like it does among others
    p.suite("side-stores", "at least two projects take at least 3 operations each", 300, 6000, move |s, c| {
        let n = s.us(6, 60);
        let ops: Vec<(u64, Side)> = s.vec(n, n, |s| (*s.pick(&SCOPES), Side::gen(s)));
        for o in &ops {
            c.note(format!("{o:?}"));
        }
        let count = |sc: u64| ops.iter().filter(|o| o.0 == sc).count();
        c.nontrivial(SCOPES.iter().filter(|sc| count(**sc) >= 3).count() >= 2);
        let w = World::new(&root)?;
        let mut mixed: BTreeMap<u64, Vec<String>> = BTreeMap::new();
        for (sc, o) in &ops {
            mixed.entry(*sc).or_default().push(o.run(&w, *sc));
        }
        for sc in SCOPES {
            let alone = World::new(&root)?;
            let got: Vec<String> = ops.iter().filter(|o| o.0 == sc).map(|o| o.1.run(&alone, sc)).collect();
            ensure_eq!(mixed.get(&sc).cloned().unwrap_or_default(), got, "results in project {sc} among others and alone");
        }
        Ok(())
    });
}
/// Calls on stores that are kept per project besides the entities.
#[derive(Debug, Clone)]
enum Side {
    DictKey(String, String),
    DictFind(String, String),
    DictValue(String, u64),
    Anon(u64, String),
    Real(u64, String, i64),
    Merge(u64, String, String),
    Upsert(u64, String, i64),
    Group(String),
    Groups,
    Record(u64),
    EventRecord,
    Session(u64, i64),
    Sweep(i64),
    SessionGet(u64),
    Clear,
}
impl Side {
    fn gen(s: &mut Src) -> Side {
        let nm = |s: &mut Src| s.pick(&NAMES).to_string();
        match s.us(0, 14) {
            0 | 1 => Side::DictKey(["d", "dd"][s.us(0, 1)].into(), nm(s)),
            2 => Side::DictFind(["d", "dd"][s.us(0, 1)].into(), nm(s)),
            3 => Side::DictValue(["d", "dd"][s.us(0, 1)].into(), s.below(6)),
            4 => Side::Anon(s.below(3), nm(s)),
            5 => Side::Real(s.below(3), nm(s), s.int()),
            6 => Side::Merge(s.below(3), nm(s), nm(s)),
            7 => Side::Upsert(s.below(3), nm(s), s.int()),
            8 => Side::Group(["g", "gg", "1"][s.us(0, 2)].into()),
            9 => Side::Groups,
            10 => Side::Record(s.below(3)),
            11 => Side::EventRecord,
            12 => Side::Session(s.below(12), s.range(0, 1000)),
            13 => if s.bool() { Side::Sweep(s.range(0, 1000)) } else { Side::SessionGet(s.below(12)) },
            _ => Side::Clear,
        }
    }
    fn run(&self, w: &World, p: u64) -> String {
        let md = w.md();
        let v = |n: &i64| vec![PropertyValue { property_id: 1, value: Value::Int64(Some(*n)) }];
        match self {
            Side::DictKey(d, x) => format!("{:?}", md.dictionaries.get_key_or_create(p, "t", d, x).ok()),
            Side::DictFind(d, x) => format!("{:?}", md.dictionaries.get_key(p, "t", d, x).ok()),
            Side::DictValue(d, k) => format!("{:?}", md.dictionaries.get_value(p, "t", d, *k).ok()),
            Side::Anon(g, k) => format!("{:?}", md.groups.get_or_create_anonymous_id(p, *g, k).ok()),
            Side::Real(g, k, n) => format!("{:?}", md.groups.get_or_create(p, *g, k, v(n)).ok()),
            Side::Merge(g, a, k) => format!("{:?}", md.groups.merge_with_anonymous(p, *g, a, k, vec![]).ok()),
            Side::Upsert(g, k, n) => format!("{:?}", md.groups.create_or_update(p, *g, k, v(n)).ok()),
            Side::Group(n) => format!("{:?}", md.groups.get_or_create_group(p, n.clone(), n.clone()).ok()),
            Side::Groups => format!("{:?}", md.groups.list_groups(p).ok()),
            Side::Record(g) => format!("{:?}", md.groups.next_record_sequence(p, *g).ok()),
            Side::EventRecord => format!("{:?}", md.events.next_record_sequence(p).ok()),
            Side::Session(u, t) => format!("{:?}", md.sessions.set_current_time(p, *u, DateTime::from_timestamp(*t, 0).unwrap()).ok()),
            Side::Sweep(t) => {
                let seen = Mutex::new(BTreeSet::new());
                let r = md.sessions.check_for_deletion(p, |s| {
                    seen.lock().unwrap().insert((s.user_id, s.created_at.timestamp()));
                    Ok(s.created_at.timestamp() < *t)
                });
                format!("{:?} {:?}", r.is_ok(), seen.into_inner().unwrap())
            }
            Side::SessionGet(u) => format!("{:?}", md.sessions.get_by_user_id(p, *u).ok()),
            Side::Clear => format!("{:?}", md.sessions.clear_project(p).is_ok()),
        }
    }
}

fn preq(name: &str, data_type: DType) -> CreatePropertyRequest {
    CreatePropertyRequest {
        created_by: 0,
        tags: None,
        name: name.into(),
        description: None,
        display_name: None,
        typ: Type::Event,
        data_type,
        status: metadata::properties::Status::Enabled,
        hidden: false,
        is_system: false,
        nullable: true,
        is_array: false,
        is_dictionary: false,
        dictionary_type: None,
    }
}

fn m04(p: &mut Prop) {
    let root = p.scratch();
    p.threads = p.threads.min(4);
    p.suite("threads", "at least 3 threads make at least 12 calls together, some for the same name", 2500, 20000, move |s, c| {
        let w = World::new(&root)?;
        let md = w.md().clone();
        let proj = md
            .projects
            .create(CreateProjectRequest { created_by: 1, organization_id: 1, name: "p".into(), description: None, tags: None, token: "t".into(), session_duration_seconds: 1 })
            .map_err(|e| e.to_string())?
            .id;
        let ev = create_event(&md, proj, "attach".into()).map_err(|e| e.to_string())?.id;
        let nt = s.us(2, 6);
        // few kinds per case make the calls collide
        let kinds = s.vec(1, 3, |s| s.us(0, 12));
        let plan: Vec<Vec<(usize, u64)>> = (0..nt).map(|_| { let n = s.us(2, 10); s.vec(n, n, |s| (*s.pick(&kinds), s.below(3))) }).collect();
        c.note(format!("kinds {kinds:?} calls {plan:?}"));
        let mut seen: BTreeMap<(usize, u64), usize> = BTreeMap::new();
        plan.iter().flatten().for_each(|x| *seen.entry(*x).or_insert(0) += 1);
        c.nontrivial(nt >= 3 && plan.iter().map(|p| p.len()).sum::<usize>() >= 12 && seen.values().any(|n| *n > 1));
        let bar = Arc::new(Barrier::new(nt));
        let handles: Vec<_> = plan
            .clone()
            .into_iter()
            .map(|calls| {
                let (md, bar) = (md.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    calls.into_iter().map(|(k, n)| (k, n, call(&md, proj, ev, k, n))).collect::<Vec<_>>()
                })
            })
            .collect();
        let mut res: BTreeMap<usize, Vec<(u64, Result<u64, String>)>> = BTreeMap::new();
        for h in handles {
            for (k, n, r) in h.join().map_err(|_| "a thread panicked".to_string())? {
                res.entry(k).or_default().push((n, r));
            }
        }
        for (k, rs) in res {
            let what = CALLS[k];
            let ok: Vec<(u64, u64)> = rs.iter().filter_map(|(n, r)| r.as_ref().ok().map(|v| (*n, *v))).collect();
            match k {
                // the same name has one id, other names have other ids, ids are dense
                0..=5 => {
                    if let Some((n, Err(e))) = rs.iter().find(|(_, r)| r.is_err()) {
                        return Err(format!("{what} {n}: {e}"));
                    }
                    let mut by: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
                    ok.iter().for_each(|(n, id)| {
                        by.entry(*n).or_default().insert(*id);
                    });
                    for (n, ids) in &by {
                        ensure!(ids.len() == 1, "{what}: name {n} got the ids {ids:?}");
                    }
                    let ids: BTreeSet<u64> = by.values().flatten().copied().collect();
                    ensure!(ids.len() == by.len(), "{what}: names share an id: {by:?}");
                }
                // each call takes the next number
                6 | 7 => {
                    let mut got: Vec<u64> = ok.iter().map(|x| x.1).collect();
                    got.sort();
                    ensure_eq!(got, (1..=rs.len() as u64).collect::<Vec<_>>(), "{what}: numbers handed out");
                }
                8 => {
                    let n = md.projects.get_by_id(proj).map_err(|e| e.to_string())?.events_count;
                    ensure_eq!(n, rs.len(), "{what}: the counter after {} increments", rs.len());
                }
                9 => {
                    let e = md.events.get_by_id(proj, ev).map_err(|e| e.to_string())?;
                    let mut got = e.event_properties.unwrap_or_default();
                    got.sort();
                    let want: BTreeSet<u64> = rs.iter().map(|x| x.0).collect();
                    ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "{what}: properties of the event");
                }
                10 => {
                    // one name, one owner: every further one is refused
                    let names: BTreeSet<u64> = rs.iter().map(|x| x.0).collect();
                    ensure!(ok.len() == names.len(), "{what}: {} accepted for {} names", ok.len(), names.len());
                    let list = md.custom_events.list(proj).map_err(|e| e.to_string())?.data;
                    ensure_eq!(list.len(), names.len(), "{what}: stored");
                }
                12 => {
                    let mut got: Vec<(u64, Value)> = md
                        .groups
                        .get_or_create(proj, 3, "k", vec![])
                        .map_err(|e| e.to_string())?
                        .values
                        .into_iter()
                        .map(|v| (v.property_id, v.value))
                        .collect();
                    got.sort_by_key(|v| v.0);
                    let want: BTreeSet<u64> = rs.iter().map(|x| x.0).collect();
                    let want: Vec<(u64, Value)> = want.into_iter().map(|n| (n, Value::Int64(Some(n as i64)))).collect();
                    ensure_eq!(got, want, "{what}: values of the group");
                    ensure!(ok.iter().all(|x| x.1 == ok[0].1), "{what}: the ids {ok:?}");
                }
                _ => {
                    // exactly one call per user began the session
                    let users: BTreeSet<u64> = rs.iter().map(|x| x.0).collect();
                    for u in users {
                        let new = ok.iter().filter(|x| x.0 == u && x.1 == 1).count();
                        ensure!(new == 1, "{what}: user {u} got {new} new sessions");
                    }
                }
            }
        }
        Ok(())
    });
}
const CALLS: [&str; 13] = [
    "event", "property", "dictionary key", "anonymous id", "user", "group name", "event record", "group record", "counter", "attach", "custom event", "session",
    "group values",
];
fn call(md: &metadata::MetadataProvider, p: u64, ev: u64, k: usize, n: u64) -> Result<u64, String> {
    let name = format!("n{n}");
    let e = |e: MetadataError| e.to_string();
    match k {
        0 => {
            let mut r = create_event_req(&name);
            r.created_by = n;
            md.events.get_or_create(p, r).map(|e| e.id).map_err(e)
        }
        1 => md.event_properties.get_or_create(p, preq(&name, DType::Int64)).map(|e| e.id).map_err(e),
        2 => md.dictionaries.get_key_or_create(p, "t", "d", &name).map_err(e),
        3 => md.groups.get_or_create_anonymous_id(p, 0, &name).map_err(e),
        4 => {
            if n == 0 {
                // as several anonymous ones at once
                static ANON: AtomicU64 = AtomicU64::new(0);
                let anon = format!("anon{}", ANON.fetch_add(1, Ordering::Relaxed) % 4);
                md.groups.merge_with_anonymous(p, 1, &anon, &name, vec![]).map(|g| g.id).map_err(e)
            } else {
                md.groups.get_or_create(p, 1, &name, vec![]).map(|g| g.id).map_err(e)
            }
        }
        5 => md.groups.get_or_create_group(p, name.clone(), name).map(|g| g.id).map_err(e),
        6 => md.events.next_record_sequence(p).map_err(e),
        7 => md.groups.next_record_sequence(p, 2).map_err(e),
        8 => md.projects.increment_events_counter(p).map(|_| 0).map_err(e),
        9 => md.events.try_attach_properties(p, ev, vec![n]).map(|_| 0).map_err(e),
        10 => md
            .custom_events
            .create(p, ce::CreateCustomEventRequest {
                created_by: 0,
                tags: None,
                name,
                description: None,
                status: ce::Status::Enabled,
                is_system: false,
                events: vec![ce::Event { event: common::query::EventRef::Regular(ev), filters: None }],
            })
            .map(|e| e.id)
            .map_err(e),
        12 => md
            .groups
            .create_or_update(p, 3, "k", vec![PropertyValue { property_id: n, value: Value::Int64(Some(n as i64)) }])
            .map(|g| g.id)
            .map_err(e),
        _ => md.sessions.set_current_time(p, n, Utc::now()).map(|b| b as u64).map_err(e),
    }
}
fn create_event_req(name: &str) -> metadata::events::CreateEventRequest {
    metadata::events::CreateEventRequest {
        created_by: 0,
        tags: None,
        name: name.into(),
        display_name: None,
        description: None,
        status: metadata::events::Status::Enabled,
        is_system: false,
        event_properties: None,
        user_properties: None,
        custom_properties: None,
    }
}

fn m05(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.suite("dictionary", "at least 3 different values in one dictionary", 400, 10000, move |s, c| {
        let mut w = World::new(&r)?;
        let mut m: BTreeMap<(u64, &str, &str), Vec<String>> = BTreeMap::new();
        for _ in 0..s.us(1, 60) {
            let k = ([1, 11][s.us(0, 1)], ["t", "tt"][s.us(0, 1)], ["d", "dd", "td"][s.us(0, 2)]);
            let v = if s.bool() { s.pick(&NAMES).to_string() } else { s.string(5) };
            let known = m.entry(k).or_default();
            let pos = known.iter().position(|x| *x == v).map(|i| i as u64 + 1);
            match s.us(0, 4) {
                0..=2 => {
                    c.note(format!("{k:?} key of {v:?}"));
                    let got = w.md().dictionaries.get_key_or_create(k.0, k.1, k.2, &v).map_err(|e| e.to_string())?;
                    if pos.is_none() {
                        known.push(v.clone());
                    }
                    ensure_eq!(got, pos.unwrap_or(known.len() as u64), "key of {v:?} in {k:?}");
                }
                3 => {
                    let got = w.md().dictionaries.get_key(k.0, k.1, k.2, &v);
                    ensure_eq!(got.ok(), pos, "lookup of {v:?} in {k:?}");
                }
                _ => {
                    c.note("reopen");
                    w.reopen()?;
                }
            }
        }
        c.nontrivial(m.values().any(|v| v.len() >= 3));
        for (k, vals) in &m {
            for i in 0..vals.len() as u64 + 2 {
                let got = w.md().dictionaries.get_value(k.0, k.1, k.2, i).ok();
                let want = (i >= 1).then(|| vals.get(i as usize - 1).cloned()).flatten();
                ensure_eq!(got, want, "value of {i} in {k:?}");
                let one = SingleDictionaryProvider::new(k.0, k.1.into(), k.2.into(), w.md().dictionaries.clone());
                ensure_eq!(one.get_value(i).ok(), want, "value of {i} in {k:?}, of the dictionary alone");
                if let Some(v) = want {
                    ensure_eq!(one.get_key(k.0, k.2, &v).ok(), Some(i), "key of {v:?} in {k:?}, of the dictionary alone");
                }
            }
        }
        Ok(())
    });
    p.suite("events", "an event was renamed or recreated", 300, 6000, move |s, c| {
        // rows hold event ids: the dictionary tells their names, whatever became of the events
        let w = World::new(&root)?;
        let mut live: BTreeMap<u64, String> = BTreeMap::new();
        let mut last: BTreeMap<u64, String> = BTreeMap::new();
        let names = ["a", "b", "c", "d", "e"];
        let mut changed = 0;
        for _ in 0..s.us(1, 30) {
            let name = s.pick(&names).to_string();
            let ids: Vec<u64> = live.keys().copied().collect();
            match s.us(0, 3) {
                0 | 1 => {
                    c.note(format!("get or create {name}"));
                    let e = w.md().events.get_or_create(1, create_event_req(&name)).map_err(|e| e.to_string())?;
                    if last.values().any(|n| *n == name) && !live.values().any(|n| *n == name) {
                        changed += 1;
                    }
                    live.insert(e.id, name.clone());
                    last.insert(e.id, name);
                }
                2 if !ids.is_empty() => {
                    let id = *s.pick(&ids);
                    c.note(format!("rename {id} to {name}"));
                    let u = metadata::events::UpdateEventRequest { name: OptionalProperty::Some(name.clone()), ..Default::default() };
                    if w.md().events.update(1, id, u).is_ok() {
                        changed += (live[&id] != name) as usize;
                        live.insert(id, name.clone());
                        last.insert(id, name);
                    }
                }
                3 if !ids.is_empty() => {
                    let id = *s.pick(&ids);
                    c.note(format!("delete {id}"));
                    w.md().events.delete(1, id).map_err(|e| e.to_string())?;
                    live.remove(&id);
                }
                _ => {}
            }
        }
        c.nontrivial(changed > 0);
        for (id, name) in &last {
            let got = w.md().dictionaries.get_value(1, TABLE_EVENTS, COLUMN_EVENT, *id).ok();
            ensure_eq!(got.as_ref(), Some(name), "name of the rows with event id {id}");
        }
        for (id, name) in &live {
            let got = w.md().dictionaries.get_key(1, TABLE_EVENTS, COLUMN_EVENT, name).ok();
            ensure_eq!(got, Some(*id), "id that event {name} is stored under");
        }
        Ok(())
    });
}

fn m06(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.suite("columns", "at least 4 properties are alive, of at least 2 kinds", 300, 6000, move |s, c| {
        let mut w = World::new(&r)?;
        let x = Ctx { names: ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"].map(String::from).to_vec(), accounts: vec![], events: BTreeMap::new(), scope: 1 };
        // (kind, id) -> property; kind 0: event, 1..: group
        let mut live: BTreeMap<(usize, u64), Property> = BTreeMap::new();
        let mut seen: BTreeMap<String, (usize, u64)> = BTreeMap::new();
        fn store(w: &World, k: usize) -> Arc<metadata::properties::Properties> {
            if k == 0 { w.md().event_properties.clone() } else { w.md().group_properties[k - 1].clone() }
        }
        for _ in 0..s.us(1, 40) {
            let k = s.us(0, GROUPS_COUNT);
            let typ = if k == 0 { Type::Event } else { Type::Group(k - 1) };
            match s.us(0, 9) {
                0..=4 => {
                    let req = prop_req(s, &x, typ.clone());
                    c.note(format!("create {typ:?} {} {:?} {:?} display {:?}", req.name, req.data_type, req.dictionary_type, req.display_name));
                    let taken = live.iter().any(|((kk, _), p)| *kk == k && (p.name == req.name || (p.display_name.is_some() && p.display_name == req.display_name)));
                    match store(&w, k).create(1, req.clone()) {
                        Ok(pr) => {
                            ensure!(!taken, "{typ:?} {}: a second property with the same name was accepted", req.name);
                            let col = pr.column_name();
                            if let Some(o) = seen.insert(col.clone(), (k, pr.id)) {
                                return Err(format!("column {col} was given to {o:?} and to {:?}", (k, pr.id)));
                            }
                            live.insert((k, pr.id), pr);
                        }
                        Err(MetadataError::AlreadyExists(_)) if taken => {
                            c.label("refused");
                            // what was refused must not be found
                            if !live.iter().any(|((kk, _), p)| *kk == k && p.name == req.name) {
                                let got = store(&w, k).get_by_name(1, &req.name);
                                ensure!(matches!(got, Err(MetadataError::NotFound(_))), "{} was refused, but is found: {got:?}", req.name);
                            }
                        }
                        Err(e) => return Err(format!("create {typ:?} {}: {e}", req.name)),
                    }
                }
                5 => {
                    c.note("reopen");
                    w.reopen()?;
                }
                6 | 7 => {
                    let keys: Vec<_> = live.keys().copied().collect();
                    if keys.is_empty() {
                        continue;
                    }
                    let (k, id) = *s.pick(&keys);
                    let dn = s.opt(|s| x.name(s));
                    c.note(format!("display name of {k} {id}: {dn:?}"));
                    let taken = dn.is_some() && live.iter().any(|((kk, i), p)| *kk == k && *i != id && p.display_name == dn);
                    let u = metadata::properties::UpdatePropertyRequest { display_name: OptionalProperty::Some(dn.clone()), ..Default::default() };
                    match store(&w, k).update(1, id, u) {
                        Ok(_) if taken => return Err("a second property with the same display name was accepted".into()),
                        Ok(_) => live.get_mut(&(k, id)).unwrap().display_name = dn,
                        Err(MetadataError::AlreadyExists(_)) if taken => c.label("refused"),
                        Err(e) => return Err(e.to_string()),
                    }
                }
                8 => {
                    let keys: Vec<_> = live.keys().copied().collect();
                    if keys.is_empty() {
                        continue;
                    }
                    let (k, id) = *s.pick(&keys);
                    c.note(format!("delete {k} {id}"));
                    store(&w, k).delete(1, id).map_err(|e| e.to_string())?;
                    live.remove(&(k, id));
                }
                _ => {}
            }
            // lookups by every way agree with the history, cached or not
            let names: BTreeSet<(usize, String)> = live.iter().map(|((k, _), p)| (*k, p.name.clone())).collect();
            for ((k, id), p) in &live {
                let st = store(&w, *k);
                for (how, got) in [("id", st.get_by_id(1, *id)), ("name", st.get_by_name(1, &p.name)), ("column", st.get_by_column_name(1, &p.column_name()))] {
                    let got = got.map_err(|e| format!("by {how}: {e}"))?;
                    ensure!(
                        got.id == *id && got.name == p.name && got.display_name == p.display_name && got.data_type == p.data_type && got.order == p.order
                            && got.dictionary_type == p.dictionary_type && got.typ == p.typ && got.nullable == p.nullable,
                        "property {k} {id} by {how}: {got:?}, wanted {p:?}"
                    );
                }
            }
            let k = s.us(0, GROUPS_COUNT);
            let n = x.name(s);
            if !names.contains(&(k, n.clone())) {
                let got = store(&w, k).get_by_name(1, &n);
                ensure!(matches!(got, Err(MetadataError::NotFound(_))), "{n} does not exist, but is found: {got:?}");
            }
        }
        c.nontrivial(live.len() >= 4 && live.keys().map(|k| k.0).collect::<BTreeSet<_>>().len() >= 2);
        for ((k, _), p) in &live {
            let mut tables = vec![TABLE_EVENTS.to_string()];
            if *k > 0 {
                tables.push(group_col(k - 1));
            }
            for t in tables {
                let sch = w.db().schema1(&t).map_err(|e| e.to_string())?;
                let f = sch.field_with_name(&p.column_name()).map_err(|_| format!("table {t} has no column {} of {}", p.column_name(), p.name))?;
                ensure_eq!(f.data_type(), &p.data_type(), "type of column {} of {t}", p.column_name());
                ensure_eq!(f.is_nullable(), p.nullable, "nullability of column {} of {t}", p.column_name());
            }
        }
        Ok(())
    });
    let r = root.clone();
    p.finding("column-shared-across-projects", "a text property of one project and a dictionary property of another share a column of the first one's type", move || {
        let w = World::new(&r)?;
        let a = w.md().event_properties.create(1, preq("a", DType::String)).map_err(|e| e.to_string())?;
        let mut q = preq("b", DType::String);
        q.is_dictionary = true;
        q.dictionary_type = Some(metadata::properties::DictionaryType::Int8);
        let b = w.md().event_properties.create(2, q).map_err(|e| e.to_string())?;
        let sch = w.db().schema1(TABLE_EVENTS).map_err(|e| e.to_string())?;
        for p in [a, b] {
            let f = sch.field_with_name(&p.column_name()).map_err(|e| e.to_string())?;
            ensure_eq!(f.data_type(), &p.data_type(), "type of the column of {} (project {})", p.name, p.project_id);
        }
        Ok(())
    });
}

fn m07(p: &mut Prop) {
    let root = p.scratch();
    p.suite("attach", "at least one property is attached at the end and one call was refused", 400, 10000, move |s, c| {
        let mut w = World::new(&root)?;
        let mut m: BTreeMap<(u64, u64), [Vec<u64>; 2]> = BTreeMap::new();
        for pr in [1, 11] {
            for n in ["a", "b"] {
                let e = create_event(w.md(), pr, n.into()).map_err(|e| e.to_string())?;
                m.insert((pr, e.id), Default::default());
            }
        }
        let mut refused = 0;
        for _ in 0..s.us(1, 40) {
            let pr = [1, 11][s.us(0, 1)];
            let ev = 1 + s.below(3);
            let id = s.below(4);
            let kind = s.us(0, 1);
            let md = w.md();
            let op = s.us(0, 5);
            c.note(format!("op {op} project {pr} event {ev} property {id} kind {kind}"));
            let have = m.get_mut(&(pr, ev));
            match op {
                0 | 1 => {
                    let got = if kind == 0 { md.events.attach_event_property(pr, ev, id) } else { md.events.attach_user_property(pr, ev, id) };
                    match have {
                        None => ensure!(matches!(got, Err(MetadataError::NotFound(_))), "attach to a missing event: {got:?}"),
                        Some(h) if h[kind].contains(&id) => {
                            refused += 1;
                            ensure!(matches!(got, Err(MetadataError::AlreadyExists(_))), "attach twice: {got:?}")
                        }
                        Some(h) => {
                            got.map_err(|e| e.to_string())?;
                            h[kind].push(id);
                        }
                    }
                }
                2 => {
                    let got = if kind == 0 { md.events.detach_event_property(pr, ev, id) } else { md.events.detach_user_property(pr, ev, id) };
                    match have {
                        Some(h) if h[kind].contains(&id) => {
                            got.map_err(|e| e.to_string())?;
                            h[kind].retain(|x| *x != id);
                        }
                        _ => {
                            refused += 1;
                            ensure!(got.is_err(), "detach of a property that isn't attached: {got:?}")
                        }
                    }
                }
                3 => {
                    let ids = s.vec(0, 4, |s| s.below(5));
                    c.note(format!("try attach {ids:?}"));
                    let got = md.events.try_attach_properties(pr, ev, ids.clone());
                    match have {
                        None => ensure!(matches!(got, Err(MetadataError::NotFound(_))), "try attach to a missing event: {got:?}"),
                        Some(h) => {
                            got.map_err(|e| e.to_string())?;
                            for i in ids {
                                if !h[0].contains(&i) {
                                    h[0].push(i);
                                }
                            }
                        }
                    }
                }
                4 => w.reopen()?,
                _ => {
                    // another change of the event keeps what is attached
                    let u = metadata::events::UpdateEventRequest { description: OptionalProperty::Some(Some("x".into())), ..Default::default() };
                    let got = md.events.update(pr, ev, u);
                    ensure_eq!(got.is_ok(), have.is_some(), "update of event {ev}");
                }
            }
        }
        c.nontrivial(refused > 0 && m.values().any(|h| !h[0].is_empty()));
        for ((pr, ev), h) in &m {
            let e = w.md().events.get_by_id(*pr, *ev).map_err(|e| e.to_string())?;
            ensure_eq!(e.event_properties.unwrap_or_default(), h[0], "event properties of {pr} {ev}");
            ensure_eq!(e.user_properties.unwrap_or_default(), h[1], "user properties of {pr} {ev}");
        }
        Ok(())
    });
}

fn m08(p: &mut Prop) {
    use common::query::EventRef;
    let root = p.scratch();
    p.suite("references", "at least one custom event refers to another and one was refused", 600, 15000, move |s, c| {
        let w = World::new(&root)?;
        let md = w.md();
        for n in ["a", "b"] {
            create_event(md, 1, n.into()).map_err(|e| e.to_string())?;
        }
        let mut m: BTreeMap<u64, Vec<EventRef>> = BTreeMap::new();
        let mut next = 1;
        /// None: valid; Some(kind)
        fn check(m: &BTreeMap<u64, Vec<EventRef>>, evs: &[EventRef], level: usize, ids: &mut Vec<u64>) -> Option<&'static str> {
            if level > 3 {
                return Some("level");
            }
            for e in evs {
                match e {
                    EventRef::RegularName(n) => {
                        if n != "a" && n != "b" {
                            return Some("missing");
                        }
                    }
                    EventRef::Regular(i) => {
                        if *i != 1 && *i != 2 {
                            return Some("missing");
                        }
                    }
                    EventRef::Custom(i) => {
                        if ids.contains(i) {
                            return Some("repeated");
                        }
                        let Some(sub) = m.get(i) else { return Some("missing") };
                        ids.push(*i);
                        if let Some(r) = check(m, sub, level + 1, ids) {
                            return Some(r);
                        }
                    }
                }
            }
            None
        }
        let mut refused = 0;
        for _ in 0..s.us(1, 20) {
            let ids: Vec<u64> = m.keys().copied().collect();
            let evs = s.vec(0, 3, |s| match s.us(0, 5) {
                0 => EventRef::RegularName(["a", "b", "c"][s.weighted(&[5, 5, 1])].into()),
                1 => EventRef::Regular(1 + s.weighted(&[5, 5, 1]) as u64),
                _ if !ids.is_empty() && !s.chance(1, 10) => EventRef::Custom(*s.pick(&ids)),
                _ => EventRef::Custom(s.below(12)),
            });
            let events: Vec<ce::Event> = evs.iter().map(|e| ce::Event { event: e.clone(), filters: None }).collect();
            let (id, got) = if ids.is_empty() || s.chance(3, 5) {
                c.note(format!("create {next}: {evs:?}"));
                let r = md.custom_events.create(1, ce::CreateCustomEventRequest {
                    created_by: 0,
                    tags: None,
                    name: format!("c{next}-{}", m.len()),
                    description: None,
                    status: ce::Status::Enabled,
                    is_system: false,
                    events,
                });
                (None, r)
            } else {
                let id = *s.pick(&ids);
                c.note(format!("update {id}: {evs:?}"));
                let u = ce::UpdateCustomEventRequest {
                    updated_by: 0,
                    tags: OptionalProperty::None,
                    name: OptionalProperty::None,
                    description: OptionalProperty::None,
                    status: OptionalProperty::None,
                    is_system: OptionalProperty::None,
                    events: OptionalProperty::Some(events),
                };
                (Some(id), md.custom_events.update(1, id, u))
            };
            let want = if evs.is_empty() { Some("empty") } else { check(&m, &evs, 0, &mut id.into_iter().collect()) };
            match (want, &got) {
                (None, Ok(e)) => {
                    ensure_eq!(e.id, id.unwrap_or(next), "id of the custom event");
                    if id.is_none() {
                        next += 1;
                    }
                    m.insert(e.id, evs);
                }
                (None, Err(e)) => return Err(format!("a valid custom event was refused: {e}")),
                (Some(w), Ok(_)) => return Err(format!("an invalid custom event ({w}) was accepted")),
                (Some(w), Err(e)) => {
                    refused += 1;
                    c.label(w);
                    let right = match w {
                        "empty" | "level" => matches!(e, MetadataError::BadRequest(_)),
                        "missing" => matches!(e, MetadataError::NotFound(_)),
                        _ => matches!(e, MetadataError::AlreadyExists(_)),
                    };
                    ensure!(right, "{w}: refused with {e:?}");
                }
            }
        }
        c.nontrivial(refused > 0 && m.values().flatten().any(|e| matches!(e, EventRef::Custom(_))));
        for (id, evs) in &m {
            let e = md.custom_events.get_by_id(1, *id).map_err(|e| e.to_string())?;
            ensure_eq!(&e.events.iter().map(|e| e.event.clone()).collect::<Vec<_>>(), evs, "events of {id}");
            // following references always ends
            fn walk(m: &BTreeMap<u64, Vec<EventRef>>, id: u64, path: &mut Vec<u64>) -> R {
                ensure!(!path.contains(&id), "custom event {id} contains itself through {path:?}");
                path.push(id);
                for e in m.get(&id).into_iter().flatten() {
                    if let EventRef::Custom(i) = e {
                        walk(m, *i, path)?;
                    }
                }
                path.pop();
                Ok(())
            }
            walk(&m, *id, &mut vec![])?;
        }
        Ok(())
    });
}

fn m09(p: &mut Prop) {
    let root = p.scratch();
    p.suite("sessions", "at least one session began again after it had ended", 500, 12000, move |s, c| {
        let mut w = World::new(&root)?;
        let mut m: BTreeMap<u64, BTreeMap<u64, i64>> = BTreeMap::new();
        let mut ended: BTreeSet<(u64, u64)> = BTreeSet::new();
        let mut again = false;
        if s.chance(1, 12) {
            for u in 1..=s.range(60, 300) as u64 {
                let t = s.range(0, 1000);
                let at = DateTime::from_timestamp_millis(t * 1000).unwrap();
                let new = w.md().sessions.set_current_time(SCOPES[0], u, at).map_err(|e| e.to_string())?;
                ensure!(new, "the first session of {u} isn't new");
                m.entry(SCOPES[0]).or_default().insert(u, t);
            }
        }
        for _ in 0..s.us(1, 50) {
            let pr = *s.pick(&SCOPES[..3]);
            let u = [1, 2, 10, 100, 1000000007][s.us(0, 4)];
            let mine = m.entry(pr).or_default();
            match s.us(0, 7) {
                0..=3 => {
                    let t = s.range(0, 1000);
                    let ms = s.range(0, 999);
                    c.note(format!("project {pr} user {u} at {t}.{ms}"));
                    let at = DateTime::from_timestamp_millis(t * 1000 + ms).unwrap();
                    let new = w.md().sessions.set_current_time(pr, u, at).map_err(|e| e.to_string())?;
                    ensure_eq!(new, !mine.contains_key(&u), "whether the session of {u} in {pr} is new");
                    again |= new && ended.contains(&(pr, u));
                    mine.insert(u, t);
                }
                4 => {
                    let t = s.range(0, 1000);
                    c.note(format!("project {pr} end sessions before {t}"));
                    let seen = Mutex::new(BTreeMap::new());
                    w.md()
                        .sessions
                        .check_for_deletion(pr, |x| {
                            seen.lock().unwrap().insert(x.user_id, x.created_at.timestamp());
                            Ok(x.created_at.timestamp() < t)
                        })
                        .map_err(|e| e.to_string())?;
                    ensure_eq!(&seen.into_inner().unwrap(), mine, "sessions offered for deletion in {pr}");
                    mine.iter().filter(|x| *x.1 < t).for_each(|x| {
                        ended.insert((pr, *x.0));
                    });
                    mine.retain(|_, x| *x >= t);
                }
                5 => {
                    c.note(format!("clear {pr}"));
                    w.md().sessions.clear_project(pr).map_err(|e| e.to_string())?;
                    mine.keys().for_each(|x| {
                        ended.insert((pr, *x));
                    });
                    mine.clear();
                }
                6 => w.reopen()?,
                _ => {
                    // a callback that fails ends nothing
                    let r = w.md().sessions.check_for_deletion(pr, |_| Err(MetadataError::BadRequest("x".into())));
                    ensure_eq!(r.is_err(), !mine.is_empty(), "an error of the callback is passed on");
                }
            }
            for pr in &SCOPES[..3] {
                for u in [1, 2, 10, 100, 1000000007] {
                    let got = w.md().sessions.get_by_user_id(*pr, u).ok().map(|x| (x.user_id, x.created_at.timestamp()));
                    let want = m.get(pr).and_then(|x| x.get(&u)).map(|t| (u, *t));
                    ensure_eq!(got, want, "session of {u} in {pr}");
                }
            }
        }
        c.nontrivial(again);
        Ok(())
    });
}

fn m10(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.suite("identities", "an anonymous id became a known user and another identity was added later", 500, 12000, move |s, c| {
        let mut w = World::new(&r)?;
        #[derive(Default)]
        struct G {
            next: u64,
            anon: BTreeMap<String, u64>,
            real: BTreeMap<String, (u64, Vec<PropertyValue>)>,
        }
        let mut m: BTreeMap<(u64, u64), G> = BTreeMap::new();
        let mut merged = 0;
        for _ in 0..s.us(1, 40) {
            let k = ([1, 11][s.us(0, 1)], s.below(2));
            let g = m.entry(k).or_default();
            let a = s.pick(&NAMES).to_string();
            let id = s.pick(&["u", "v", "w", "a", "a/b"]).to_string();
            let vals: Vec<PropertyValue> = {
                let n = s.us(0, 3);
                let mut ids = [0, 1, 2, 3, 4];
                s.shuffle(&mut ids);
                ids[..n].iter().map(|i| PropertyValue { property_id: *i, value: gvalue(s) }).collect()
            };
            let md = w.md();
            match s.us(0, 9) {
                0..=2 => {
                    c.note(format!("{k:?} anonymous {a:?}"));
                    let got = md.groups.get_or_create_anonymous_id(k.0, k.1, &a).map_err(|e| e.to_string())?;
                    if merged > 0 && !g.anon.contains_key(&a) {
                        c.nontrivial(true);
                    }
                    let want = *g.anon.entry(a.clone()).or_insert_with(|| { g.next += 1; g.next });
                    ensure_eq!(got, want, "id of the anonymous {a:?}");
                }
                3..=5 => {
                    c.note(format!("{k:?} anonymous {a:?} is {id:?} {vals:?}"));
                    let got = md.groups.merge_with_anonymous(k.0, k.1, &a, &id, vals.clone()).map_err(|e| e.to_string())?;
                    if !g.real.contains_key(&id) {
                        merged += 1;
                        let aid = *g.anon.entry(a.clone()).or_insert_with(|| { g.next += 1; g.next });
                        g.real.insert(id.clone(), (aid, vals));
                    }
                    ensure_eq!((got.id, got.values), g.real[&id].clone(), "user {id:?}");
                }
                6 | 7 => {
                    c.note(format!("{k:?} user {id:?} {vals:?}"));
                    let got = md.groups.get_or_create(k.0, k.1, &id, vals.clone()).map_err(|e| e.to_string())?;
                    if !g.real.contains_key(&id) {
                        if merged > 0 {
                            c.nontrivial(true);
                        }
                        g.next += 1;
                        g.real.insert(id.clone(), (g.next, vals));
                    }
                    ensure_eq!((got.id, got.values), g.real[&id].clone(), "user {id:?}");
                }
                8 => {
                    c.note(format!("{k:?} update {id:?} {vals:?}"));
                    let got = md.groups.create_or_update(k.0, k.1, &id, vals.clone()).map_err(|e| e.to_string())?;
                    match g.real.get_mut(&id) {
                        None => {
                            g.next += 1;
                            g.real.insert(id.clone(), (g.next, vals));
                        }
                        Some((_, old)) => {
                            for v in vals {
                                match old.iter_mut().find(|o| o.property_id == v.property_id) {
                                    Some(o) => *o = v,
                                    None => old.push(v),
                                }
                            }
                        }
                    }
                    ensure_eq!((got.id, got.values), g.real[&id].clone(), "user {id:?}");
                }
                _ => {
                    c.note("reopen");
                    w.reopen()?;
                }
            }
        }
        Ok(())
    });
    p.suite("group-names", "at least two group names and one call beyond the limit or repeated", 300, 8000, move |s, c| {
        let w = World::new(&root)?;
        let mut m: BTreeMap<u64, Vec<String>> = BTreeMap::new();
        let mut rep = false;
        for _ in 0..s.us(1, 25) {
            let pr = [1, 11][s.us(0, 1)];
            let n = s.pick(&NAMES).to_string();
            c.note(format!("{pr} {n:?}"));
            let have = m.entry(pr).or_default();
            let got = w.md().groups.get_or_create_group(pr, n.clone(), format!("D {n}"));
            match have.iter().position(|x| *x == n) {
                Some(i) => {
                    rep = true;
                    let g = got.map_err(|e| e.to_string())?;
                    ensure_eq!((g.id, g.name), (i as u64, n), "group");
                }
                None if have.len() < GROUPS_COUNT => {
                    let g = got.map_err(|e| e.to_string())?;
                    ensure_eq!((g.id, g.name.clone(), g.display_name), (have.len() as u64, n.clone(), format!("D {n}")), "group");
                    have.push(n);
                }
                None => {
                    rep = true;
                    ensure!(matches!(got, Err(MetadataError::BadRequest(_))), "group beyond the limit: {got:?}");
                }
            }
            for (pr, have) in &m {
                let mut got: Vec<(u64, String)> = w.md().groups.list_groups(*pr).map_err(|e| e.to_string())?.data.into_iter().map(|g| (g.id, g.name)).collect();
                got.sort();
                ensure_eq!(got, have.iter().cloned().enumerate().map(|(i, n)| (i as u64, n)).collect::<Vec<_>>(), "groups of {pr}");
            }
        }
        c.nontrivial(rep && m.values().any(|v| v.len() >= 2));
        Ok(())
    });
}
fn gvalue(s: &mut Src) -> Value {
    match s.us(0, 8) {
        0 => Value::Null,
        1 => Value::Int8(Some(s.int() as i8)),
        2 => Value::Int16(Some(s.int() as i16)),
        3 => Value::Int32(Some(s.int() as i32)),
        4 => Value::Int64(Some(s.int())),
        5 => Value::Boolean(Some(s.bool())),
        6 => Value::Timestamp(Some(s.int())),
        7 => Value::Decimal(Some(s.int() as i128 * s.int() as i128)),
        _ => Value::String(Some(s.string(6))),
    }
}

fn m11(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.suite("members", "at least two members were added or changed and one call was refused", 500, 12000, move |s, c| {
        let mut w = World::new(&r)?;
        let n = s.us(1, 4) as u64;
        for i in 0..n {
            account(&w, &format!("a{i}"))?;
        }
        let mut orgs: BTreeMap<u64, Vec<(u64, OrganizationRole)>> = BTreeMap::new();
        let mut next = 1;
        let (mut done, mut refused) = (0, 0);
        for _ in 0..s.us(1, 30) {
            let acc = 1 + s.below(n + 1);
            let org = 1 + s.below(3);
            let role = [OrganizationRole::Owner, OrganizationRole::Admin, OrganizationRole::Member][s.us(0, 2)].clone();
            let md = w.md();
            let known = acc <= n;
            let op = s.us(0, 7);
            c.note(format!("op {op} account {acc} organization {org} {role:?}"));
            match op {
                0 | 1 => {
                    let got = md.organizations.create(CreateOrganizationRequest { created_by: acc, name: format!("o{next}") });
                    if known {
                        let o = got.map_err(|e| e.to_string())?;
                        ensure_eq!(o.id, next, "organization id");
                        orgs.insert(next, vec![(acc, OrganizationRole::Owner)]);
                        next += 1;
                    } else {
                        refused += 1;
                        ensure!(got.is_err(), "an organization was created for a missing account");
                    }
                }
                2 | 3 => {
                    let got = md.organizations.add_member(org, acc, role.clone());
                    match orgs.get_mut(&org) {
                        Some(ms) if known && !ms.iter().any(|x| x.0 == acc) => {
                            got.map_err(|e| e.to_string())?;
                            ms.push((acc, role));
                            done += 1;
                        }
                        Some(ms) if known && ms.iter().any(|x| x.0 == acc) => {
                            refused += 1;
                            ensure!(matches!(got, Err(MetadataError::AlreadyExists(_))), "second membership: {got:?}");
                        }
                        _ => {
                            refused += 1;
                            ensure!(matches!(got, Err(MetadataError::NotFound(_))), "missing account or organization: {got:?}");
                        }
                    }
                }
                4 => {
                    let got = md.organizations.remove_member(org, acc);
                    match orgs.get_mut(&org) {
                        Some(ms) if ms.iter().any(|x| x.0 == acc) => {
                            got.map_err(|e| e.to_string())?;
                            ms.retain(|x| x.0 != acc);
                        }
                        _ => {
                            refused += 1;
                            ensure!(matches!(got, Err(MetadataError::NotFound(_))), "removal of a stranger: {got:?}");
                        }
                    }
                }
                5 => {
                    let got = md.organizations.change_member_role(org, acc, role.clone());
                    match orgs.get_mut(&org).and_then(|ms| ms.iter_mut().find(|x| x.0 == acc)) {
                        Some(x) => {
                            got.map_err(|e| e.to_string())?;
                            x.1 = role;
                            done += 1;
                        }
                        None => {
                            refused += 1;
                            ensure!(matches!(got, Err(MetadataError::NotFound(_))), "role of a stranger: {got:?}");
                        }
                    }
                }
                6 => {
                    let got = md.organizations.delete(org);
                    ensure_eq!(got.is_ok(), orgs.remove(&org).is_some(), "delete organization {org}");
                }
                _ => w.reopen()?,
            }
            // both sides tell the same
            for (id, ms) in &orgs {
                let o = w.md().organizations.get_by_id(*id).map_err(|e| e.to_string())?;
                ensure_eq!(&o.members, ms, "members of {id}");
                for a in 1..=n + 1 {
                    ensure_eq!(o.is_member(a), ms.iter().any(|x| x.0 == a), "is {a} a member of {id}");
                }
            }
            for a in 1..=n {
                let mut got = w.md().accounts.get_by_id(a).map_err(|e| e.to_string())?.organizations.unwrap_or_default();
                got.sort_by_key(|x| x.0);
                let want: Vec<(u64, OrganizationRole)> = orgs.iter().flat_map(|(id, ms)| ms.iter().filter(|x| x.0 == a).map(|x| (*id, x.1.clone()))).collect();
                ensure_eq!(got, want, "organizations of account {a}");
            }
        }
        c.nontrivial(done >= 2 && refused > 0);
        Ok(())
    });
    p.finding("deleted-account-stays-member", "a deleted account stays a member of its organizations", move || {
        let w = World::new(&root)?;
        let (a, b) = (account(&w, "a")?, account(&w, "b")?);
        let o = w.md().organizations.create(CreateOrganizationRequest { created_by: a, name: "o".into() }).map_err(|e| e.to_string())?;
        w.md().organizations.add_member(o.id, b, OrganizationRole::Member).map_err(|e| e.to_string())?;
        w.md().accounts.delete(b).map_err(|e| e.to_string())?;
        let o = w.md().organizations.get_by_id(o.id).map_err(|e| e.to_string())?;
        ensure!(!o.is_member(b), "account {b} is deleted, but still a member");
        Ok(())
    });
}

fn m12(p: &mut Prop) {
    use metadata::settings::*;
    let root = p.scratch();
    fn load(w: &World) -> Result<Option<Settings>, String> {
        match w.md().settings.load() {
            Ok(v) => Ok(Some(v)),
            Err(MetadataError::NotFound(_)) => Ok(None),
            Err(e) => Err(e.to_string()),
        }
    }
    let r = root.clone();
    p.suite("settings", "at least two saves, one of them refused", 400, 8000, move |s, c| {
        let mut w = World::new(&r)?;
        let mut cur: Option<Settings> = None;
        let (mut ok, mut bad) = (0, 0);
        ensure_eq!(load(&w)?, cur, "settings of a new database");
        for _ in 0..s.us(1, 8) {
            if s.chance(1, 5) {
                w.reopen()?;
            }
            let t = |s: &mut Src| if s.chance(1, 4) { String::new() } else { s.string(5) };
            let n = Settings {
                auth_access_token: t(s),
                auth_refresh_token: t(s),
                auth_admin_default_password: t(s),
                backup_enabled: s.bool(),
                backup_encryption_enabled: s.bool(),
                backup_encryption_password: t(s),
                backup_compression_enabled: s.bool(),
                backup_provider: [BackupProvider::Local, BackupProvider::S3, BackupProvider::GCP][s.us(0, 2)].clone(),
                backup_provider_local_path: t(s),
                backup_provider_s3_bucket: t(s),
                backup_provider_s3_path: t(s),
                backup_provider_s3_region: t(s),
                backup_provider_s3_access_key: t(s),
                backup_provider_s3_secret_key: t(s),
                backup_provider_gcp_bucket: t(s),
                backup_provider_gcp_path: t(s),
                backup_provider_gcp_key: t(s),
                backup_schedule_interval: [
                    BackupScheduleInterval::Hourly, BackupScheduleInterval::Daily, BackupScheduleInterval::Weekly,
                    BackupScheduleInterval::Monthly, BackupScheduleInterval::Yearly,
                ][s.us(0, 4)]
                .clone(),
                backup_schedule_start_hour: s.us(0, 23),
            };
            c.note(format!("save {n:?}"));
            let must_refuse = n.backup_encryption_enabled && n.backup_encryption_password.is_empty();
            match w.md().settings.save(&n) {
                Ok(()) => {
                    ensure!(!must_refuse, "encryption without a password was accepted");
                    ok += 1;
                    cur = Some(n);
                }
                Err(MetadataError::BadRequest(_)) => {
                    bad += 1;
                    let complete = match n.backup_provider {
                        BackupProvider::Local => true,
                        BackupProvider::S3 => ![&n.backup_provider_s3_bucket, &n.backup_provider_s3_path, &n.backup_provider_s3_region, &n.backup_provider_s3_access_key, &n.backup_provider_s3_secret_key].iter().any(|x| x.is_empty()),
                        BackupProvider::GCP => ![&n.backup_provider_gcp_bucket, &n.backup_provider_gcp_path, &n.backup_provider_gcp_key].iter().any(|x| x.is_empty()),
                    };
                    ensure!(must_refuse || !complete, "complete settings were refused");
                }
                Err(e) => return Err(e.to_string()),
            }
            ensure_eq!(load(&w)?, cur, "settings");
        }
        c.nontrivial(ok >= 1 && bad >= 1);
        Ok(())
    });
    p.suite("bookmarks", "at least two bookmarks of different accounts or projects", 400, 8000, move |s, c| {
        use metadata::bookmarks::*;
        let mut w = World::new(&root)?;
        let mut m: BTreeMap<(u64, u64, String), Bookmark> = BTreeMap::new();
        for _ in 0..s.us(1, 20) {
            let (pr, acc) = ([1, 11][s.us(0, 1)], [1, 11][s.us(0, 1)]);
            match s.us(0, 5) {
                0..=2 => {
                    let query = s.opt(|s| reqs::query(s).1);
                    c.note(format!("create {pr} {acc}"));
                    let mut b = w.md().bookmarks.create(pr, CreateBookmarkRequest { created_by: acc, query: query.clone() }).map_err(|e| e.to_string())?;
                    ensure!(b.query == query && b.created_by == acc && b.project_id == pr, "created {b:?}");
                    sec(&mut b.created_at);
                    ensure!(m.insert((pr, acc, b.id.clone()), b).is_none(), "a bookmark id was given twice");
                }
                3 => {
                    let keys: Vec<_> = m.keys().cloned().collect();
                    if let Some(k) = (!keys.is_empty()).then(|| s.pick(&keys).clone()) {
                        c.note(format!("delete {k:?}"));
                        // not as another account or in another project
                        ensure!(w.md().bookmarks.delete(k.0, 12 - k.1, &k.2).is_err(), "deleted by another account");
                        ensure!(w.md().bookmarks.delete(12 - k.0, k.1, &k.2).is_err(), "deleted in another project");
                        w.md().bookmarks.delete(k.0, k.1, &k.2).map_err(|e| e.to_string())?;
                        m.remove(&k);
                        ensure!(w.md().bookmarks.get_by_id(k.0, k.1, &k.2).is_err(), "a deleted bookmark is found");
                    }
                }
                _ => w.reopen()?,
            }
        }
        c.nontrivial(m.keys().map(|k| (k.0, k.1)).collect::<BTreeSet<_>>().len() >= 2);
        for (k, b) in &m {
            for pr in [1, 11] {
                for acc in [1, 11] {
                    let got = w.md().bookmarks.get_by_id(pr, acc, &k.2).ok();
                    ensure_eq!(got.as_ref(), (pr == k.0 && acc == k.1).then_some(b), "bookmark {k:?} seen by {acc} in {pr}");
                }
            }
        }
        Ok(())
    });
}

fn m13(p: &mut Prop) {
    let root = p.scratch();
    p.finding("token-and-name-share-an-index", "a project whose name is its token is no longer found by it when it is renamed", move || {
        let w = World::new(&root)?;
        let pr = w
            .md()
            .projects
            .create(CreateProjectRequest { created_by: 1, organization_id: 1, name: "x".into(), description: None, tags: None, token: "x".into(), session_duration_seconds: 1 })
            .map_err(|e| e.to_string())?;
        w.md()
            .projects
            .update(pr.id, metadata::projects::UpdateProjectRequest {
                updated_by: 1,
                name: OptionalProperty::Some("y".into()),
                description: OptionalProperty::None,
                tags: OptionalProperty::None,
                token: OptionalProperty::None,
                session_duration_seconds: OptionalProperty::None,
            })
            .map_err(|e| e.to_string())?;
        w.md().projects.get_by_token("x").map_err(|e| format!("project {} has token x: {e}", pr.id))?;
        Ok(())
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut p = Prop::new(&id);
    match id.as_str() {
        "M01" => m01(&mut p),
        "M02" => {
            m02(&mut p);
            m13(&mut p)
        }
        "M03" => m03(&mut p),
        "M04" => m04(&mut p),
        "M05" => m05(&mut p),
        "M06" => m06(&mut p),
        "M07" => m07(&mut p),
        "M08" => m08(&mut p),
        "M09" => m09(&mut p),
        "M10" => m10(&mut p),
        "M11" => m11(&mut p),
        "M12" => m12(&mut p),
        _ => panic!("unknown property {id}"),
    }
    p.finish()
}
