#[path = "../../chk-query/src/world.rs"]
mod world;
mod model;

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::path::Path;

use axum::body::Body;
use axum::extract::ConnectInfo;
use axum::Router;
use common::types::*;
use common::{group_col, GROUPS_COUNT};
use ingester::executor::Executor;
use metadata::projects::CreateProjectRequest;
use metadata::properties::Property;
use model::*;
use proputil::*;
use tower::ServiceExt;
use world::World;

fn e2s(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// The server's ingestion endpoints over a new database, and the model.
struct Sut {
    w: World,
    app: Router,
    m: Model,
    ids: Vec<u64>,
    tokens: Vec<String>,
    rt: tokio::runtime::Runtime,
    /// names the events and properties a project starts with
    base: (BTreeSet<String>, BTreeSet<String>),
    refused: bool,
}
fn app(w: &World, geo: &BTreeMap<String, (String, String)>) -> Result<Router, String> {
    let (md, db) = (w.md().clone(), w.db());
    let text: String = geo.iter().map(|(ip, (a, b))| format!("{ip}|{a}|{b}\n")).collect();
    let rdr = maxminddb::Reader::from_source(text.into_bytes()).map_err(e2s)?;
    let geo = ingester::transformers::geo::track::Geo::try_new(md.event_properties.clone(), rdr).map_err(e2s)?;
    let ua = ingester::transformers::user_agent::track::UserAgent::try_new(
        md.event_properties.clone(),
        uaparser::UserAgentParser::from_yaml("").unwrap(),
    )
    .map_err(e2s)?;
    use std::sync::Arc;
    let td = ingester::destinations::local::track::Local::new(db.clone(), md.clone());
    let id = ingester::destinations::local::identify::Local::new(db.clone(), md.clone());
    let track = Executor::<ingester::Track>::new(
        vec![Arc::new(ua) as Arc<dyn ingester::Transformer<ingester::Track>>, Arc::new(geo)],
        vec![Arc::new(td)],
        db.clone(),
        md.clone(),
    );
    let ident = Executor::<ingester::Identify>::new(vec![], vec![Arc::new(id)], db, md);
    Ok(ingester::sources::http::attach_routes(Router::new(), track, ident))
}
impl Sut {
    fn new(root: &Path, s: &mut Src) -> Result<Sut, String> {
        let w = World::new(root)?;
        let n = s.us(1, 2);
        let mut m = Model::new(n);
        m.geo = geo(s);
        let (mut ids, mut tokens) = (vec![], vec![]);
        for i in 0..n {
            let token = format!("tok{i}");
            let p = w
                .md()
                .projects
                .create(CreateProjectRequest {
                    created_by: 1,
                    organization_id: 1,
                    name: format!("p{i}"),
                    description: None,
                    tags: None,
                    token: token.clone(),
                    session_duration_seconds: 60,
                })
                .map_err(e2s)?;
            platform::projects::init_project(p.id, w.md()).map_err(e2s)?;
            ids.push(p.id);
            tokens.push(token);
        }
        let ev = w.md().events.list(ids[0]).map_err(e2s)?.data.into_iter().map(|e| e.name).collect();
        let pr = w.md().event_properties.list(ids[0]).map_err(e2s)?.data.into_iter().map(|e| e.name).collect();
        let app = app(&w, &m.geo)?;
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        Ok(Sut { w, app, m, ids, tokens, rt, base: (ev, pr), refused: false })
    }
    fn post(&self, path: &str, client: &str, body: String) -> Result<(u16, String), String> {
        post(&self.rt, &self.app, path, client, body)
    }
    fn track(&mut self, p: usize, t: &Track) -> Result<bool, String> {
        let t0 = chrono::Utc::now().timestamp_millis();
        let r = self.post(&format!("/api/v1/ingest/{}/track", self.tokens[p]), &t.client, t.json().to_string())?;
        ensure_eq!(r.0, 201, "status of {}: {}", t.json(), r.1);
        let t1 = chrono::Utc::now().timestamp_millis();
        self.new_groups(p, t)?;
        Ok(self.m.track(p, t, (t0, t1)))
    }
    /// A request may name several new groups: which comes first is open.
    fn new_groups(&mut self, p: usize, t: &Track) -> R {
        let mut l = self.w.md().groups.list_groups(self.ids[p]).map_err(e2s)?.data;
        l.sort_by_key(|g| g.id);
        let names = &mut self.m.ps[p].names;
        for g in l {
            if g.id as usize == names.len() && t.groups.contains_key(&g.name) && !names.contains(&g.name) {
                names.push(g.name);
            }
        }
        Ok(())
    }
    fn identify(&mut self, p: usize, i: &Identify) -> R {
        let t0 = chrono::Utc::now().timestamp_millis();
        let r = self.post(&format!("/api/v1/ingest/{}/identify", self.tokens[p]), &i.client, i.json().to_string())?;
        ensure_eq!(r.0, 204, "status of {}: {}", i.json(), r.1);
        let t1 = chrono::Utc::now().timestamp_millis();
        self.m.identify(p, i, (t0, t1));
        Ok(())
    }
    fn reopen(&mut self) -> R {
        self.app = Router::new();
        self.w.reopen()?;
        self.app = app(&self.w, &self.m.geo)?;
        Ok(())
    }
    fn end_sessions(&mut self, p: usize, who: &BTreeSet<u64>, labels: &BTreeSet<usize>) -> R {
        self.w
            .md()
            .sessions
            .check_for_deletion(self.ids[p], |x| Ok(who.contains(&x.user_id)))
            .map_err(e2s)?;
        for l in labels {
            self.m.ps[p].sessions.remove(l);
        }
        Ok(())
    }
}
fn post(rt: &tokio::runtime::Runtime, app: &Router, path: &str, client: &str, body: String) -> Result<(u16, String), String> {
    let ip: std::net::IpAddr = client.parse().unwrap();
    let mut req = http::Request::post(path).header("content-type", "application/json").body(Body::from(body)).unwrap();
    req.extensions_mut().insert(ConnectInfo(SocketAddr::new(ip, 4000)));
    let r = guarded(|| {
        rt.block_on(async {
            let r = app.clone().oneshot(req).await.unwrap();
            let st = r.status().as_u16();
            let b = axum::body::to_bytes(r.into_body(), 1 << 20).await.map_err(e2s)?;
            Ok::<_, String>((st, String::from_utf8_lossy(&b).to_string()))
        })
    })
    .map_err(|e| format!("the request ends in a panic: {e}"))?;
    r
}

#[derive(Clone, Debug, PartialEq)]
enum Cell {
    Null,
    I(i128),
    B(bool),
    S(String),
}
fn cells(a: &dyn arrow2::array::Array) -> Vec<Cell> {
    use arrow2::array::*;
    use arrow2::datatypes::DataType as D;
    macro_rules! prim {
        ($t:ty) => {
            a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap().iter().map(|v| v.map(|v| Cell::I(*v as i128)).unwrap_or(Cell::Null)).collect()
        };
    }
    match a.data_type() {
        D::Int8 => prim!(i8),
        D::Int16 => prim!(i16),
        D::Int32 => prim!(i32),
        D::Int64 | D::Timestamp(_, _) => prim!(i64),
        D::Decimal(_, _) => prim!(i128),
        D::Boolean => a.as_any().downcast_ref::<BooleanArray>().unwrap().iter().map(|v| v.map(Cell::B).unwrap_or(Cell::Null)).collect(),
        D::Utf8 => a
            .as_any()
            .downcast_ref::<Utf8Array<i32>>()
            .unwrap()
            .iter()
            .map(|v| v.map(|v| Cell::S(v.to_string())).unwrap_or(Cell::Null))
            .collect(),
        t => panic!("unexpected column type {t:?}"),
    }
}
/// All rows of a table, by column name, nulls left out.
fn table(w: &World, t: &str) -> Result<Vec<BTreeMap<String, Cell>>, String> {
    let db = w.db();
    let names: Vec<String> = db.schema(t).map_err(e2s)?.fields.iter().map(|f| f.name.clone()).collect();
    let st = db.scan(t, (0..names.len()).collect()).map_err(e2s)?;
    let mut out = vec![];
    for ch in futures::executor::block_on_stream(st) {
        let ch = ch.map_err(e2s)?;
        let cols: Vec<Vec<Cell>> = ch.arrays().iter().map(|a| cells(a.as_ref())).collect();
        ensure_eq!(cols.len(), names.len(), "columns of the scan of {t}");
        for i in 0..ch.len() {
            out.push(names.iter().cloned().zip(cols.iter().map(|c| c[i].clone())).filter(|(_, c)| *c != Cell::Null).collect());
        }
    }
    Ok(out)
}

/// Finds what a stored row says, in the words of the requests.
struct Reader<'a> {
    s: &'a Sut,
    /// column -> (name as in the model, table of its dictionary, property)
    cols: Vec<BTreeMap<String, (String, String, Property)>>,
    /// (project, group) -> label -> number
    num: BTreeMap<(usize, usize), BTreeMap<usize, u64>>,
}
impl<'a> Reader<'a> {
    fn new(s: &'a Sut) -> Result<Reader<'a>, String> {
        let mut cols = vec![];
        for id in &s.ids {
            let mut m = BTreeMap::new();
            for p in s.w.md().event_properties.list(*id).map_err(e2s)?.data {
                m.insert(p.column_name(), (format!("e:{}", p.name), TABLE_EVENTS.to_string(), p));
            }
            for g in 0..GROUPS_COUNT {
                for p in s.w.md().group_properties[g].list(*id).map_err(e2s)?.data {
                    if !p.is_system {
                        m.insert(p.column_name(), (format!("{g}:{}", p.name), group_col(g), p));
                    }
                }
            }
            cols.push(m);
        }
        Ok(Reader { s, cols, num: BTreeMap::new() })
    }
    fn project(&self, r: &mut BTreeMap<String, Cell>) -> Result<usize, String> {
        match r.remove(COLUMN_PROJECT_ID) {
            Some(Cell::I(p)) => self.s.ids.iter().position(|x| *x as i128 == p).ok_or(format!("row of an unknown project {p}")),
            x => Err(format!("project of a row is {x:?}")),
        }
    }
    fn props(&self, p: usize, r: BTreeMap<String, Cell>) -> Result<BTreeMap<String, V>, String> {
        let mut out = BTreeMap::new();
        for (c, v) in r {
            let (name, table, prop) = self.cols[p].get(&c).ok_or(format!("a value in column {c}, which is no property"))?;
            let v = match (&prop.data_type, v, prop.is_dictionary) {
                (DType::String, Cell::I(k), true) => V::S(
                    self.s
                        .w
                        .md()
                        .dictionaries
                        .get_value(self.s.ids[p], table, &c, k as u64)
                        .map_err(|e| format!("text of {name}: {e}"))?,
                ),
                (DType::String, Cell::S(v), false) => V::S(v),
                (DType::Decimal, Cell::I(v), false) => V::N(v),
                (DType::Boolean, Cell::B(v), false) => V::B(v),
                (DType::Timestamp, Cell::I(v), false) => V::T(v as i64),
                x => return Err(format!("property {name} holds {x:?}")),
            };
            out.insert(name.clone(), v);
        }
        Ok(out)
    }
    /// The number must stand for this label and no other.
    fn same(&mut self, p: usize, g: usize, label: usize, n: u64) -> R {
        let m = self.num.entry((p, g)).or_default();
        for (l, k) in m.iter() {
            ensure!((*l == label) == (*k == n), "project {p}, group {g}: number {n} for #{label}, but {k} for #{l}");
        }
        m.insert(label, n);
        Ok(())
    }
    fn event_row(&mut self, mut r: BTreeMap<String, Cell>, want: &Row, what: &str) -> R {
        let p = self.project(&mut r).map_err(|e| format!("{what}: {e}"))?;
        ensure_eq!(p, want.project, "{what}: project");
        let md = self.s.w.md();
        match r.remove(COLUMN_EVENT) {
            Some(Cell::I(e)) => {
                let e = md.events.get_by_id(self.s.ids[p], e as u64).map_err(|x| format!("{what}: event {e}: {x}"))?;
                ensure_eq!(e.name, want.event, "{what}: event");
            }
            x => return Err(format!("{what}: event is {x:?}")),
        }
        match r.remove(COLUMN_CREATED_AT) {
            Some(Cell::I(t)) => ensure!(
                want.at.0 as i128 <= t && t <= want.at.1 as i128,
                "{what}: dated {t}, expected {:?}",
                want.at
            ),
            x => return Err(format!("{what}: dated {x:?}")),
        }
        for (g, w) in want.groups.iter().enumerate() {
            match (r.remove(&group_col(g)), w) {
                (None, None) => {}
                (Some(Cell::I(n)), Some(l)) => self.same(p, g, *l, n as u64).map_err(|e| format!("{what}: {e}"))?,
                (x, w) => return Err(format!("{what}: group {g} is {x:?}, expected {w:?}")),
            }
        }
        r.remove(COLUMN_EVENT_ID);
        let mut got = self.props(p, r).map_err(|e| format!("{what}: {e}"))?;
        got.remove("e:Version Patch");
        if got != want.props {
            let ks: BTreeSet<&String> = got.keys().chain(want.props.keys()).collect();
            for k in ks {
                ensure_eq!(got.get(k), want.props.get(k), "{what}: {k}");
            }
        }
        Ok(())
    }
    /// Names lead to the numbers the rows hold, and back.
    fn names(&self) -> R {
        let md = self.s.w.md();
        for (p, q) in self.s.m.ps.iter().enumerate() {
            for g in 0..GROUPS_COUNT {
                let Some(num) = self.num.get(&(p, g)) else { continue };
                let all: Vec<(&String, &usize)> = q.ids[g].real.iter().chain(q.ids[g].anon.iter()).collect();
                for (l, n) in num {
                    let v = md
                        .dictionaries
                        .get_value(self.s.ids[p], TABLE_EVENTS, &group_col(g), *n)
                        .map_err(|e| format!("name of number {n} of group {g}: {e}"))?;
                    ensure!(
                        all.iter().any(|(k, x)| *x == l && **k == v),
                        "project {p}: number {n} of group {g} is named {v:?}, which is someone else"
                    );
                }
            }
        }
        Ok(())
    }
}
fn event_id(r: &BTreeMap<String, Cell>) -> i128 {
    match r.get(COLUMN_EVENT_ID) {
        Some(Cell::I(v)) => *v,
        _ => -1,
    }
}
/// Every event row, in the order of acceptance.
fn check_events<'a>(s: &'a Sut) -> Result<Reader<'a>, String> {
    let mut got = table(&s.w, TABLE_EVENTS)?;
    ensure_eq!(got.len(), s.m.rows.len(), "number of stored events");
    let mut rd = Reader::new(s)?;
    got.sort_by_key(event_id);
    for p in 0..s.ids.len() {
        let want: Vec<&Row> = s.m.rows.iter().filter(|r| r.project == p).collect();
        let mut mine = vec![];
        for r in &got {
            if rd.project(&mut r.clone())? == p {
                mine.push(r.clone());
            }
        }
        ensure_eq!(mine.len(), want.len(), "number of stored events of project {p}");
        let ids: BTreeSet<i128> = mine.iter().map(event_id).collect();
        ensure_eq!(ids.len(), mine.len(), "distinct record ids");
        for (i, (g, w)) in mine.into_iter().zip(want).enumerate() {
            rd.event_row(g, w, &format!("project {p}, row {i}"))?;
        }
    }
    Ok(rd)
}
fn check_groups(s: &Sut, rd: &mut Reader) -> R {
    for g in 0..GROUPS_COUNT {
        let got = table(&s.w, &group_col(g))?;
        let mut by: BTreeMap<(usize, i128), Vec<(i128, BTreeMap<String, Cell>)>> = BTreeMap::new();
        for mut r in got {
            let p = rd.project(&mut r)?;
            let (Some(Cell::I(id)), Some(Cell::I(v))) = (r.remove(GROUP_COLUMN_ID), r.remove(GROUP_COLUMN_VERSION)) else {
                return Err(format!("group {g}: a record without id or version: {r:?}"));
            };
            by.entry((p, id)).or_default().push((v, r));
        }
        for p in 0..s.ids.len() {
            let want: Vec<&GRow> = s.m.grows.iter().filter(|r| r.project == p && r.group == g).collect();
            let labels: BTreeSet<usize> = want.iter().map(|r| r.id).collect();
            let n: usize = by.iter().filter(|(k, _)| k.0 == p).map(|x| x.1.len()).sum();
            ensure!(n <= want.len(), "project {p}, group {g}: {n} records for {} identify calls", want.len());
            ensure_eq!(by.keys().filter(|k| k.0 == p).count(), labels.len(), "project {}, group {}: number of records", p, g);
            for key in s.m.ps[p].values.keys().filter(|k| k.0 == g) {
                let l = s.m.ps[p].ids[g].real[&key.1];
                let id = s
                    .w
                    .md()
                    .dictionaries
                    .get_key(s.ids[p], &group_col(g), GROUP_COLUMN_ID, &key.1)
                    .map_err(|e| format!("number of {key:?}: {e}"))?;
                rd.same(p, g, l, id)?;
                let vs = by.get_mut(&(p, id as i128)).ok_or(format!("project {p}: no record of {key:?}"))?;
                // two people who arrived under one anonymous id share a number,
                // and with it their records: each holds what was once written
                if s.m.ps[p].values.keys().filter(|k| k.0 == g && s.m.ps[p].ids[g].real[&k.1] == l).count() > 1 {
                    for (v, r) in vs.iter() {
                        let any = want.iter().filter(|w| w.id == l).any(|w| group_row(rd, r.clone(), w, "").is_ok());
                        ensure!(any, "project {p}, group {g}, {key:?}: version {v} was never written: {r:?}");
                    }
                    continue;
                }
                vs.sort_by_key(|v| v.0);
                let mut mine = want.iter().filter(|r| r.id == l);
                // the newest record holds the latest values; older ones were once so
                let last = mine.next_back().unwrap();
                let (v, r) = vs.pop().unwrap();
                group_row(rd, r, last, &format!("project {p}, group {g}, {key:?}, version {v}"))?;
                for (v, r) in vs.iter().rev() {
                    let mut ok = Err("none left".to_string());
                    for w in mine.by_ref().rev() {
                        ok = group_row(rd, r.clone(), w, "");
                        if ok.is_ok() {
                            break;
                        }
                    }
                    ok.map_err(|e| format!("project {p}, group {g}, {key:?}: version {v} was never written: {e}"))?;
                }
            }
        }
    }
    Ok(())
}
fn group_row(rd: &Reader, mut r: BTreeMap<String, Cell>, w: &GRow, what: &str) -> R {
    match r.remove(GROUP_COLUMN_CREATED_AT) {
        Some(Cell::I(t)) => ensure!(w.at.0 as i128 <= t && t <= w.at.1 as i128, "{what}: dated {t}, expected {:?}", w.at),
        x => return Err(format!("{what}: dated {x:?}")),
    }
    let got = rd.props(w.project, r).map_err(|e| format!("{what}: {e}"))?;
    let want: BTreeMap<String, V> = w.props.iter().map(|(k, v)| (format!("{}:{k}", w.group), v.clone())).collect();
    ensure_eq!(got, want, "{what}: values");
    Ok(())
}
fn type_char(p: &Property) -> char {
    match p.data_type {
        DType::String => 's',
        DType::Decimal => 'n',
        DType::Boolean => 'b',
        DType::Timestamp => 't',
        _ => '?',
    }
}
/// Each event and property a request named exists once, with its type, and belongs to the event.
fn check_schema(s: &Sut) -> R {
    let md = s.w.md();
    for (p, q) in s.m.ps.iter().enumerate() {
        let id = s.ids[p];
        let evs = md.events.list(id).map_err(e2s)?.data;
        let mut got: Vec<String> = evs.iter().map(|e| e.name.clone()).collect();
        got.sort();
        let want: BTreeSet<String> = s.base.0.iter().chain(q.events.keys()).cloned().collect();
        ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "events of project {p}");
        let props = md.event_properties.list(id).map_err(e2s)?.data;
        let mut got: Vec<String> = props.iter().map(|e| e.name.clone()).collect();
        got.sort();
        let want: BTreeSet<String> = s.base.1.iter().chain(q.eprops.keys()).cloned().collect();
        ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "event properties of project {p}");
        for (n, k) in &q.eprops {
            let x = props.iter().find(|x| x.name == *n).unwrap();
            ensure_eq!(type_char(x), *k, "type of event property {n}");
        }
        for (n, ps) in &q.events {
            let e = evs.iter().find(|e| e.name == *n).unwrap();
            let have: BTreeSet<u64> = e.event_properties.iter().flatten().cloned().collect();
            ensure_eq!(have.len(), e.event_properties.iter().flatten().count(), "properties of event {n} are distinct");
            let known: BTreeSet<String> = props.iter().filter(|p| have.contains(&p.id)).map(|p| p.name.clone()).collect();
            ensure!(ps.is_subset(&known), "event {n} has the properties {known:?}, it was tracked with {ps:?}");
            for k in known.difference(ps) {
                // one that came with a refused event may have been noted
                ensure!(s.base.1.contains(k) || s.refused, "event {n} has property {k}, with which it was never tracked");
            }
        }
        for g in 0..GROUPS_COUNT {
            let props: Vec<Property> =
                md.group_properties[g].list(id).map_err(e2s)?.data.into_iter().filter(|p| !p.is_system).collect();
            let mut got: Vec<(String, char)> = props.iter().map(|p| (p.name.clone(), type_char(p))).collect();
            got.sort();
            let want: Vec<(String, char)> =
                q.gprops.iter().filter(|(k, _)| k.0 == g).map(|(k, t)| (k.1.clone(), *t)).collect();
            ensure_eq!(got, want, "properties of group {g} of project {p}");
        }
        let mut got: Vec<(u64, String)> =
            md.groups.list_groups(id).map_err(e2s)?.data.into_iter().map(|g| (g.id, g.name)).collect();
        got.sort();
        let want: Vec<(u64, String)> = q.names.iter().enumerate().map(|(i, n)| (i as u64, n.clone())).collect();
        ensure_eq!(got, want, "groups of project {p}");
        ensure_eq!(md.projects.get_by_id(id).map_err(e2s)?.events_count, q.accepted, "event counter of project {p}");
    }
    Ok(())
}
fn check_all(s: &Sut) -> R {
    let mut rd = check_events(s)?;
    rd.names()?;
    check_groups(s, &mut rd)?;
    check_schema(s)
}

/// A request which must be refused, built so that it has nothing new to remember.
fn gen_bad(s: &mut Src, m: &Model, p: usize, c: &mut Case) -> Option<(bool, String, String, Vec<u16>)> {
    let q = &m.ps[p];
    let known: Vec<&String> = q.ids[0].real.keys().collect();
    if known.is_empty() || q.events.is_empty() {
        return None;
    }
    let user = s.pick(&known).to_string();
    let evs: Vec<&String> = q.events.keys().collect();
    let base = Track { user: Some(user.clone()), event: s.pick(&evs).to_string(), client: "10.0.0.9".into(), ts: when(s), ..Track::default() };
    let tok = format!("tok{p}");
    let track = |t: &Track| t.json().to_string();
    let keys: Vec<(&String, &char)> = q.eprops.iter().collect();
    let gkeys: Vec<(&(usize, String), &char)> = q.gprops.iter().filter(|k| k.0 .0 == 0).collect();
    let other = |s: &mut Src, k: char| {
        let t = *s.pick(&['s', 'n', 'b', 't']);
        (t != k).then(|| value(s, t)).filter(|v| !matches!(v, V::S(x) if chrono::DateTime::parse_from_rfc3339(x).is_ok()))
    };
    let k = s.below(9);
    c.label(format!("refused {k}"));
    Some(match k {
        0 => {
            let near = [format!("{tok}%20"), format!("%20{tok}"), tok.to_uppercase(), format!("{tok}0"), "tok".into(), format!("{tok}%00"), "%".into(), "nobody".into()];
            (true, s.pick(&near).clone(), track(&base), vec![404])
        }
        1 => (true, tok, track(&Track { user: None, ..base }), vec![400]),
        2 => {
            let j = track(&base);
            let mut cut = s.us(0, j.len() - 1);
            while !j.is_char_boundary(cut) {
                cut -= 1;
            }
            (true, tok, j[..cut].to_string(), vec![400])
        }
        3 => {
            let mut j = base.json();
            let k = *s.pick(&["event", "context"]);
            j.as_object_mut().unwrap().remove(k);
            (true, tok, j.to_string(), vec![400])
        }
        4 => {
            let mut j = base.json();
            let k = *s.pick(&["timestamp", "event", "userId", "properties", "groups", "context"]);
            j[k] = if k == "timestamp" { serde_json::json!("yesterday") } else { serde_json::json!(5) };
            (true, tok, j.to_string(), vec![400])
        }
        5 => {
            if keys.is_empty() {
                return None;
            }
            let (n, k) = *s.pick(&keys);
            let v = other(s, *k)?;
            let mut t = base;
            t.props.insert(n.clone(), v);
            // known properties that are right do not help
            for (n, k) in keys.iter().take(s.us(0, 2)) {
                let v = value(s, **k);
                t.props.entry(n.to_string()).or_insert(v);
            }
            (true, tok, track(&t), vec![400, 422, 500])
        }
        6 => {
            if gkeys.is_empty() {
                return None;
            }
            let ((_, n), k) = *s.pick(&gkeys);
            let v = other(s, *k)?;
            let i = Identify { group: "user".into(), id: user, ts: when(s), props: [(n.clone(), v)].into(), bare: false, client: base.client };
            (false, tok, i.json().to_string(), vec![400, 422, 500])
        }
        7 => {
            if q.names.len() < GROUPS_COUNT {
                return None;
            }
            if s.bool() {
                let mut t = base;
                t.groups.insert("extra".into(), "k".into());
                (true, tok, track(&t), vec![400, 422, 500])
            } else {
                let i = Identify { group: "extra".into(), id: "k".into(), ts: when(s), props: BTreeMap::new(), bare: true, client: base.client };
                (false, tok, i.json().to_string(), vec![400, 422, 500])
            }
        }
        _ => {
            // numbers which fit no column
            let n: Vec<&String> = q.eprops.iter().filter(|k| *k.1 == 'n').map(|k| k.0).collect();
            let name = if !n.is_empty() && s.bool() { s.pick(&n).to_string() } else { "event_id".to_string() };
            let v = *s.pick(&["1e27", "-1e20", "123456789012345678901234"]);
            let mut j = base.json();
            j["properties"] = serde_json::json!({});
            let t = j.to_string().replace("\"properties\":{}", &format!("\"properties\":{{\"{name}\":{v}}}"));
            (true, tok, t, vec![400, 422, 500])
        }
    })
}

struct Mix {
    rich: bool,
    track: u32,
    identify: u32,
    bad: u32,
    end: u32,
    reopen: u32,
}
fn history(root: &Path, s: &mut Src, c: &mut Case, mix: &Mix, steps: usize) -> R {
    let mut sut = Sut::new(root, s)?;
    let n = s.us(1, steps);
    let mut begun = 0;
    for _ in 0..n {
        let p = s.us(0, sut.ids.len() - 1);
        match s.weighted(&[mix.track, mix.identify, mix.bad, mix.end, mix.reopen, mix.end]) {
            0 => {
                let t = track(s, mix.rich);
                c.note(format!("track p{p} from {}: {}", t.client, t.json()));
                if t.user.is_some() && t.anon.is_some() {
                    c.label("user and anonymous");
                }
                let b = sut.track(p, &t)?;
                begun += b as usize;
            }
            1 => {
                let i = identify(s);
                c.note(format!("identify p{p}: {}", i.json()));
                sut.identify(p, &i)?;
            }
            2 => {
                if let Some((tr, tok, body, st)) = gen_bad(s, &sut.m, p, c) {
                    c.note(format!("to be refused: {tok} {} {body}", if tr { "track" } else { "identify" }));
                    let path = format!("/api/v1/ingest/{tok}/{}", if tr { "track" } else { "identify" });
                    let r = sut.post(&path, "10.0.0.9", body)?;
                    ensure!(st.contains(&r.0), "answered {} ({}), expected one of {st:?}", r.0, r.1);
                    sut.refused = true;
                    c.label("refusal");
                }
            }
            3 => {
                // the sessions of some end
                let rd = check_events(&sut)?;
                let open: Vec<usize> = sut.m.ps[p].sessions.iter().cloned().collect();
                let nums = rd.num.get(&(p, 0)).cloned().unwrap_or_default();
                let labels: BTreeSet<usize> = open.into_iter().filter(|_| s.bool()).collect();
                let who = labels.iter().map(|l| nums[l]).collect();
                c.note(format!("sessions of {labels:?} end in p{p}"));
                sut.end_sessions(p, &who, &labels)?;
                c.label("sessions end");
            }
            4 => {
                c.note("restart");
                sut.reopen()?;
                c.label("restart");
            }
            _ => {
                c.note("flush");
                sut.w.db().flush(TABLE_EVENTS).map_err(e2s)?;
            }
        }
        if s.chance(1, 4) {
            check_all(&sut)?;
        }
    }
    check_all(&sut)?;
    let ends = c.desc.contains("sessions of");
    c.nontrivial(match () {
        _ if mix.rich => begun > 0,
        _ if mix.bad > 2 => c.desc.contains("to be refused"),
        _ if mix.identify > mix.track => sut.m.grows.len() > 2,
        _ if mix.end > 1 => ends && begun > 1,
        _ => sut.m.rows.len() > 3,
    });
    Ok(())
}

/// Clients talk at the same time; the outcome is that of some order.
fn concurrent(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let mut sut = Sut::new(root, s)?;
    let k = s.us(2, 4);
    let mut plans: Vec<Vec<(usize, Option<Track>, Option<Identify>)>> = vec![];
    for t in 0..k {
        let n = s.us(1, 4);
        plans.push(
            (0..n)
                .map(|i| {
                    let p = s.us(0, sut.ids.len() - 1);
                    if s.chance(1, 3) {
                        let mut x = identify(s);
                        x.props.insert(format!("by{t}"), V::N((i as i128) * SCALE));
                        (p, None, Some(x))
                    } else {
                        let mut x = track(s, false);
                        // no values of others to attach, and each row can be told by its text
                        x.user.get_or_insert_with(|| "ann".into());
                        x.anon = None;
                        x.groups.clear();
                        x.props.insert("who".into(), V::S(format!("{t}-{i}")));
                        (p, Some(x), None)
                    }
                })
                .collect(),
        );
    }
    for (t, p) in plans.iter().enumerate() {
        for (p, a, b) in p {
            c.note(format!("client {t}, p{p}: {}", a.as_ref().map(|a| a.json()).or(b.as_ref().map(|b| b.json())).unwrap()));
        }
    }
    c.nontrivial(true);
    let (app, toks) = (&sut.app, &sut.tokens);
    let res: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                sc.spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                    for (p, a, b) in plan {
                        if let Some(a) = a {
                            let r = post(&rt, app, &format!("/api/v1/ingest/{}/track", toks[*p]), &a.client, a.json().to_string())?;
                            ensure_eq!(r.0, 201, "status: {}", r.1);
                        }
                        if let Some(b) = b {
                            let r = post(&rt, app, &format!("/api/v1/ingest/{}/identify", toks[*p]), &b.client, b.json().to_string())?;
                            ensure_eq!(r.0, 204, "status: {}", r.1);
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a client panicked".into()))).collect()
    });
    for r in res {
        r?;
    }
    let mut wide = (i64::MIN, i64::MAX);
    for t in &plans {
        for (p, a, b) in t {
            if let Some(a) = a {
                sut.m.track(*p, a, wide);
            }
            if let Some(b) = b {
                sut.m.identify(*p, b, wide);
            }
        }
    }
    wide.0 = 0;
    let _ = wide;
    // rows: one per tracked event with its own values, one session beginning per user
    let got = table(&sut.w, TABLE_EVENTS)?;
    ensure_eq!(got.len(), sut.m.rows.len(), "number of stored events");
    let rd = Reader::new(&sut)?;
    let mut ids = BTreeSet::new();
    let mut seen: BTreeMap<(usize, String), (i128, BTreeMap<String, V>)> = BTreeMap::new();
    let mut begins: BTreeMap<(usize, i128), usize> = BTreeMap::new();
    let mut number: BTreeMap<(usize, usize), i128> = BTreeMap::new();
    for mut r in got {
        let p = rd.project(&mut r)?;
        ensure!(ids.insert((p, event_id(&r))), "two rows with the same record id");
        r.remove(COLUMN_EVENT_ID);
        r.remove(COLUMN_CREATED_AT);
        let (Some(Cell::I(u)), Some(Cell::I(e))) = (r.remove(&group_col(0)), r.remove(COLUMN_EVENT)) else {
            return Err("a row without a user or an event".into());
        };
        let name = sut.w.md().events.get_by_id(sut.ids[p], e as u64).map_err(e2s)?.name;
        let props = rd.props(p, r)?;
        let Some(V::S(who)) = props.get("e:who").cloned() else { return Err(format!("row {name} without its mark")) };
        if name == EVENT_SESSION_BEGIN {
            *begins.entry((p, u)).or_default() += 1;
        } else {
            let props = props.into_iter().filter(|(k, _)| k.starts_with("e:")).collect();
            ensure!(seen.insert((p, format!("{name} {who}")), (u, props)).is_none(), "event {name} {who} stored twice");
        }
    }
    for w in &sut.m.rows {
        if w.event == EVENT_SESSION_BEGIN {
            continue;
        }
        let V::S(who) = &w.props["e:who"] else { continue };
        let (u, props) = seen.remove(&(w.project, format!("{} {who}", w.event))).ok_or(format!("event {} {who} is lost", w.event))?;
        let mine: BTreeMap<String, V> = w.props.iter().filter(|(k, _)| k.starts_with("e:")).map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure_eq!(props, mine, "values of event {} {who}", w.event);
        let l = w.groups[0].unwrap();
        let n = *number.entry((w.project, l)).or_insert(u);
        ensure_eq!(u, n, "number of user #{} at event {}", l, who);
    }
    let distinct: BTreeSet<(usize, i128)> = number.iter().map(|(k, v)| (k.0, *v)).collect();
    ensure_eq!(distinct.len(), number.len(), "users with numbers of their own");
    ensure!(begins.values().all(|n| *n == 1), "a user whose session began more than once: {begins:?}");
    ensure_eq!(begins.len(), number.len(), "users whose session began");
    // the newest record of a group has everything its callers said, each caller's last word
    for g in 0..GROUPS_COUNT {
        let mut newest: BTreeMap<(usize, i128), (i128, BTreeMap<String, Cell>)> = BTreeMap::new();
        let mut versions = BTreeSet::new();
        for mut r in table(&sut.w, &group_col(g))? {
            let p = rd.project(&mut r)?;
            let (Some(Cell::I(id)), Some(Cell::I(v))) = (r.remove(GROUP_COLUMN_ID), r.remove(GROUP_COLUMN_VERSION)) else {
                return Err("a record without id or version".into());
            };
            ensure!(versions.insert((p, v)), "group {g}: two records of version {v}");
            r.remove(GROUP_COLUMN_CREATED_AT);
            let x = newest.entry((p, id)).or_insert((v, r.clone()));
            if v > x.0 {
                *x = (v, r);
            }
        }
        for ((p, id), (_, r)) in newest {
            let key = sut.w.md().dictionaries.get_value(sut.ids[p], &group_col(g), GROUP_COLUMN_ID, id as u64).map_err(e2s)?;
            let got = rd.props(p, r)?;
            for (t, plan) in plans.iter().enumerate() {
                let gname = sut.m.ps[p].names.clone();
                let last = plan.iter().filter(|x| x.0 == p).filter_map(|x| x.2.as_ref()).rfind(|x| {
                    x.id == key && sut.w.md().groups.list_groups(sut.ids[p]).map(|l| l.data.iter().any(|n| n.name == x.group && n.id == g as u64)).unwrap_or(false)
                });
                let _ = &gname;
                if let Some(l) = last {
                    let k = format!("by{t}");
                    ensure_eq!(got.get(&format!("{g}:{k}")), l.props.get(&k), "the record of {key:?}: {k}");
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut p = Prop::new(&id);
    let root = p.scratch();
    let base = Mix { rich: false, track: 6, identify: 2, bad: 1, end: 1, reopen: 1 };
    let run = |p: &mut Prop, name: &str, rule: &str, q: u64, t: u64, mix: Mix, steps: usize| {
        p.suite(name, rule, q, t, |s, c| history(&root, s, c, &mix, steps));
    };
    match id.as_str() {
        "I01" => {
            run(&mut p, "tracked", "more than three events were stored", 500, 20000, base, 12);
            p.suite("clients", "several clients at once", 300, 12000, |s, c| concurrent(&root, s, c));
        }
        "I02" => run(&mut p, "identity", "more than three events were stored", 500, 20000, Mix { track: 12, identify: 2, bad: 0, ..base }, 20),
        "I03" => run(&mut p, "sessions", "sessions ended and began again", 400, 15000, Mix { end: 4, identify: 0, bad: 2, ..base }, 16),
        "I04" => run(&mut p, "refusals", "a request was refused", 500, 20000, Mix { bad: 9, end: 0, reopen: 0, ..base }, 16),
        "I05" => run(&mut p, "identify", "more than two identify calls", 500, 20000, Mix { identify: 7, track: 3, bad: 1, end: 0, ..base }, 14),
        "I06" => run(&mut p, "enrichment", "a session began", 500, 20000, Mix { rich: true, identify: 0, bad: 0, ..base }, 8),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    p.finish();
}
