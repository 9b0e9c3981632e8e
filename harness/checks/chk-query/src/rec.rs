//! Records and property values: what is stored, listed by plain filters over the rows.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use arrow::array::Array;
use common::query::{PropertyRef, QueryTime};
use common::types::SortDirection;
use common::types::{
    COLUMN_CREATED_AT, COLUMN_EVENT, COLUMN_EVENT_ID, COLUMN_IP, COLUMN_PROJECT_ID, GROUP_COLUMN_CREATED_AT,
    GROUP_COLUMN_ID, GROUP_COLUMN_PROJECT_ID, GROUP_COLUMN_VERSION,
};
use common::{group_col, GROUPS_COUNT};
use datafusion_common::ScalarValue;
use proputil::*;
use query::context::Format;
use query::event_records::{Event, EventRecordsProvider, EventRecordsSearchRequest};
use query::group_records::{GroupRecordsProvider, GroupRecordsSearchRequest};
use query::properties::{Filter, PropertiesProvider, PropertyValues};
use query::Context;
use storage::{NamedValue, Value};

use crate::fx::*;
use crate::req::*;
use crate::{gen_filters, gen_time, gen_used, NAMES};

pub fn ctx(p: &Project, cur: i64) -> Context {
    Context { project_id: p.id, format: Format::Regular, cur_time: dt(cur) }
}

/// What an event record holds under a property.
pub fn event_value(fx: &Fx, r: &Row, rf: &PropertyRef) -> Option<V> {
    let p = &fx.ps[r.project];
    Some(match rf {
        PropertyRef::Event(n) => match n.as_str() {
            COLUMN_PROJECT_ID => V::S(project_name(p.id)),
            COLUMN_CREATED_AT => V::T(r.ts),
            COLUMN_EVENT_ID => V::I(r.id),
            COLUMN_EVENT => V::S(p.events[r.event].0.clone()),
            COLUMN_IP => V::Null,
            n => match (0..GROUPS_COUNT).find(|g| group_col(*g) == n) {
                Some(g) => r.group(g).map(|id| V::S(group_name(g, id))).unwrap_or(V::Null),
                None => r.get(n),
            },
        },
        PropertyRef::Group(n, _) if NAMES.contains(&n.as_str()) => r.get(n),
        _ => return None,
    })
}

fn scalar_v(v: &ScalarValue) -> Result<V, String> {
    cell(&v.to_array().map_err(|e| e.to_string())?, 0)
}

pub fn gen_refs(s: &mut Src, p: &Project, used: &[&str]) -> Vec<PropertyRef> {
    s.vec(1, 5, |s| {
        if s.chance(1, 3) {
            PropertyRef::Event(s.pick(&[COLUMN_PROJECT_ID.to_string(), COLUMN_CREATED_AT.to_string(), COLUMN_EVENT_ID.to_string(), COLUMN_EVENT.to_string(), group_col(0), group_col(1)]).clone())
        } else {
            let n = *s.pick(used);
            p.prop(n).rf()
        }
    })
}

fn name(rf: &PropertyRef) -> String {
    match rf {
        PropertyRef::Event(n) | PropertyRef::Group(n, _) => n.clone(),
        o => format!("{o:?}"),
    }
}

// ---------------------------------------------------------------- events
#[derive(Clone, Debug)]
pub struct Search {
    pub project: usize,
    pub from: i64,
    pub to: i64,
    pub time: QueryTime,
    pub events: Vec<(Ev, Vec<F>)>,
    pub filters: Vec<F>,
    pub props: Option<Vec<PropertyRef>>,
}
impl Search {
    pub fn gen(s: &mut Src, p: &Project, project: usize, used: &[&str], t: &crate::When) -> Search {
        let evs = if s.bool() { s.us(1, 3) } else { 0 };
        let mut events = vec![];
        for _ in 0..evs {
            let e = Ev::gen(s, p);
            let fs = if s.chance(1, 3) { gen_filters(s, p, used, 2) } else { vec![] };
            events.push((e, fs));
        }
        Search {
            project,
            from: t.from,
            to: t.to,
            time: t.time.clone(),
            events,
            filters: if s.chance(1, 3) { gen_filters(s, p, used, 2) } else { vec![] },
            props: if s.chance(1, 3) { None } else { Some(gen_refs(s, p, used)) },
        }
    }
    pub fn to(&self, p: &Project) -> EventRecordsSearchRequest {
        let fs = |v: &Vec<F>| if v.is_empty() { None } else { Some(v.iter().map(|f| f.to(p)).collect()) };
        EventRecordsSearchRequest {
            time: self.time.clone(),
            events: if self.events.is_empty() {
                None
            } else {
                Some(self.events.iter().map(|(e, f)| Event { event: e.to(p), filters: fs(f) }).collect())
            },
            filters: fs(&self.filters),
            properties: self.props.clone(),
        }
    }
    pub fn rows<'a>(&self, fx: &'a Fx) -> Vec<&'a Row> {
        let p = &fx.ps[self.project];
        let ok = |fs: &Vec<F>, r: &Row| fs.iter().all(|f| f.holds(&r.get(&f.prop)));
        let mut v: Vec<&Row> = fx
            .rows
            .iter()
            .filter(|r| r.project == self.project && r.ts >= self.from && r.ts <= self.to)
            .filter(|r| self.events.is_empty() || self.events.iter().any(|(e, f)| e.holds(p, r) && ok(f, r)))
            .filter(|r| ok(&self.filters, r))
            .collect();
        v.sort_by_key(|r| std::cmp::Reverse(r.id));
        v.truncate(100);
        v
    }
}
/// Columns of an answer: the property, the name and the values.
pub type Cols = Vec<(PropertyRef, String, Vec<V>)>;
pub fn cols(t: &query::ColumnarDataTable) -> Result<Cols, String> {
    t.columns
        .iter()
        .map(|c| {
            let v = (0..c.data.len()).map(|i| cell(&c.data, i)).collect::<Result<Vec<_>, _>>()?;
            Ok((c.property.clone().ok_or("a column without a property")?, c.name.clone(), v))
        })
        .collect()
}
pub fn search(fx: &Fx, q: &Search, cur: i64) -> Result<Cols, String> {
    let p = &fx.ps[q.project];
    let prov = EventRecordsProvider::new(fx.w.md().clone(), fx.w.db());
    let t = guarded(|| rt().block_on(prov.search(ctx(p, cur), q.to(p))))?.map_err(|e| format!("search failed: {e}"))?;
    cols(&t)
}

pub fn world(root: &Path, s: &mut Src, t: &crate::When, used: &[&str]) -> Result<Fx, String> {
    let many = s.chance(1, 25);
    let sh = Shape {
        projects: s.us(1, 2),
        users: s.range(1, 8),
        rows: if many { s.us(100, 130) } else { s.us(1, 40) },
        span: t.span,
        churn: s.bool(),
        apart: false,
    };
    let mut fx = Fx::build(root, s, &sh, used)?;
    for i in 0..fx.ps.len() {
        gen_customs(s, &fx.w, &mut fx.ps[i], used)?;
    }
    Ok(fx)
}

fn check_cols(c: &Cols, n: usize, asked: &Option<Vec<PropertyRef>>, want: impl Fn(usize, &PropertyRef) -> Option<V>, all: &[PropertyRef]) -> R {
    let mut seen = BTreeSet::new();
    for (rf, nm, v) in c {
        ensure_eq!(v.len(), n, "rows in column {nm}");
        if let Some(first) = want(0, rf).filter(|_| n > 0) {
            let _ = first;
            ensure!(nm == &name(rf) || nm.starts_with(&format!("{} ", name(rf))), "column {nm} is said to be {rf:?}");
            let w: Vec<V> = (0..n).map(|i| want(i, rf).unwrap()).collect();
            ensure_eq!(*v, w, "column {nm}, {rf:?}");
        }
        ensure!(seen.insert(format!("{rf:?}")), "{rf:?} twice");
    }
    match asked {
        Some(a) => {
            let mut want: Vec<&PropertyRef> = vec![];
            for rf in a {
                if !want.contains(&rf) {
                    want.push(rf);
                }
            }
            // the id of the record may come first unasked
            let mut got: Vec<&PropertyRef> = c.iter().map(|c| &c.0).collect();
            if got.len() == want.len() + 1 {
                got.remove(0);
            }
            ensure_eq!(got, want, "properties of the columns");
        }
        None => {
            for rf in all {
                ensure!(c.iter().any(|c| c.0 == *rf), "no column for {rf:?} among {:?}", c.iter().map(|c| &c.0).collect::<Vec<_>>());
            }
        }
    }
    Ok(())
}

pub fn events_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 2, 6);
    let fx = world(root, s, &t, &used)?;
    let project = s.us(0, fx.ps.len() - 1);
    let p = &fx.ps[project];
    let q = Search::gen(s, p, project, &used, &t);
    c.note(format!("{q:?}"));
    c.note(format!("{:?}", p.customs));
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    let rows = q.rows(&fx);
    c.nontrivial(rows.len() > 1 && rows.len() < fx.rows.len());
    let got = search(&fx, &q, t.cur)?;
    let mut all: Vec<PropertyRef> = p.props.iter().map(|p| p.rf()).collect();
    all.extend([COLUMN_CREATED_AT, COLUMN_EVENT_ID, COLUMN_EVENT].map(|n| PropertyRef::Event(n.to_string())));
    check_cols(&got, rows.len(), &q.props, |i, rf| if rows.is_empty() { None } else { event_value(&fx, rows[i], rf) }, &all)
}

pub fn event_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 2, 16);
    let fx = world(root, s, &t, &used)?;
    let project = s.us(0, fx.ps.len() - 1);
    let p = &fx.ps[project];
    let id = s.range(1, fx.rows.len() as i64 + 1);
    c.note(format!("project {} id {id}", p.id));
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    let row = fx.rows.iter().find(|r| r.project == project && r.id == id);
    c.nontrivial(row.is_some());
    let prov = EventRecordsProvider::new(fx.w.md().clone(), fx.w.db());
    let got = guarded(|| rt().block_on(prov.get_by_id(ctx(p, t.cur), id as u64)))?;
    let Some(row) = row else {
        ensure!(got.is_err(), "event {id} of the project is no event of it, got {:?}", got.unwrap());
        return Ok(());
    };
    let got = got.map_err(|e| e.to_string())?;
    let mut m: BTreeMap<String, V> = BTreeMap::new();
    for pv in &got.properties {
        let v = scalar_v(&pv.value)?;
        if let Some(want) = event_value(&fx, row, &pv.property) {
            ensure_eq!(v, want, "{:?}", pv.property);
        }
        ensure!(m.insert(format!("{:?}", pv.property), v).is_none(), "{:?} twice", pv.property);
    }
    for spec in &p.props {
        ensure!(m.contains_key(&format!("{:?}", spec.rf())), "no {:?}", spec.rf());
    }
    Ok(())
}

// ---------------------------------------------------------------- groups
#[derive(Clone, Debug)]
pub struct GRow {
    pub project: usize,
    pub id: i64,
    pub version: i64,
    pub ts: i64,
    pub vals: BTreeMap<String, V>,
}

/// Writes a version of the record of a group, as an identify call does.
pub fn insert_group(fx: &Fx, g: usize, r: &GRow) -> R {
    let p = &fx.ps[r.project];
    let mut vals = vec![
        NamedValue::new(GROUP_COLUMN_PROJECT_ID.into(), Value::Int64(Some(p.id as i64))),
        NamedValue::new(GROUP_COLUMN_ID.into(), Value::Int64(Some(r.id))),
        NamedValue::new(GROUP_COLUMN_VERSION.into(), Value::Int64(Some(r.version))),
        NamedValue::new(GROUP_COLUMN_CREATED_AT.into(), Value::Timestamp(Some(r.ts))),
    ];
    for (n, v) in &r.vals {
        let spec = p.prop(n);
        vals.push(NamedValue::new(spec.col.clone(), stored(&fx.w, p.id, spec, v)?));
    }
    fx.w.md()
        .dictionaries
        .create_key(p.id, &group_col(g), GROUP_COLUMN_ID, r.id as u64, &group_name(g, r.id))
        .map_err(|e| e.to_string())?;
    fx.w.db().insert(&group_col(g), vals).map_err(|e| e.to_string())
}

pub fn group_value(p: &Project, g: usize, r: &GRow, rf: &PropertyRef) -> Option<V> {
    match rf {
        PropertyRef::Group(n, gg) if *gg == g => Some(match n.as_str() {
            GROUP_COLUMN_PROJECT_ID => V::S(project_name(p.id)),
            GROUP_COLUMN_ID => V::S(group_name(g, r.id)),
            GROUP_COLUMN_VERSION => V::I(r.version),
            GROUP_COLUMN_CREATED_AT => V::T(r.ts),
            n => r.vals.get(n).cloned().unwrap_or(V::Null),
        }),
        _ => None,
    }
}

pub struct Groups {
    pub fx: Fx,
    pub g: usize,
    pub rows: Vec<GRow>,
    pub used: Vec<String>,
}
pub fn group_world(root: &Path, s: &mut Src, t: &crate::When) -> Result<Groups, String> {
    let g = s.us(0, 1);
    let sh = Shape { projects: s.us(1, 2), users: 2, rows: 0, span: 1, churn: false, apart: false };
    let fx = Fx::build(root, s, &sh, &[])?;
    let used: Vec<String> = fx.ps[0].props.iter().filter(|p| p.group == Some(g)).map(|p| p.name.clone()).collect();
    let mut rows: Vec<GRow> = vec![];
    let most = if s.chance(1, 20) { 130 } else { 12 };
    let ids = s.range(1, most);
    let n = s.us(1, if ids > 20 { 200 } else { 30 });
    for version in 0..n {
        let project = s.below(fx.ps.len() as u64) as usize;
        let mut vals = BTreeMap::new();
        for u in &used {
            let v = value(s, fx.ps[project].prop(u));
            if v != V::Null || s.bool() {
                vals.insert(u.clone(), v);
            }
        }
        let r = GRow { project, id: s.range(1, ids), version: version as i64 + 1, ts: ts(s, t.span), vals };
        insert_group(&fx, g, &r)?;
        rows.retain(|o| o.project != project || o.id != r.id);
        rows.push(r);
    }
    // one part or the memory: see the finding about merging
    if s.chance(1, 3) {
        fx.w.db().flush(&group_col(g)).map_err(|e| e.to_string())?;
    }
    Ok(Groups { fx, g, rows, used })
}

pub fn groups_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let w = group_world(root, s, &t)?;
    let (fx, g) = (&w.fx, w.g);
    let used: Vec<&str> = w.used.iter().map(|u| u.as_str()).collect();
    let project = s.us(0, fx.ps.len() - 1);
    let p = &fx.ps[project];
    let timed = s.chance(2, 3);
    let filters = if s.bool() { gen_filters(s, p, &used, 2) } else { vec![] };
    let sys = [GROUP_COLUMN_ID, GROUP_COLUMN_CREATED_AT, GROUP_COLUMN_VERSION, GROUP_COLUMN_PROJECT_ID];
    let any = |s: &mut Src| {
        let n = if s.bool() { s.pick(&sys).to_string() } else { s.pick(&used).to_string() };
        PropertyRef::Group(n, g)
    };
    let props = if s.chance(1, 3) { None } else { Some(s.vec(1, 4, |s| any(s))) };
    let sort = if s.bool() { None } else { Some((PropertyRef::Group(s.pick(&[GROUP_COLUMN_VERSION, GROUP_COLUMN_CREATED_AT, GROUP_COLUMN_ID, used[0]]).to_string(), g), if s.bool() { SortDirection::Asc } else { SortDirection::Desc })) };
    let req = GroupRecordsSearchRequest {
        time: if timed { Some(t.time.clone()) } else { None },
        group_id: g,
        filters: if filters.is_empty() { None } else { Some(filters.iter().map(|f| f.to(p)).collect()) },
        properties: props.clone(),
        sort: sort.clone(),
    };
    c.note(format!("project {} {req:?}", p.id));
    for r in &w.rows {
        c.note(format!("{r:?}"));
    }
    let mut rows: Vec<&GRow> = w
        .rows
        .iter()
        .filter(|r| r.project == project && (!timed || (r.ts >= t.from && r.ts <= t.to)))
        .filter(|r| filters.iter().all(|f| f.holds(r.vals.get(&f.prop).unwrap_or(&V::Null))))
        .collect();
    let total = rows.len();
    c.nontrivial(total > 1 && total < w.rows.len());
    let prov = GroupRecordsProvider::new(fx.w.md().clone(), fx.w.db());
    let got = guarded(|| rt().block_on(prov.search(ctx(p, t.cur), req)))?.map_err(|e| format!("search failed: {e}"))?;
    let got = cols(&got)?;
    let _ = &mut rows;
    let n = got.first().map(|c| c.2.len()).unwrap_or(0);
    ensure_eq!(n, total.min(100), "records");
    // the order of the answer among the rows: by the sort, by what is shown otherwise
    let show = |r: &GRow| -> Vec<V> { got.iter().map(|c| group_value(p, g, r, &c.0).unwrap_or(V::Null)).collect() };
    let answer: Vec<Vec<V>> = (0..n).map(|i| got.iter().map(|c| if group_value(p, g, &w.rows[0], &c.0).is_some() { c.2[i].clone() } else { V::Null }).collect()).collect();
    let mut left: Vec<&GRow> = rows.clone();
    for a in &answer {
        match left.iter().position(|r| show(r) == *a) {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("{a:?} of {:?} is no record of {rows:?}", got.iter().map(|c| &c.0).collect::<Vec<_>>())),
        }
    }
    if let Some((rf, dir)) = &sort {
        if let Some(c) = got.iter().find(|c| c.0 == *rf) {
            if !matches!(c.2.first(), Some(V::S(_))) {
                let v: Vec<&V> = c.2.iter().filter(|v| **v != V::Null).collect();
                for w in v.windows(2) {
                    let ok = if *dir == SortDirection::Asc { w[0] <= w[1] } else { w[0] >= w[1] };
                    ensure!(ok, "{} sorted {dir:?} has {:?} before {:?}", c.1, w[0], w[1]);
                }
            }
        }
        if total > 100 {
            if *rf == PropertyRef::Group(GROUP_COLUMN_VERSION.into(), g) {
                let mut vs: Vec<i64> = rows.iter().map(|r| r.version).collect();
                vs.sort();
                if *dir == SortDirection::Desc {
                    vs.reverse();
                }
                vs.truncate(100);
                for r in left {
                    ensure!(!vs.contains(&r.version), "{r:?} is among the first 100 and left out");
                }
            }
        }
    }
    // all that is asked for is there
    let n = got.first().map(|c| c.2.len()).unwrap_or(0);
    let all: Vec<PropertyRef> = w.used.iter().map(|n| PropertyRef::Group(n.clone(), g)).collect();
    check_cols(&got, n, &props, |_, _| None, &all)
}

pub fn group_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let w = group_world(root, s, &t)?;
    let (fx, g) = (&w.fx, w.g);
    let project = s.us(0, fx.ps.len() - 1);
    let p = &fx.ps[project];
    let id = s.range(1, 13);
    c.note(format!("project {} group {g} id {id}", p.id));
    for r in &w.rows {
        c.note(format!("{r:?}"));
    }
    let row = w.rows.iter().find(|r| r.project == project && r.id == id);
    c.nontrivial(row.is_some());
    let prov = GroupRecordsProvider::new(fx.w.md().clone(), fx.w.db());
    let got = guarded(|| rt().block_on(prov.get_by_id(ctx(p, t.cur), g, group_name(g, id))))?;
    let Some(row) = row else {
        ensure!(got.is_err(), "group record {id} doesn't exist, got {:?}", got.unwrap());
        return Ok(());
    };
    let got = got.map_err(|e| e.to_string())?;
    let mut seen = vec![];
    for pv in &got.properties {
        if let Some(want) = group_value(p, g, row, &pv.property) {
            ensure_eq!(scalar_v(&pv.value)?, want, "{:?}", pv.property);
            seen.push(name(&pv.property));
        }
    }
    for n in w.used.iter().map(|n| n.as_str()).chain([GROUP_COLUMN_ID, GROUP_COLUMN_VERSION, GROUP_COLUMN_CREATED_AT]) {
        ensure!(seen.iter().any(|s| s == n), "no {n} among {seen:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- values
pub fn values(fx: &Fx, project: usize, req: PropertyValues, cur: i64) -> Result<Vec<V>, String> {
    let prov = PropertiesProvider::new(fx.w.md().clone(), fx.w.db());
    let a = guarded(|| rt().block_on(prov.values(ctx(&fx.ps[project], cur), req)))?.map_err(|e| format!("query failed: {e}"))?;
    (0..a.len()).map(|i| cell(&a, i)).collect()
}

pub fn gen_values(s: &mut Src, p: &Project, used: &[&str]) -> (PropertyValues, String, Option<Ev>, Option<F>) {
    let n = s.pick(used).to_string();
    let ev = if s.bool() { Some(Ev::gen(s, p)) } else { None };
    // custom events may filter by columns that aren't read
    let ev = ev.filter(|e| !matches!(e, Ev::Custom(_)) || s.bool());
    let f = if s.bool() { Some(F::gen(s, p.prop(&n))) } else { None };
    let req = PropertyValues {
        property: p.prop(&n).rf(),
        event: ev.as_ref().map(|e| e.to(p)),
        filter: f.as_ref().map(|f| {
            let common::query::PropValueFilter::Property { operation, value, .. } = f.to(p);
            Filter { operation, value }
        }),
    };
    (req, n, ev, f)
}

pub fn values_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 1, 4);
    let fx = world(root, s, &t, &used)?;
    let project = s.us(0, fx.ps.len() - 1);
    let p = &fx.ps[project];
    let (req, n, ev, f) = gen_values(s, p, &used);
    c.note(format!("project {} {req:?} {:?}", p.id, p.customs));
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    let want: BTreeSet<V> = fx
        .rows
        .iter()
        .filter(|r| r.project == project && ev.as_ref().map(|e| e.holds(p, r)).unwrap_or(true))
        .map(|r| r.get(&n))
        .filter(|v| f.as_ref().map(|f| f.holds(v)).unwrap_or(true))
        .collect();
    c.nontrivial(want.len() > 1);
    let got = values(&fx, project, req, t.cur)?;
    let mut sorted = got.clone();
    sorted.sort();
    // without a value comes last
    if sorted.first() == Some(&V::Null) {
        sorted.rotate_left(1);
    }
    ensure_eq!(got, sorted, "order of the values");
    ensure_eq!(got.into_iter().collect::<BTreeSet<_>>(), want, "values");
    ensure_eq!(sorted.len(), want.len(), "values, each once");
    Ok(())
}

/// Three records, in two parts of which one covers the other.
pub fn parts_witness(root: &Path) -> R {
    let w = crate::world::World::new(root)?;
    let p = project(&w, 1)?;
    let fx = Fx { w, ps: vec![p], rows: vec![] };
    let mut rows = vec![];
    for (version, id) in [(1, 1), (2, 3), (3, 2)] {
        let r = GRow { project: 0, id, version, ts: T0, vals: BTreeMap::new() };
        insert_group(&fx, 0, &r)?;
        if version > 1 {
            fx.w.db().flush(&group_col(0)).map_err(|e| e.to_string())?;
        }
        rows.push(r);
    }
    let req = GroupRecordsSearchRequest {
        time: None,
        group_id: 0,
        filters: None,
        properties: Some(vec![PropertyRef::Group(GROUP_COLUMN_ID.into(), 0), PropertyRef::Group(GROUP_COLUMN_VERSION.into(), 0)]),
        sort: Some((PropertyRef::Group(GROUP_COLUMN_VERSION.into(), 0), SortDirection::Asc)),
    };
    let prov = GroupRecordsProvider::new(fx.w.md().clone(), fx.w.db());
    let got = guarded(|| rt().block_on(prov.search(ctx(&fx.ps[0], T0), req)))?.map_err(|e| format!("search failed: {e}"))?;
    let got = cols(&got)?;
    ensure_eq!(got[1].2, vec![V::I(1), V::I(2), V::I(3)], "versions");
    ensure_eq!(got[0].2, [1, 3, 2].map(|i| V::S(group_name(0, i))).to_vec(), "records");
    Ok(())
}
