//! A project with events, properties of every type and rows, written through the storage API, and the
//! plain-data copy the reference answers are computed from.
use std::collections::BTreeMap;
use std::path::Path;

use common::query::PropertyRef;
use common::types::{
    DType, COLUMN_CREATED_AT, COLUMN_EVENT, COLUMN_EVENT_ID, COLUMN_IP, COLUMN_PROJECT_ID, GROUP_COLUMN_CREATED_AT,
    GROUP_COLUMN_ID, GROUP_COLUMN_PROJECT_ID, GROUP_COLUMN_VERSION, TABLE_EVENTS,
};
use common::{group_col, DECIMAL_SCALE, GROUPS_COUNT};
use metadata::properties::{DictionaryType, Type};
use metadata::util::{create_event, create_property, CreatePropertyMainRequest};
use proputil::*;
use storage::{NamedValue, Value};

use crate::world::World;

pub const DEC: i128 = 10i128.pow(DECIMAL_SCALE as u32);
pub const HOUR: i64 = 3_600_000;
pub const DAY: i64 = 24 * HOUR;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Null,
    S(String),
    I(i64),
    /// a decimal's digits, scale 16
    D(i128),
    B(bool),
    T(i64),
}

#[derive(Clone, Debug)]
pub struct PropSpec {
    pub name: String,
    pub group: Option<usize>,
    pub dt: DType,
    pub dict: Option<DictionaryType>,
    pub col: String,
}
impl PropSpec {
    pub fn rf(&self) -> PropertyRef {
        match self.group {
            None => PropertyRef::Event(self.name.clone()),
            Some(g) => PropertyRef::Group(self.name.clone(), g),
        }
    }
    /// the table its dictionary belongs to
    pub fn table(&self) -> String {
        match self.group {
            None => TABLE_EVENTS.to_string(),
            Some(g) => group_col(g),
        }
    }
    pub fn is_str(&self) -> bool {
        self.dt == DType::String
    }
    pub fn is_int(&self) -> bool {
        matches!(self.dt, DType::Int8 | DType::Int16 | DType::Int32 | DType::Int64)
    }
}

pub struct Project {
    pub id: u64,
    pub events: Vec<(String, u64)>,
    pub props: Vec<PropSpec>,
    pub customs: Vec<crate::req::CustomEv>,
}
impl Project {
    pub fn prop(&self, name: &str) -> &PropSpec {
        self.props.iter().find(|p| p.name == name).unwrap()
    }
    pub fn pick<'a>(&'a self, s: &mut Src, f: impl Fn(&PropSpec) -> bool) -> &'a PropSpec {
        let v: Vec<&PropSpec> = self.props.iter().filter(|p| f(p)).collect();
        v[s.below(v.len() as u64) as usize]
    }
}

#[derive(Clone, Debug)]
pub struct Row {
    pub project: usize,
    pub user: i64,
    /// the record of group 1, when the event names one
    pub company: Option<i64>,
    pub ts: i64,
    pub event: usize,
    pub id: i64,
    /// value per property name; absent is null
    pub vals: BTreeMap<String, V>,
}
impl Row {
    pub fn get(&self, p: &str) -> V {
        self.vals.get(p).cloned().unwrap_or(V::Null)
    }
    pub fn group(&self, g: usize) -> Option<i64> {
        match g {
            0 => Some(self.user),
            1 => self.company,
            _ => None,
        }
    }
}

pub fn project_name(id: u64) -> String {
    format!("project {id}")
}
pub fn group_name(g: usize, id: i64) -> String {
    format!("g{g}-{id}")
}

pub const EVENTS: [&str; 4] = ["alpha", "beta", "gamma", "delta"];

fn system(w: &World, pid: u64) -> Result<(), String> {
    let mut mk = |name: String, typ: Type, dt: DType, nullable: bool, dict: Option<DictionaryType>| {
        create_property(w.md(), pid, CreatePropertyMainRequest {
            name,
            display_name: None,
            typ,
            data_type: dt,
            nullable,
            hidden: false,
            dict,
            is_system: true,
        })
        .map_err(|e| e.to_string())
        .map(|_| ())
    };
    let d = || Some(DictionaryType::Int64);
    mk(COLUMN_PROJECT_ID.into(), Type::Event, DType::String, false, d())?;
    for g in 0..GROUPS_COUNT {
        mk(group_col(g), Type::Event, DType::String, true, d())?;
    }
    mk(COLUMN_CREATED_AT.into(), Type::Event, DType::Timestamp, false, None)?;
    mk(COLUMN_EVENT_ID.into(), Type::Event, DType::Int64, false, None)?;
    mk(COLUMN_EVENT.into(), Type::Event, DType::String, false, d())?;
    mk(COLUMN_IP.into(), Type::Event, DType::String, true, None)?;
    for g in 0..GROUPS_COUNT {
        mk(GROUP_COLUMN_PROJECT_ID.into(), Type::Group(g), DType::String, true, d())?;
        mk(GROUP_COLUMN_ID.into(), Type::Group(g), DType::String, true, d())?;
        mk(GROUP_COLUMN_VERSION.into(), Type::Group(g), DType::Int64, true, None)?;
        mk(GROUP_COLUMN_CREATED_AT.into(), Type::Group(g), DType::Timestamp, true, None)?;
    }
    let dict = |t: &str| {
        w.md().dictionaries.create_key(pid, t, COLUMN_PROJECT_ID, pid, &project_name(pid)).map_err(|e| e.to_string())
    };
    dict(TABLE_EVENTS)?;
    for g in 0..GROUPS_COUNT {
        dict(&group_col(g))?;
    }
    Ok(())
}

pub fn specs() -> Vec<(&'static str, Option<usize>, DType, Option<DictionaryType>)> {
    use DictionaryType as D;
    vec![
        ("country", None, DType::String, Some(D::Int64)),
        ("tier", None, DType::String, Some(D::Int8)),
        ("city", None, DType::String, Some(D::Int16)),
        ("brand", None, DType::String, Some(D::Int32)),
        ("label", None, DType::String, None),
        ("amount", None, DType::Decimal, None),
        ("cost", None, DType::Decimal, None),
        ("paid", None, DType::Boolean, None),
        ("when", None, DType::Timestamp, None),
        ("n8", None, DType::Int8, None),
        ("n16", None, DType::Int16, None),
        ("n32", None, DType::Int32, None),
        ("n64", None, DType::Int64, None),
        ("plan", Some(0), DType::String, Some(D::Int64)),
        ("age", Some(0), DType::Decimal, None),
        ("sector", Some(1), DType::String, Some(D::Int64)),
    ]
}

pub fn project(w: &World, id: u64) -> Result<Project, String> {
    system(w, id)?;
    // each project lists its properties and events in an order of its own, so
    // that numbers and columns of one mean something else in the other (columns
    // of one type only: M06's finding about columns of two types)
    let mut order = specs();
    let mut names: Vec<usize> = (0..EVENTS.len()).collect();
    match id % 10 {
        1 if id > 10 => {
            order.swap(5, 6);
            order.insert(0, ("spare", None, DType::Boolean, None));
            order.insert(0, ("spare of users", Some(0), DType::Decimal, None));
            names.reverse();
        }
        2 => {
            order.insert(3, ("spare", None, DType::Boolean, None));
            names.rotate_left(1);
        }
        _ => {}
    }
    let mut props = vec![];
    for (name, group, dt, dict) in order {
        let p = create_property(w.md(), id, CreatePropertyMainRequest {
            name: name.to_string(),
            display_name: None,
            typ: group.map(Type::Group).unwrap_or(Type::Event),
            data_type: dt.clone(),
            nullable: true,
            hidden: false,
            dict: dict.clone(),
            is_system: false,
        })
        .map_err(|e| format!("property {name}: {e}"))?;
        props.push(PropSpec { name: name.to_string(), group, dt, dict, col: p.column_name() });
    }
    props.sort_by_key(|p| specs().iter().position(|x| x.0 == p.name));
    let mut events: Vec<(usize, u64)> = vec![];
    for i in names {
        let ev = create_event(w.md(), id, EVENTS[i].to_string()).map_err(|e| e.to_string())?;
        events.push((i, ev.id));
    }
    events.sort();
    let events = events.into_iter().map(|(i, id)| (EVENTS[i].to_string(), id)).collect();
    Ok(Project { id, events, props, customs: vec![] })
}

/// The value as the ingester stores it.
pub fn stored(w: &World, pid: u64, p: &PropSpec, v: &V) -> Result<Value, String> {
    Ok(match (v, &p.dict) {
        (V::Null, Some(d)) => match d {
            DictionaryType::Int8 => Value::Int8(None),
            DictionaryType::Int16 => Value::Int16(None),
            DictionaryType::Int32 => Value::Int32(None),
            DictionaryType::Int64 => Value::Int64(None),
        },
        (V::Null, None) => match p.dt {
            DType::String => Value::String(None),
            DType::Decimal => Value::Decimal(None),
            DType::Boolean => Value::Boolean(None),
            DType::Timestamp => Value::Timestamp(None),
            DType::Int8 => Value::Int8(None),
            DType::Int16 => Value::Int16(None),
            DType::Int32 => Value::Int32(None),
            _ => Value::Int64(None),
        },
        (V::S(s), Some(d)) => {
            let k = w
                .md()
                .dictionaries
                .get_key_or_create(pid, &p.table(), &p.col, s)
                .map_err(|e| e.to_string())?;
            match d {
                DictionaryType::Int8 => Value::Int8(Some(k as i8)),
                DictionaryType::Int16 => Value::Int16(Some(k as i16)),
                DictionaryType::Int32 => Value::Int32(Some(k as i32)),
                DictionaryType::Int64 => Value::Int64(Some(k as i64)),
            }
        }
        (V::S(s), None) => Value::String(Some(s.clone())),
        (V::D(d), _) => Value::Decimal(Some(*d)),
        (V::B(b), _) => Value::Boolean(Some(*b)),
        (V::T(t), _) => Value::Timestamp(Some(*t)),
        (V::I(i), _) => match p.dt {
            DType::Int8 => Value::Int8(Some(*i as i8)),
            DType::Int16 => Value::Int16(Some(*i as i16)),
            DType::Int32 => Value::Int32(Some(*i as i32)),
            _ => Value::Int64(Some(*i)),
        },
    })
}

pub fn insert(w: &World, p: &Project, r: &Row) -> R {
    let mut vals = vec![
        NamedValue::new(COLUMN_PROJECT_ID.into(), Value::Int64(Some(p.id as i64))),
        NamedValue::new(group_col(0), Value::Int64(Some(r.user))),
        NamedValue::new(COLUMN_CREATED_AT.into(), Value::Timestamp(Some(r.ts))),
        NamedValue::new(COLUMN_EVENT_ID.into(), Value::Int64(Some(r.id))),
        NamedValue::new(COLUMN_EVENT.into(), Value::Int64(Some(p.events[r.event].1 as i64))),
    ];
    if let Some(c) = r.company {
        vals.push(NamedValue::new(group_col(1), Value::Int64(Some(c))));
    }
    for (name, v) in &r.vals {
        let spec = p.prop(name);
        vals.push(NamedValue::new(spec.col.clone(), stored(w, p.id, spec, v)?));
    }
    for g in 0..2 {
        if let Some(id) = r.group(g) {
            w.md()
                .dictionaries
                .create_key(p.id, TABLE_EVENTS, &group_col(g), id as u64, &group_name(g, id))
                .map_err(|e| e.to_string())?;
        }
    }
    w.db().insert(TABLE_EVENTS, vals).map_err(|e| e.to_string())
}

thread_local! {
    /// most decimals of the case are large ones
    pub static BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// hardly any decimal of the case occurs twice
    pub static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Values come from few enough per property for groups, equalities and ties to occur.
pub fn value(s: &mut Src, p: &PropSpec) -> V {
    if s.chance(1, 6) {
        return V::Null;
    }
    match p.dt {
        DType::String => V::S(s.pick(&["es", "fr", "es ", "ES", "", "naïve ☃", "a%b", "a_b", "espana"]).to_string()),
        DType::Decimal => V::D(match s.weighted(if BIG.with(|b| b.get()) { &[1, 0, 1, 8] } else if WIDE.with(|b| b.get()) { &[1, 0, 40, 0] } else { &[8, 4, 2, 1] }) {
            0 => s.range(-20, 20) as i128 * DEC,
            1 => s.range(-400, 400) as i128 * (DEC / 100),
            2 => s.range(-1_000_000, 1_000_000) as i128 * DEC + s.range(0, 9_999) as i128,
            // next to what a decimal of a row can be
            _ => (1_000_000_000_000 - s.range(1, 3) as i128) * if s.chance(1, 8) { -DEC } else { DEC },
        }),
        DType::Boolean => V::B(s.bool()),
        DType::Timestamp => V::T(T0 + s.range(-3, 3) * HOUR),
        DType::Int8 => V::I(s.range(-120, 120)),
        DType::Int16 => V::I(s.range(-300, 300)),
        _ => V::I(s.range(-20, 20) * if s.chance(1, 4) { 1_000_003 } else { 1 }),
    }
}

/// Thursday 2026-01-01T00:00:00Z: the boundary of an hour, a day, a month and a year.
pub const T0: i64 = 1_767_225_600_000;

pub fn ts(s: &mut Src, span: i64) -> i64 {
    let base = T0 + s.range(-span, span) * *s.pick(&[HOUR, DAY]);
    match s.weighted(&[4, 2, 1, 1]) {
        0 => base + s.range(0, HOUR - 1),
        1 => base,
        2 => base - 1,
        _ => base + 1,
    }
}

pub struct Fx {
    pub w: World,
    pub ps: Vec<Project>,
    pub rows: Vec<Row>,
}
pub struct Shape {
    pub projects: usize,
    pub users: i64,
    pub rows: usize,
    pub span: i64,
    /// flush and compact between the inserts
    pub churn: bool,
    /// no two rows at the same time
    pub apart: bool,
}

impl Fx {
    pub fn build(root: &Path, s: &mut Src, sh: &Shape, used: &[&str]) -> Result<Fx, String> {
        let w = World::new(root)?;
        let ids: [u64; 3] = [1, 11, 2];
        let mut ps = vec![];
        for id in ids.iter().take(sh.projects) {
            ps.push(project(&w, *id)?);
        }
        let mut rows = vec![];
        for id in 0..sh.rows {
            let project = if sh.projects > 1 { s.below(sh.projects as u64) as usize } else { 0 };
            let p = &ps[project];
            let mut vals = BTreeMap::new();
            for name in used {
                let v = value(s, p.prop(name));
                if v != V::Null || s.bool() {
                    vals.insert(name.to_string(), v);
                }
            }
            let user = s.range(1, sh.users);
            let company = if s.chance(1, 5) { None } else { Some(s.range(1, 3)) };
            let mut ts = ts(s, sh.span);
            while sh.apart && rows.iter().any(|r: &Row| r.ts == ts) {
                ts += 1;
            }
            let r = Row { project, user, company, ts, event: s.weighted(&[4, 3, 2]), id: id as i64 + 1, vals };
            insert(&w, p, &r)?;
            rows.push(r);
            if sh.churn && s.chance(1, 12) {
                w.db().flush(TABLE_EVENTS).map_err(|e| e.to_string())?;
            }
        }
        if sh.churn && s.bool() {
            w.compact();
        }
        Ok(Fx { w, ps, rows })
    }
}
