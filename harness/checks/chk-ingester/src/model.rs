//! Reference model of ingestion: what each request must store.
use std::collections::{BTreeMap, BTreeSet};

use common::GROUPS_COUNT;
use proputil::*;
use serde_json::{json, Value as J};

pub const SCALE: i128 = 10_000_000_000_000_000;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    S(String),
    N(i128),
    B(bool),
    T(i64),
}
impl V {
    pub fn json(&self) -> J {
        match self {
            V::S(s) => json!(s),
            V::B(b) => json!(b),
            V::T(t) => json!(rfc(*t, 0)),
            V::N(n) => {
                let (neg, a) = (*n < 0, n.unsigned_abs());
                let (i, f) = (a / SCALE as u128, a % SCALE as u128);
                let mut t = format!("{}{i}", if neg { "-" } else { "" });
                if f > 0 {
                    t = format!("{t}.{}", format!("{f:016}").trim_end_matches('0'));
                }
                serde_json::from_str(&t).unwrap()
            }
        }
    }
}
/// A moment as RFC 3339 text with an offset of `off` minutes.
pub fn rfc(ms: i64, off: i32) -> String {
    let t = chrono::DateTime::from_timestamp_millis(ms).unwrap();
    t.with_timezone(&chrono::FixedOffset::east_opt(off * 60).unwrap())
        .to_rfc3339_opts(chrono::SecondsFormat::Millis, off == 0)
}

#[derive(Clone, Debug, Default)]
pub struct Track {
    pub user: Option<String>,
    pub anon: Option<String>,
    pub ts: Option<(i64, i32)>,
    pub event: String,
    pub props: BTreeMap<String, V>,
    pub groups: BTreeMap<String, String>,
    pub ua: Option<Vec<(String, String)>>,
    pub ip: Option<String>,
    pub client: String,
    pub utm: Option<[Option<String>; 5]>,
    pub bare: bool,
}
fn put<T: Into<J>>(o: &mut J, k: &str, v: Option<T>) {
    if let Some(v) = v {
        o[k] = v.into();
    }
}
pub fn props_json(p: &BTreeMap<String, V>) -> J {
    J::Object(p.iter().map(|(k, v)| (k.clone(), v.json())).collect())
}
impl Track {
    pub fn json(&self) -> J {
        let mut ctx = json!({});
        put(&mut ctx, "ip", self.ip.clone());
        put(
            &mut ctx,
            "userAgent",
            self.ua.as_ref().map(|u| u.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";")),
        );
        if let Some(u) = &self.utm {
            let mut c = json!({});
            for (k, v) in ["source", "medium", "campaign", "term", "content"].iter().zip(u) {
                put(&mut c, k, v.clone());
            }
            ctx["campaign"] = c;
        }
        if !self.bare {
            ctx["page"] = json!({"path": "/p", "title": "t", "url": "http://x/p"});
            ctx["library"] = json!({"name": "js", "version": "1"});
        }
        let mut o = json!({"context": ctx, "event": self.event});
        put(&mut o, "userId", self.user.clone());
        put(&mut o, "anonymousId", self.anon.clone());
        put(&mut o, "timestamp", self.ts.map(|(t, off)| rfc(t, off)));
        if !(self.bare && self.props.is_empty()) {
            o["properties"] = props_json(&self.props);
        }
        if !(self.bare && self.groups.is_empty()) {
            o["groups"] = json!(self.groups);
        }
        o
    }
}
#[derive(Clone, Debug)]
pub struct Identify {
    pub group: String,
    pub id: String,
    pub ts: Option<(i64, i32)>,
    pub props: BTreeMap<String, V>,
    pub bare: bool,
    pub client: String,
}
impl Identify {
    pub fn json(&self) -> J {
        let mut o = json!({"context": {}, "group": self.group, "id": self.id});
        put(&mut o, "timestamp", self.ts.map(|(t, off)| rfc(t, off)));
        if !(self.bare && self.props.is_empty()) {
            o["properties"] = props_json(&self.props);
        }
        o
    }
}

/// A stored event; `who` and `groups` are labels, the store picks the numbers.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Row {
    pub project: usize,
    pub groups: Vec<Option<usize>>,
    pub event: String,
    /// exact, or the window in which the request was served
    pub at: (i64, i64),
    pub props: BTreeMap<String, V>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GRow {
    pub project: usize,
    pub group: usize,
    pub id: usize,
    pub at: (i64, i64),
    pub props: BTreeMap<String, V>,
}
#[derive(Clone, Debug, Default)]
pub struct Ids {
    pub real: BTreeMap<String, usize>,
    pub anon: BTreeMap<String, usize>,
    pub n: usize,
}
impl Ids {
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    fn real(&mut self, k: &str) -> usize {
        match self.real.get(k) {
            Some(x) => *x,
            None => {
                let x = self.fresh();
                self.real.insert(k.into(), x);
                x
            }
        }
    }
    fn anon(&mut self, k: &str) -> usize {
        match self.anon.get(k) {
            Some(x) => *x,
            None => {
                let x = self.fresh();
                self.anon.insert(k.into(), x);
                x
            }
        }
    }
    fn both(&mut self, u: &str, a: &str) -> usize {
        match self.real.get(u) {
            Some(x) => *x,
            None => {
                let x = self.anon(a);
                self.real.insert(u.into(), x);
                x
            }
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Proj {
    pub ids: Vec<Ids>,
    /// group names by number; "user" is 0
    pub names: Vec<String>,
    pub values: BTreeMap<(usize, String), BTreeMap<String, V>>,
    pub sessions: BTreeSet<usize>,
    pub events: BTreeMap<String, BTreeSet<String>>,
    pub eprops: BTreeMap<String, char>,
    pub gprops: BTreeMap<(usize, String), char>,
    pub accepted: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub ps: Vec<Proj>,
    pub rows: Vec<Row>,
    pub grows: Vec<GRow>,
    pub geo: BTreeMap<String, (String, String)>,
}
pub fn kind(v: &V) -> char {
    match v {
        V::S(_) => 's',
        V::N(_) => 'n',
        V::B(_) => 'b',
        V::T(_) => 't',
    }
}
impl Model {
    pub fn new(n: usize) -> Model {
        let p = Proj { ids: vec![Ids::default(); GROUPS_COUNT], names: vec!["user".into()], ..Proj::default() };
        Model { ps: vec![p; n], ..Model::default() }
    }
    /// The number of a group, unless there are too many.
    pub fn group(&mut self, p: usize, name: &str) -> Option<usize> {
        let names = &mut self.ps[p].names;
        if let Some(i) = names.iter().position(|n| n == name) {
            return Some(i);
        }
        if names.len() == GROUPS_COUNT {
            return None;
        }
        names.push(name.into());
        Some(names.len() - 1)
    }
    /// What an accepted track request stores; `begun` tells whether a session began with it.
    pub fn track(&mut self, p: usize, t: &Track, at: (i64, i64)) -> bool {
        let gs: Vec<(usize, String)> =
            t.groups.iter().map(|(n, k)| (self.group(p, n).unwrap(), k.clone())).collect();
        let geo = self.geo.get(t.ip.as_ref().unwrap_or(&t.client)).cloned();
        let q = &mut self.ps[p];
        let mut groups = vec![None; GROUPS_COUNT];
        let who = match (&t.user, &t.anon) {
            (Some(u), Some(a)) => q.ids[0].both(u, a),
            (Some(u), None) => q.ids[0].real(u),
            (None, Some(a)) => q.ids[0].anon(a),
            (None, None) => unreachable!(),
        };
        groups[0] = Some(who);
        let mut props = BTreeMap::new();
        let mut attach = |q: &Proj, g: usize, k: &str| {
            for (n, v) in q.values.get(&(g, k.to_string())).into_iter().flatten() {
                props.insert(format!("{g}:{n}"), v.clone());
            }
        };
        if let Some(u) = &t.user {
            attach(q, 0, u);
        }
        for (g, k) in &gs {
            groups[*g] = Some(q.ids[*g].real(k));
            attach(q, *g, k);
        }
        let attached = q.events.entry(t.event.clone()).or_default();
        for (n, v) in &t.props {
            q.eprops.insert(n.clone(), kind(v));
            attached.insert(n.clone());
            props.insert(format!("e:{n}"), v.clone());
        }
        let mut add = |n: &str, v: String| {
            props.entry(format!("e:{n}")).or_insert(V::S(v));
        };
        if let Some((country, city)) = geo {
            for (n, v) in [("Country", country), ("City", city)] {
                if !v.is_empty() {
                    add(n, v);
                }
            }
        }
        if let Some(ua) = &t.ua {
            let m: BTreeMap<&str, &str> = ua.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            let fam = |k: &str| m.get(k).unwrap_or(&"Other").to_string();
            add("Client Family", fam("uf"));
            add("Device Family", fam("df"));
            add("OS", fam("of"));
            let mut os = fam("of");
            for (k, sep) in [("om", " "), ("on", "."), ("op", "."), ("oq", ".")] {
                match m.get(k) {
                    Some(v) => os = format!("{os}{sep}{v}"),
                    None => break,
                }
            }
            add("OS Family", os);
            for (k, n) in [
                ("um", "Client Version Major"),
                ("un", "Client Version Minor"),
                ("db", "Device Brand"),
                ("dm", "Device Model"),
                ("om", "OS Version Major"),
                ("on", "OS Version Minor"),
                ("op", "OS Version Patch"),
                ("oq", "OS Version Patch Minor"),
            ] {
                if let Some(v) = m.get(k) {
                    add(n, v.to_string());
                }
            }
        }
        let at = t.ts.map(|(t, _)| (t, t)).unwrap_or(at);
        let begun = q.sessions.insert(who);
        if begun {
            let mut props = props.clone();
            props.insert("e:ip".into(), V::S(t.ip.clone().unwrap_or(t.client.clone())));
            for (n, v) in ["Source", "Medium", "Campaign", "Term", "Content"].iter().zip(t.utm.iter().flatten()) {
                if let Some(v) = v {
                    props.insert(format!("e:UTM {n}"), V::S(v.clone()));
                }
            }
            self.rows.push(Row { project: p, groups: groups.clone(), event: "Session Begin".into(), at, props });
        }
        self.rows.push(Row { project: p, groups, event: t.event.clone(), at, props });
        q.accepted += 1;
        begun
    }
    pub fn identify(&mut self, p: usize, i: &Identify, at: (i64, i64)) {
        let g = self.group(p, &i.group).unwrap();
        let q = &mut self.ps[p];
        let id = q.ids[g].real(&i.id);
        let vals = q.values.entry((g, i.id.clone())).or_default();
        for (n, v) in &i.props {
            vals.insert(n.clone(), v.clone());
            q.gprops.insert((g, n.clone()), kind(v));
        }
        let at = i.ts.map(|(t, _)| (t, t)).unwrap_or(at);
        self.grows.push(GRow { project: p, group: g, id, at, props: vals.clone() });
    }
}

pub const USERS: [&str; 5] = ["ann", "bob", "cy", "dan/é", "7"];
pub const ANONS: [&str; 5] = ["a-1", "a-2", "a-3", "ann", "x y"];
pub const GROUPS: [&str; 5] = ["company", "team", "region", "plan", "extra"];
pub const KEYS: [&str; 4] = ["acme", "globex", "ann", "x/1"];
pub const EVENTS: [&str; 6] = ["Buy", "View", "buy", "Signed Up", "Page", "Click"];

pub fn value(s: &mut Src, k: char) -> V {
    match k {
        's' => V::S(match s.below(3) {
            0 => s.pick(&["red", "blue", "Red", "1", "true"]).to_string(),
            _ => s.string(5),
        }),
        'n' => V::N(match s.below(4) {
            0 => s.range(-3, 30) as i128 * SCALE,
            1 => s.range(-100_000, 100_000) as i128 * (SCALE / 100),
            2 => s.range(-10, 1_000_000_000) as i128 * (SCALE / 1000),
            _ => s.range(-999_999_999_999, 999_999_999_999) as i128 * SCALE,
        }),
        'b' => V::B(s.bool()),
        _ => V::T(s.range(0, 1_700_000_000_000)),
    }
}
/// Property names tell the type: s1, n2, b1, t1; texts that are not in a dictionary too.
pub fn props(s: &mut Src, max: usize, event: bool) -> BTreeMap<String, V> {
    let mut m = BTreeMap::new();
    for _ in 0..s.us(0, max) {
        let k = *s.pick(&['s', 'n', 'b', 't']);
        let n = match s.below(12) {
            0 if event => ("Page Path".to_string(), 's'),
            1 if event => ("Text".to_string(), 's'),
            2 => ("a b é".to_string(), 's'),
            3 => ("Amount".to_string(), 'n'),
            _ => (format!("{k}{}", s.us(1, 3)), k),
        };
        let v = value(s, n.1);
        m.insert(n.0, v);
    }
    m
}
pub fn when(s: &mut Src) -> Option<(i64, i32)> {
    if s.chance(1, 4) {
        return None;
    }
    let off = *s.pick(&[0, 0, 180, -330]);
    Some((s.range(1_600_000_000_000, 1_700_000_000_000), off))
}
const IPS: [&str; 4] = ["10.0.0.1", "10.0.0.2", "10.0.0.3", "2001:db8::1"];
pub fn geo(s: &mut Src) -> BTreeMap<String, (String, String)> {
    let mut m = BTreeMap::new();
    for ip in IPS {
        if s.chance(3, 4) {
            let c = |s: &mut Src, v: &[&str]| if s.chance(1, 4) { String::new() } else { s.pick(v).to_string() };
            let a = c(s, &["Spain", "France"]);
            let b = c(s, &["Vigo", "Nice", "Lyon"]);
            m.insert(ip.to_string(), (a, b));
        }
    }
    m
}
pub fn some(s: &mut Src, v: &[&str]) -> String {
    s.pick(v).to_string()
}
pub fn track(s: &mut Src, rich: bool) -> Track {
    let (user, anon) = match s.weighted(&[4, 3, 3]) {
        0 => (Some(some(s, &USERS)), None),
        1 => (None, Some(some(s, &ANONS))),
        _ => {
            let u = some(s, &USERS);
            (Some(u), Some(some(s, &ANONS)))
        }
    };
    let mut groups = BTreeMap::new();
    for _ in 0..s.weighted(&[5, 3, 1]) {
        let g = some(s, &GROUPS[..4]);
        groups.insert(g, some(s, &KEYS));
    }
    let ua = (rich && s.chance(2, 3)).then(|| {
        let mut v = vec![];
        for k in ["uf", "um", "un", "up", "df", "db", "dm", "of", "om", "on", "op", "oq"] {
            if s.chance(2, 3) {
                v.push((k.to_string(), s.pick(&["A", "B", "1", "2 x"]).to_string()));
            }
        }
        v
    });
    let utm = s.chance(1, if rich { 2 } else { 6 }).then(|| {
        let mut f = |o: bool| (o || s.bool()).then(|| s.pick(&["ads", "mail", "x"]).to_string());
        [f(true), f(false), f(false), f(false), f(false)]
    });
    Track {
        user,
        anon,
        ts: when(s),
        event: some(s, &EVENTS),
        props: props(s, 4, true),
        groups,
        ua,
        ip: s.bool().then(|| some(s, &IPS)),
        client: some(s, &IPS),
        utm,
        bare: s.bool(),
    }
}
pub fn identify(s: &mut Src) -> Identify {
    let group = if s.bool() { "user".to_string() } else { some(s, &GROUPS[..4]) };
    let id = if group == "user" { some(s, &USERS) } else { some(s, &KEYS) };
    Identify { group, id, ts: when(s), props: props(s, 4, false), bare: s.bool(), client: some(s, &IPS) }
}
