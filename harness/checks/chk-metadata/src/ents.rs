//! A reference model of the stored entities: create, read, list, update, delete, unique names.
use std::collections::BTreeMap;
use std::fmt::Debug;

use chrono::{DateTime, Utc};
use common::rbac::*;
use common::types::{DType, OptionalProperty};
use metadata::error::MetadataError;
use metadata::{accounts, backups, custom_events, dashboards, events, organizations, projects, properties, reports, teams};
use proputil::*;

use crate::reqs;
use crate::world::{Open, World};

pub type Re<T> = Result<T, MetadataError>;

pub trait Ent {
    type E: Clone + Debug + PartialEq;
    type C: Clone + Debug;
    type U: Clone + Debug;
    const NAME: &'static str;
    /// false: one store for everything
    const SCOPED: bool = true;
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C;
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U;
    /// what create makes; ids and times are filled in by the engine
    fn made(scope: u64, c: &Self::C) -> Self::E;
    fn changed(e: &mut Self::E, u: &Self::U);
    fn id(e: &mut Self::E) -> &mut u64;
    fn times(e: &mut Self::E) -> (&mut DateTime<Utc>, &mut Option<DateTime<Utc>>);
    /// names that must be unique within the scope
    fn keys(_e: &Self::E) -> Vec<(&'static str, String)> {
        vec![]
    }
    /// what is not part of this model (and how an absent list is represented)
    fn norm(_e: &mut Self::E) {}
    fn create(o: &Open, scope: u64, c: Self::C) -> Re<Self::E>;
    fn get(o: &Open, scope: u64, id: u64) -> Re<Self::E>;
    fn list(o: &Open, scope: u64) -> Re<Vec<Self::E>>;
    fn update(o: &Open, scope: u64, id: u64, u: Self::U) -> Option<Re<Self::E>>;
    fn delete(o: &Open, scope: u64, id: u64) -> Re<()>;
    fn by_name(_o: &Open, _scope: u64, _kind: &str, _name: &str) -> Option<Re<Self::E>> {
        None
    }
    fn get_or_create(_o: &Open, _scope: u64, _c: Self::C) -> Option<Re<Self::E>> {
        None
    }
}
/// What generators may refer to.
pub struct Ctx {
    pub names: Vec<String>,
    pub accounts: Vec<u64>,
    pub events: BTreeMap<u64, Vec<(u64, String)>>,
    pub scope: u64,
}
impl Ctx {
    pub fn name(&self, s: &mut Src) -> String {
        if s.chance(1, 6) { s.string(6) } else { s.pick(&self.names).clone() }
    }
}
pub fn tags(s: &mut Src) -> Option<Vec<String>> {
    s.opt(|s| s.vec(1, 3, |s| s.string(4)))
}
pub fn text(s: &mut Src) -> Option<String> {
    s.opt(|s| s.string(8))
}
pub fn set<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> OptionalProperty<T> {
    if s.bool() { OptionalProperty::Some(f(s)) } else { OptionalProperty::None }
}
pub fn ap<T: Clone>(dst: &mut T, u: &OptionalProperty<T>) {
    if let OptionalProperty::Some(v) = u {
        *dst = v.clone();
    }
}
fn nonempty<T>(v: &mut Option<Vec<T>>) {
    if v.as_ref().map(|v| v.is_empty()).unwrap_or(false) {
        *v = None;
    }
}
pub fn sec(t: &mut DateTime<Utc>) {
    *t = DateTime::from_timestamp(t.timestamp(), 0).unwrap();
}

pub struct Engine<T: Ent> {
    /// ids up to this one are neither updated nor deleted
    pub protect: u64,
    pub live: BTreeMap<u64, BTreeMap<u64, T::E>>,
    pub seq: BTreeMap<u64, u64>,
    pub ops: usize,
    pub refused: usize,
}
impl<T: Ent> Default for Engine<T> {
    fn default() -> Self {
        Engine { protect: 0, live: Default::default(), seq: Default::default(), ops: 0, refused: 0 }
    }
}
fn norm<T: Ent>(e: &T::E) -> T::E {
    let mut e = e.clone();
    let (a, b) = T::times(&mut e);
    sec(a);
    if let Some(b) = b {
        sec(b);
    }
    T::norm(&mut e);
    e
}
pub trait Step {
    fn step(&mut self, s: &mut Src, c: &mut Case, w: &World, x: &Ctx) -> R;
    fn verify(&self, w: &World, scopes: &[u64]) -> R;
    fn stats(&self) -> (usize, usize, usize);
    fn events(&self) -> Option<BTreeMap<u64, Vec<(u64, String)>>> {
        None
    }
}
impl<T: Ent> Engine<T> {
    fn scope(&self, x: &Ctx) -> u64 {
        if T::SCOPED { x.scope } else { 0 }
    }
    fn pick_id(&self, s: &mut Src, sc: u64) -> u64 {
        let live: Vec<u64> = self.live.get(&sc).map(|m| m.keys().copied().collect()).unwrap_or_default();
        if live.is_empty() || s.chance(1, 8) {
            s.below(self.seq.get(&sc).copied().unwrap_or(0) + 3)
        } else {
            *s.pick(&live)
        }
    }
    fn clash(&self, sc: u64, e: &T::E, except: Option<u64>) -> bool {
        let k = T::keys(e);
        self.live.get(&sc).map(|m| m.iter().any(|(id, o)| Some(*id) != except && T::keys(o).iter().any(|x| k.contains(x)))).unwrap_or(false)
    }
    fn between(&self, what: &str, t: DateTime<Utc>, a: DateTime<Utc>, b: DateTime<Utc>) -> R {
        ensure!(t.timestamp() >= a.timestamp() && t <= b, "{}: {what} {t} is not between {a} and {b}", T::NAME);
        Ok(())
    }
    fn took(&mut self, sc: u64, want: T::E, got: Re<T::E>, clash: bool, t0: DateTime<Utc>, what: &str) -> R {
        let t1 = Utc::now();
        match got {
            Err(MetadataError::AlreadyExists(_)) if clash => {
                self.refused += 1;
                Ok(())
            }
            Err(e) => Err(format!("{} {what}: failed with {e}", T::NAME)),
            Ok(_) if clash => Err(format!("{} {what}: a second one with the same name was accepted", T::NAME)),
            Ok(mut got) => {
                let mut want = want;
                let n = self.seq.entry(sc).or_insert(0);
                *n += 1;
                *T::id(&mut want) = *n;
                let (ca, ua) = T::times(&mut got);
                let ca = *ca;
                ensure!(ua.is_none(), "{} {what}: a new one has an update time", T::NAME);
                *T::times(&mut want).0 = ca;
                self.between("creation time", ca, t0, t1)?;
                ensure_eq!(norm::<T>(&got), norm::<T>(&want), "{} {what} returned", T::NAME);
                let id = *T::id(&mut want);
                self.live.entry(sc).or_default().insert(id, norm::<T>(&want));
                Ok(())
            }
        }
    }
}
impl<T: Ent + 'static> Step for Engine<T> {
    fn step(&mut self, s: &mut Src, c: &mut Case, w: &World, x: &Ctx) -> R {
        let o = w.o();
        let sc = self.scope(x);
        self.ops += 1;
        match s.weighted(&[6, 5, 2, 2, 2, 2, 2]) {
            0 => {
                let req = T::gen_create(s, x);
                c.note(format!("{sc}: create {} {req:?}", T::NAME));
                let want = T::made(sc, &req);
                let clash = self.clash(sc, &want, None);
                let t0 = Utc::now();
                let got = T::create(o, sc, req);
                self.took(sc, want, got, clash, t0, "create")
            }
            1 => {
                let id = self.pick_id(s, sc);
                let u = T::gen_update(s, x);
                if id > 0 && id <= self.protect {
                    return Ok(());
                }
                c.note(format!("{sc}: update {} {id} {u:?}", T::NAME));
                let t0 = Utc::now();
                let Some(got) = T::update(o, sc, id, u.clone()) else { return Ok(()) };
                let t1 = Utc::now();
                let Some(prev) = self.live.get(&sc).and_then(|m| m.get(&id)).cloned() else {
                    ensure!(matches!(got, Err(MetadataError::NotFound(_))), "{} update of a missing id {id}: {got:?}", T::NAME);
                    return Ok(());
                };
                let mut want = prev;
                T::changed(&mut want, &u);
                if self.clash(sc, &want, Some(id)) {
                    self.refused += 1;
                    ensure!(matches!(got, Err(MetadataError::AlreadyExists(_))), "{} update to a taken name: {got:?}", T::NAME);
                    return Ok(());
                }
                let mut got = got.map_err(|e| format!("{} update {id}: {e}", T::NAME))?;
                let (_, ua) = T::times(&mut got);
                ensure!(ua.is_some(), "{} update leaves no update time", T::NAME);
                let ua = ua.unwrap();
                self.between("update time", ua, t0, t1)?;
                *T::times(&mut want).1 = Some(ua);
                ensure_eq!(norm::<T>(&got), norm::<T>(&want), "{} update {id} returned", T::NAME);
                self.live.get_mut(&sc).unwrap().insert(id, norm::<T>(&want));
                Ok(())
            }
            2 => {
                let id = self.pick_id(s, sc);
                if id > 0 && id <= self.protect {
                    return Ok(());
                }
                c.note(format!("{sc}: delete {} {id}", T::NAME));
                let got = T::delete(o, sc, id);
                match self.live.get_mut(&sc).and_then(|m| m.remove(&id)) {
                    Some(_) => got.map_err(|e| format!("{} delete {id}: {e}", T::NAME)),
                    None => {
                        ensure!(matches!(got, Err(MetadataError::NotFound(_))), "{} delete of a missing id {id}: {got:?}", T::NAME);
                        Ok(())
                    }
                }
            }
            3 => {
                let id = self.pick_id(s, sc);
                let got = T::get(o, sc, id);
                match self.live.get(&sc).and_then(|m| m.get(&id)) {
                    Some(e) => {
                        let got = got.map_err(|e| format!("{} get {id}: {e}", T::NAME))?;
                        ensure_eq!(&norm::<T>(&got), e, "{} get {id}", T::NAME);
                    }
                    None => ensure!(matches!(got, Err(MetadataError::NotFound(_))), "{} get of a missing id {id}: {got:?}", T::NAME),
                }
                Ok(())
            }
            4 => self.list(w, sc),
            5 => {
                // look up by a name, taken or not
                let probe = T::made(sc, &T::gen_create(s, x));
                for (kind, name) in T::keys(&probe) {
                    let Some(got) = T::by_name(o, sc, kind, &name) else { continue };
                    let want = self.live.get(&sc).and_then(|m| m.values().find(|e| T::keys(e).contains(&(kind, name.clone()))));
                    match (got, want) {
                        (Ok(g), Some(e)) => ensure_eq!(&norm::<T>(&g), e, "{} by {kind} {name:?}", T::NAME),
                        (Err(MetadataError::NotFound(_)), None) => {}
                        (g, e) => return Err(format!("{} by {kind} {name:?}: {g:?}, the model has {e:?}", T::NAME)),
                    }
                }
                Ok(())
            }
            _ => {
                let req = T::gen_create(s, x);
                let want = T::made(sc, &req);
                let t0 = Utc::now();
                let Some(got) = T::get_or_create(o, sc, req.clone()) else { return Ok(()) };
                c.note(format!("{sc}: get or create {} {req:?}", T::NAME));
                let name = T::keys(&want)[0].clone();
                if let Some(e) = self.live.get(&sc).and_then(|m| m.values().find(|e| T::keys(e).contains(&name))) {
                    let got = got.map_err(|e| format!("{} get or create {name:?}: {e}", T::NAME))?;
                    ensure_eq!(&norm::<T>(&got), e, "{} get or create {name:?}", T::NAME);
                    return Ok(());
                }
                let clash = self.clash(sc, &want, None);
                self.took(sc, want, got, clash, t0, "get or create")
            }
        }
    }
    fn verify(&self, w: &World, scopes: &[u64]) -> R {
        for sc in scopes {
            let sc = if T::SCOPED { *sc } else { 0 };
            self.list(w, sc)?;
            for (id, e) in self.live.get(&sc).iter().flat_map(|m| m.iter()) {
                let got = T::get(w.o(), sc, *id).map_err(|e| format!("{} get {id}: {e}", T::NAME))?;
                ensure_eq!(&norm::<T>(&got), e, "{} get {id}", T::NAME);
                for (kind, name) in T::keys(e) {
                    let Some(got) = T::by_name(w.o(), sc, kind, &name) else { continue };
                    let got = got.map_err(|e| format!("{} by {kind} {name:?}: {e}", T::NAME))?;
                    ensure_eq!(&norm::<T>(&got), e, "{} by {kind} {name:?}", T::NAME);
                }
            }
        }
        Ok(())
    }
    fn stats(&self) -> (usize, usize, usize) {
        (self.ops, self.refused, self.live.values().map(|m| m.len()).sum())
    }
}
impl<T: Ent> Engine<T> {
    fn list(&self, w: &World, sc: u64) -> R {
        let list = T::list(w.o(), sc).map_err(|e| format!("{} list: {e}", T::NAME))?;
        let mut got = BTreeMap::new();
        for mut e in list {
            let id = *T::id(&mut e);
            ensure!(got.insert(id, norm::<T>(&e)).is_none(), "{} {id} is listed twice", T::NAME);
        }
        let want = self.live.get(&sc).cloned().unwrap_or_default();
        ensure_eq!(got, want, "{} list of {sc}", T::NAME);
        Ok(())
    }
}

macro_rules! std_fields {
    () => {
        fn id(e: &mut Self::E) -> &mut u64 {
            &mut e.id
        }
        fn times(e: &mut Self::E) -> (&mut DateTime<Utc>, &mut Option<DateTime<Utc>>) {
            (&mut e.created_at, &mut e.updated_at)
        }
    };
}
macro_rules! scoped_calls {
    ($($md:tt)+) => {
        fn create(o: &Open, scope: u64, c: Self::C) -> Re<Self::E> {
            o.$($md)+.create(scope, c)
        }
        fn get(o: &Open, scope: u64, id: u64) -> Re<Self::E> {
            o.$($md)+.get_by_id(scope, id)
        }
        fn list(o: &Open, scope: u64) -> Re<Vec<Self::E>> {
            Ok(o.$($md)+.list(scope)?.data)
        }
        fn update(o: &Open, scope: u64, id: u64, u: Self::U) -> Option<Re<Self::E>> {
            Some(o.$($md)+.update(scope, id, u))
        }
        fn delete(o: &Open, scope: u64, id: u64) -> Re<()> {
            o.$($md)+.delete(scope, id).map(|_| ())
        }
    };
}
macro_rules! global_calls {
    ($md:ident) => {
        const SCOPED: bool = false;
        fn create(o: &Open, _: u64, c: Self::C) -> Re<Self::E> {
            o.md.$md.create(c)
        }
        fn get(o: &Open, _: u64, id: u64) -> Re<Self::E> {
            o.md.$md.get_by_id(id)
        }
        fn list(o: &Open, _: u64) -> Re<Vec<Self::E>> {
            Ok(o.md.$md.list()?.data)
        }
        fn delete(o: &Open, _: u64, id: u64) -> Re<()> {
            o.md.$md.delete(id).map(|_| ())
        }
    };
}
const T0: DateTime<Utc> = DateTime::<Utc>::UNIX_EPOCH;

pub struct Events;
impl Ent for Events {
    type E = events::Event;
    type C = events::CreateEventRequest;
    type U = events::UpdateEventRequest;
    const NAME: &'static str = "event";
    std_fields!();
    scoped_calls!(md.events);
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        events::CreateEventRequest {
            created_by: s.below(5),
            tags: tags(s),
            name: x.name(s),
            display_name: s.opt(|s| x.name(s)),
            description: text(s),
            status: if s.bool() { events::Status::Enabled } else { events::Status::Disabled },
            is_system: s.bool(),
            event_properties: s.opt(|s| s.vec(1, 3, |s| s.u64())),
            user_properties: s.opt(|s| s.vec(1, 3, |s| s.below(9))),
            custom_properties: s.opt(|s| s.vec(1, 3, |s| s.below(9))),
        }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        events::UpdateEventRequest {
            updated_by: s.below(5),
            tags: set(s, tags),
            name: set(s, |s| x.name(s)),
            display_name: set(s, |s| s.opt(|s| x.name(s))),
            description: set(s, text),
            status: set(s, |s| if s.bool() { events::Status::Enabled } else { events::Status::Disabled }),
            is_system: set(s, |s| s.bool()),
            event_properties: set(s, |s| s.opt(|s| s.vec(1, 3, |s| s.below(9)))),
            user_properties: set(s, |s| s.opt(|s| s.vec(1, 3, |s| s.below(9)))),
            custom_properties: set(s, |s| s.opt(|s| s.vec(1, 3, |s| s.below(9)))),
        }
    }
    fn made(scope: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        events::Event {
            id: 0,
            created_at: T0,
            updated_at: None,
            created_by: c.created_by,
            updated_by: None,
            project_id: scope,
            tags: c.tags,
            name: c.name,
            display_name: c.display_name,
            description: c.description,
            status: c.status,
            is_system: c.is_system,
            event_properties: c.event_properties,
            user_properties: c.user_properties,
            custom_properties: c.custom_properties,
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.tags, &u.tags);
        ap(&mut e.name, &u.name);
        ap(&mut e.display_name, &u.display_name);
        ap(&mut e.description, &u.description);
        ap(&mut e.status, &u.status);
        ap(&mut e.is_system, &u.is_system);
        ap(&mut e.event_properties, &u.event_properties);
        ap(&mut e.user_properties, &u.user_properties);
        ap(&mut e.custom_properties, &u.custom_properties);
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        let mut k = vec![("name", e.name.clone())];
        k.extend(e.display_name.clone().map(|d| ("display name", d)));
        k
    }
    fn norm(e: &mut Self::E) {
        nonempty(&mut e.event_properties);
        nonempty(&mut e.user_properties);
        nonempty(&mut e.custom_properties);
    }
    fn by_name(o: &Open, scope: u64, kind: &str, name: &str) -> Option<Re<Self::E>> {
        (kind == "name").then(|| o.md.events.get_by_name(scope, name))
    }
    fn get_or_create(o: &Open, scope: u64, c: Self::C) -> Option<Re<Self::E>> {
        Some(o.md.events.get_or_create(scope, c))
    }
}

pub struct CustomEvents;
fn ce_events(s: &mut Src, x: &Ctx) -> Vec<custom_events::Event> {
    // regular events that nothing else in the history touches
    s.vec(1, 3, |s| custom_events::Event {
        event: if s.bool() {
            common::query::EventRef::Regular(1 + s.below(2))
        } else {
            common::query::EventRef::RegularName(["fixed 1", "fixed 2"][s.us(0, 1)].to_string())
        },
        filters: s.opt(|s| s.vec(1, 2, reqs::ce_filter)),
    })
    .into_iter()
    .inspect(|_| {
        let _ = x;
    })
    .collect()
}
impl Ent for CustomEvents {
    type E = custom_events::CustomEvent;
    type C = custom_events::CreateCustomEventRequest;
    type U = custom_events::UpdateCustomEventRequest;
    const NAME: &'static str = "custom event";
    std_fields!();
    scoped_calls!(md.custom_events);
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        custom_events::CreateCustomEventRequest {
            created_by: s.below(5),
            tags: tags(s),
            name: x.name(s),
            description: text(s),
            status: if s.bool() { custom_events::Status::Enabled } else { custom_events::Status::Disabled },
            is_system: s.bool(),
            events: ce_events(s, x),
        }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        custom_events::UpdateCustomEventRequest {
            updated_by: s.below(5),
            tags: set(s, tags),
            name: set(s, |s| x.name(s)),
            description: set(s, text),
            status: set(s, |s| if s.bool() { custom_events::Status::Enabled } else { custom_events::Status::Disabled }),
            is_system: set(s, |s| s.bool()),
            events: set(s, |s| ce_events(s, x)),
        }
    }
    fn made(scope: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        custom_events::CustomEvent {
            id: 0,
            created_at: T0,
            updated_at: None,
            created_by: c.created_by,
            updated_by: None,
            project_id: scope,
            tags: c.tags,
            name: c.name,
            description: c.description,
            status: c.status,
            is_system: c.is_system,
            events: c.events,
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.tags, &u.tags);
        ap(&mut e.name, &u.name);
        ap(&mut e.description, &u.description);
        ap(&mut e.status, &u.status);
        ap(&mut e.is_system, &u.is_system);
        ap(&mut e.events, &u.events);
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        vec![("name", e.name.clone())]
    }
    fn by_name(o: &Open, scope: u64, _: &str, name: &str) -> Option<Re<Self::E>> {
        Some(o.md.custom_events.get_by_name(scope, name))
    }
}

macro_rules! props {
    ($t:ident, $label:expr, $typ:expr, $($md:tt)+) => {
        pub struct $t;
        impl Ent for $t {
            type E = properties::Property;
            type C = properties::CreatePropertyRequest;
            type U = properties::UpdatePropertyRequest;
            const NAME: &'static str = $label;
            std_fields!();
            scoped_calls!($($md)+);
            fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
                prop_req(s, x, $typ)
            }
            fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
                properties::UpdatePropertyRequest {
                    updated_by: s.below(5),
                    tags: set(s, tags),
                    name: OptionalProperty::None,
                    description: set(s, text),
                    display_name: set(s, |s| s.opt(|s| x.name(s))),
                    typ: OptionalProperty::None,
                    data_type: OptionalProperty::None,
                    status: set(s, |s| if s.bool() { properties::Status::Enabled } else { properties::Status::Disabled }),
                    is_system: OptionalProperty::None,
                    nullable: OptionalProperty::None,
                    is_array: OptionalProperty::None,
                    is_dictionary: OptionalProperty::None,
                    dictionary_type: OptionalProperty::None,
                }
            }
            fn made(scope: u64, c: &Self::C) -> Self::E {
                let c = c.clone();
                properties::Property {
                    id: 0,
                    created_at: T0,
                    updated_at: None,
                    created_by: c.created_by,
                    updated_by: None,
                    project_id: scope,
                    tags: c.tags,
                    name: c.name,
                    description: c.description,
                    display_name: c.display_name,
                    order: 0,
                    typ: c.typ,
                    data_type: c.data_type,
                    status: c.status,
                    is_system: c.is_system,
                    nullable: c.nullable,
                    hidden: c.hidden,
                    is_array: c.is_array,
                    is_dictionary: c.is_dictionary,
                    dictionary_type: c.dictionary_type,
                }
            }
            fn changed(e: &mut Self::E, u: &Self::U) {
                e.updated_by = Some(u.updated_by);
                ap(&mut e.tags, &u.tags);
                ap(&mut e.description, &u.description);
                ap(&mut e.display_name, &u.display_name);
                ap(&mut e.status, &u.status);
            }
            fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
                let mut k = vec![("name", e.name.clone())];
                k.extend(e.display_name.clone().map(|d| ("display name", d)));
                k
            }
            fn norm(e: &mut Self::E) {
                e.order = 0;
            }
            fn by_name(o: &Open, scope: u64, kind: &str, name: &str) -> Option<Re<Self::E>> {
                (kind == "name").then(|| o.$($md)+.get_by_name(scope, name))
            }
            fn get_or_create(o: &Open, scope: u64, c: Self::C) -> Option<Re<Self::E>> {
                Some(o.$($md)+.get_or_create(scope, c))
            }
        }
    };
}
pub const SCALARS: [DType; 8] =
    [DType::String, DType::Int8, DType::Int16, DType::Int32, DType::Int64, DType::Decimal, DType::Boolean, DType::Timestamp];
pub fn prop_req(s: &mut Src, x: &Ctx, typ: properties::Type) -> properties::CreatePropertyRequest {
    use properties::DictionaryType as D;
    let data_type = s.pick(&SCALARS).clone();
    let dict = if data_type == DType::String && s.bool() { Some([D::Int8, D::Int16, D::Int32, D::Int64][s.us(0, 3)].clone()) } else { None };
    properties::CreatePropertyRequest {
        created_by: s.below(5),
        tags: tags(s),
        name: x.name(s),
        description: text(s),
        display_name: s.opt(|s| x.name(s)),
        typ,
        data_type,
        status: if s.bool() { properties::Status::Enabled } else { properties::Status::Disabled },
        hidden: s.bool(),
        is_system: false,
        nullable: s.bool(),
        is_array: s.bool(),
        is_dictionary: dict.is_some(),
        dictionary_type: dict,
    }
}
props!(EventProps, "event property", properties::Type::Event, md.event_properties);
props!(GroupProps, "group property", properties::Type::Group(1), md.group_properties[1]);

pub struct Dashboards;
fn panels(s: &mut Src) -> Vec<dashboards::Panel> {
    s.vec(0, 3, |s| dashboards::Panel {
        typ: dashboards::Type::Report,
        report_id: s.u64(),
        x: s.us(0, 12),
        y: s.below(1 << 32) as usize,
        w: s.us(0, 12),
        h: s.us(0, 12),
    })
}
impl Ent for Dashboards {
    type E = dashboards::Dashboard;
    type C = dashboards::CreateDashboardRequest;
    type U = dashboards::UpdateDashboardRequest;
    const NAME: &'static str = "dashboard";
    std_fields!();
    scoped_calls!(md.dashboards);
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        dashboards::CreateDashboardRequest { created_by: s.below(5), tags: tags(s), name: x.name(s), description: text(s), panels: panels(s) }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        dashboards::UpdateDashboardRequest {
            updated_by: s.below(5),
            tags: set(s, tags),
            name: set(s, |s| x.name(s)),
            description: set(s, text),
            panels: set(s, panels),
        }
    }
    fn made(scope: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        dashboards::Dashboard {
            id: 0,
            created_at: T0,
            updated_at: None,
            created_by: c.created_by,
            updated_by: None,
            project_id: scope,
            tags: c.tags,
            name: c.name,
            description: c.description,
            panels: c.panels,
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.tags, &u.tags);
        ap(&mut e.name, &u.name);
        ap(&mut e.description, &u.description);
        ap(&mut e.panels, &u.panels);
    }
}

pub struct Reports;
impl Ent for Reports {
    type E = reports::Report;
    type C = reports::CreateReportRequest;
    type U = reports::UpdateReportRequest;
    const NAME: &'static str = "report";
    std_fields!();
    scoped_calls!(md.reports);
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        let (typ, query) = reqs::query(s);
        reports::CreateReportRequest { created_by: s.below(5), tags: tags(s), name: x.name(s), description: text(s), typ, query }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        let q = s.opt(reqs::query);
        let (typ, query) = match q {
            Some((t, q)) => (OptionalProperty::Some(t), OptionalProperty::Some(q)),
            None => (OptionalProperty::None, OptionalProperty::None),
        };
        reports::UpdateReportRequest {
            updated_by: s.below(5),
            tags: set(s, tags),
            name: set(s, |s| x.name(s)),
            description: set(s, text),
            typ,
            query,
        }
    }
    fn made(scope: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        reports::Report {
            id: 0,
            created_at: T0,
            updated_at: None,
            created_by: c.created_by,
            updated_by: None,
            project_id: scope,
            tags: c.tags,
            name: c.name,
            description: c.description,
            typ: c.typ,
            query: c.query,
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.tags, &u.tags);
        ap(&mut e.name, &u.name);
        ap(&mut e.description, &u.description);
        ap(&mut e.typ, &u.typ);
        ap(&mut e.query, &u.query);
    }
}

pub struct Teams;
impl Ent for Teams {
    type E = teams::Team;
    type C = teams::CreateTeamRequest;
    type U = teams::UpdateTeamRequest;
    const NAME: &'static str = "team";
    std_fields!();
    scoped_calls!(teams);
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        teams::CreateTeamRequest { created_by: s.below(5), organization_id: x.scope, name: x.name(s) }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        teams::UpdateTeamRequest { updated_by: s.below(5), name: set(s, |s| x.name(s)) }
    }
    fn made(scope: u64, c: &Self::C) -> Self::E {
        teams::Team { id: 0, created_at: T0, created_by: c.created_by, updated_at: None, updated_by: None, organization_id: scope, name: c.name.clone() }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.name, &u.name);
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        vec![("name", e.name.clone())]
    }
}

pub struct Accounts;
fn roles<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Option<Vec<(u64, T)>> {
    s.opt(|s| s.vec(1, 3, |s| (s.u64(), f(s))))
}
fn org_role(s: &mut Src) -> OrganizationRole {
    [OrganizationRole::Owner, OrganizationRole::Admin, OrganizationRole::Member][s.us(0, 2)].clone()
}
fn proj_role(s: &mut Src) -> ProjectRole {
    [ProjectRole::Owner, ProjectRole::Admin, ProjectRole::Member, ProjectRole::Reader][s.us(0, 3)].clone()
}
impl Ent for Accounts {
    type E = accounts::Account;
    type C = accounts::CreateAccountRequest;
    type U = accounts::UpdateAccountRequest;
    const NAME: &'static str = "account";
    std_fields!();
    global_calls!(accounts);
    fn update(o: &Open, _: u64, id: u64, u: Self::U) -> Option<Re<Self::E>> {
        Some(o.md.accounts.update(id, u))
    }
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        accounts::CreateAccountRequest {
            created_by: s.below(5),
            password_hash: s.string(8),
            email: x.name(s),
            name: text(s),
            force_update_password: s.bool(),
            force_update_email: s.bool(),
            role: s.opt(|_| Role::Admin),
            organizations: roles(s, org_role),
            projects: roles(s, proj_role),
            teams: roles(s, |_| Role::Admin),
        }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        accounts::UpdateAccountRequest {
            updated_by: s.below(5),
            password_hash: set(s, |s| s.string(8)),
            email: set(s, |s| x.name(s)),
            name: set(s, text),
            force_update_password: set(s, |s| s.bool()),
            force_update_email: set(s, |s| s.bool()),
            role: set(s, |s| s.opt(|_| Role::Admin)),
            organizations: set(s, |s| roles(s, org_role)),
            projects: set(s, |s| roles(s, proj_role)),
            teams: set(s, |s| roles(s, |_| Role::Admin)),
        }
    }
    fn made(_: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        accounts::Account {
            id: 0,
            created_at: T0,
            created_by: c.created_by,
            updated_at: None,
            updated_by: None,
            password_hash: c.password_hash,
            email: c.email,
            name: c.name,
            role: c.role,
            force_update_password: c.force_update_password,
            force_update_email: c.force_update_email,
            organizations: c.organizations,
            projects: c.projects,
            teams: c.teams,
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.password_hash, &u.password_hash);
        ap(&mut e.email, &u.email);
        ap(&mut e.name, &u.name);
        ap(&mut e.force_update_password, &u.force_update_password);
        ap(&mut e.force_update_email, &u.force_update_email);
        ap(&mut e.role, &u.role);
        ap(&mut e.organizations, &u.organizations);
        ap(&mut e.projects, &u.projects);
        ap(&mut e.teams, &u.teams);
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        vec![("email", e.email.clone())]
    }
    fn norm(e: &mut Self::E) {
        nonempty(&mut e.organizations);
        nonempty(&mut e.projects);
        nonempty(&mut e.teams);
    }
    fn by_name(o: &Open, _: u64, _: &str, name: &str) -> Option<Re<Self::E>> {
        Some(o.md.accounts.get_by_email(name))
    }
}

pub struct Projects;
impl Ent for Projects {
    type E = projects::Project;
    type C = projects::CreateProjectRequest;
    type U = projects::UpdateProjectRequest;
    const NAME: &'static str = "project";
    std_fields!();
    global_calls!(projects);
    fn update(o: &Open, _: u64, id: u64, u: Self::U) -> Option<Re<Self::E>> {
        Some(o.md.projects.update(id, u))
    }
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        projects::CreateProjectRequest {
            created_by: s.below(5),
            organization_id: s.below(5),
            name: x.name(s),
            description: text(s),
            tags: tags(s),
            // names and tokens share an index (known finding): keep them apart here
            token: format!("token-{}", x.name(s)),
            session_duration_seconds: s.u64(),
        }
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        projects::UpdateProjectRequest {
            updated_by: s.below(5),
            name: set(s, |s| x.name(s)),
            description: set(s, text),
            tags: set(s, tags),
            token: set(s, |s| format!("token-{}", x.name(s))),
            session_duration_seconds: set(s, |s| s.u64()),
        }
    }
    fn made(_: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        projects::Project {
            id: 0,
            created_at: T0,
            created_by: c.created_by,
            updated_at: None,
            updated_by: None,
            organization_id: c.organization_id,
            name: c.name,
            description: c.description,
            tags: c.tags,
            token: c.token,
            session_duration_seconds: c.session_duration_seconds,
            events_count: 0,
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.updated_by);
        ap(&mut e.name, &u.name);
        ap(&mut e.description, &u.description);
        ap(&mut e.tags, &u.tags);
        ap(&mut e.token, &u.token);
        ap(&mut e.session_duration_seconds, &u.session_duration_seconds);
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        vec![("name", e.name.clone()), ("token", e.token.clone())]
    }
    fn by_name(o: &Open, _: u64, kind: &str, name: &str) -> Option<Re<Self::E>> {
        (kind == "token").then(|| o.md.projects.get_by_token(name))
    }
}

pub struct Organizations;
impl Ent for Organizations {
    type E = organizations::Organization;
    type C = (u64, String);
    type U = (u64, OptionalProperty<String>);
    const NAME: &'static str = "organization";
    std_fields!();
    const SCOPED: bool = false;
    fn create(o: &Open, _: u64, c: Self::C) -> Re<Self::E> {
        o.md.organizations.create(organizations::CreateOrganizationRequest { created_by: c.0, name: c.1 })
    }
    fn get(o: &Open, _: u64, id: u64) -> Re<Self::E> {
        o.md.organizations.get_by_id(id)
    }
    fn list(o: &Open, _: u64) -> Re<Vec<Self::E>> {
        Ok(o.md.organizations.list()?.data)
    }
    fn delete(o: &Open, _: u64, id: u64) -> Re<()> {
        o.md.organizations.delete(id).map(|_| ())
    }
    fn update(o: &Open, _: u64, id: u64, u: Self::U) -> Option<Re<Self::E>> {
        Some(o.md.organizations.update(id, organizations::UpdateOrganizationRequest { updated_by: u.0, name: u.1 }))
    }
    fn gen_create(s: &mut Src, x: &Ctx) -> Self::C {
        (*s.pick(&x.accounts), x.name(s))
    }
    fn gen_update(s: &mut Src, x: &Ctx) -> Self::U {
        (s.below(5), set(s, |s| x.name(s)))
    }
    fn made(_: u64, c: &Self::C) -> Self::E {
        organizations::Organization {
            id: 0,
            created_at: T0,
            created_by: c.0,
            updated_at: None,
            updated_by: None,
            name: c.1.clone(),
            members: vec![(c.0, OrganizationRole::Owner)],
        }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.updated_by = Some(u.0);
        ap(&mut e.name, &u.1);
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        vec![("name", e.name.clone())]
    }
}

pub struct Backups;
pub fn provider(s: &mut Src) -> backups::Provider {
    match s.us(0, 2) {
        0 => backups::Provider::Local(s.string(8).into()),
        1 => backups::Provider::S3(backups::S3Provider { bucket: s.string(4), path: s.string(4), region: s.string(4) }),
        _ => backups::Provider::GCP(backups::GCPProvider { bucket: s.string(4), path: s.string(4) }),
    }
}
pub fn status(s: &mut Src) -> backups::Status {
    match s.us(0, 4) {
        0 => backups::Status::Idle,
        1 => backups::Status::InProgress(s.us(0, 100)),
        2 => backups::Status::Uploading,
        3 => backups::Status::Failed(s.string(6)),
        _ => backups::Status::Completed,
    }
}
impl Ent for Backups {
    type E = backups::Backup;
    type C = backups::CreateBackupRequest;
    type U = backups::Status;
    const NAME: &'static str = "backup";
    std_fields!();
    global_calls!(backups);
    fn update(o: &Open, _: u64, id: u64, u: Self::U) -> Option<Re<Self::E>> {
        Some(o.md.backups.update_status(id, u).and_then(|_| o.md.backups.get_by_id(id)))
    }
    fn gen_create(s: &mut Src, _: &Ctx) -> Self::C {
        backups::CreateBackupRequest { provider: provider(s), password: text(s), is_encrypted: s.bool(), status: status(s) }
    }
    fn gen_update(s: &mut Src, _: &Ctx) -> Self::U {
        // two idle ones can't be created; what a change of state to idle means is left open
        loop {
            let st = status(s);
            if st != backups::Status::Idle {
                return st;
            }
        }
    }
    fn made(_: u64, c: &Self::C) -> Self::E {
        let c = c.clone();
        backups::Backup { id: 0, created_at: T0, updated_at: None, provider: c.provider, status: c.status, is_encrypted: c.is_encrypted, password: c.password }
    }
    fn changed(e: &mut Self::E, u: &Self::U) {
        e.status = u.clone();
    }
    fn keys(e: &Self::E) -> Vec<(&'static str, String)> {
        if e.status == backups::Status::Idle { vec![("state", "idle".into())] } else { vec![] }
    }
}
