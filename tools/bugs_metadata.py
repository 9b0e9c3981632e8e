BUGS = [
 dict(id='m08-circle-by-update', property='M08', kind='kit:metadata',
  edits=[('src/metadata/src/custom_events.rs', "let mut ids = vec![event.id];", "let mut ids = vec![];")],
  needs='An update that makes a custom event refer to itself, directly.',
  breaks='The event being changed is no longer among those that may not be met again: a custom event that contains itself is accepted.',
  demo=r'''
mod world;
use common::query::EventRef;
use common::types::OptionalProperty;
use metadata::custom_events::*;
fn main() {
    let w = world::World::new();
    w.project(1);
    let mk = |name: &str, events: Vec<EventRef>| CreateCustomEventRequest {
        created_by: 1, tags: None, name: name.to_string(), description: None, status: Status::Enabled, is_system: false,
        events: events.into_iter().map(|event| Event { event, filters: None }).collect(),
    };
    let c = &w.md.custom_events;
    let a = c.create(1, mk("a", vec![EventRef::RegularName("alpha".to_string())])).unwrap();
    let r = c.update(1, a.id, UpdateCustomEventRequest {
        updated_by: 1, tags: OptionalProperty::None, name: OptionalProperty::None, description: OptionalProperty::None,
        status: OptionalProperty::None, is_system: OptionalProperty::None,
        events: OptionalProperty::Some(vec![Event { event: EventRef::Custom(a.id), filters: None }]),
    });
    assert!(r.is_err(), "a custom event may contain itself");
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='m09-session-not-renewed', property='M09', kind='kit:metadata',
  edits=[('src/metadata/src/sessions.rs', """        session.created_at = time;
""", """        if is_new || time - session.created_at > chrono::Duration::seconds(1) {
            session.created_at = time;
        }
"""), ('src/metadata/src/sessions.rs', "created_at: Utc::now(),", "created_at: time,")],
  needs='Events of one visitor at most a second apart, each counted from the one before, over more than a second: no one of them is new enough to be noted.',
  breaks='An event shortly after the one before no longer renews the session; its time stays that of an earlier event.',
  demo=r'''
mod world;
fn main() {
    let w = world::World::new();
    let t = chrono::DateTime::from_timestamp(1_767_225_600, 0).unwrap();
    let s = &w.md.sessions;
    assert!(s.set_current_time(1, 7, t).unwrap());
    assert!(!s.set_current_time(1, 7, t + chrono::Duration::seconds(1)).unwrap());
    let seen = std::sync::Mutex::new(vec![]);
    s.check_for_deletion(1, |x| {
        seen.lock().unwrap().push(x.created_at);
        Ok(false)
    }).unwrap();
    assert_eq!(*seen.lock().unwrap(), vec![t + chrono::Duration::seconds(1)]);
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='m02-cleared-name-stays', property='M02', kind='kit:metadata',
  edits=[('src/metadata/src/index.rs', """        if key != prev_key {
            if let Some(key) = prev_key {""", """        if key.is_some() && key != prev_key {
            if let Some(key) = prev_key {""")],
  needs='An update that takes a display name away, and afterwards someone who wants that name.',
  breaks='A name that was given up still leads to its old owner and nobody else can have it.',
  demo=r'''
mod world;
use common::types::OptionalProperty;
use metadata::events::UpdateEventRequest;
fn main() {
    let w = world::World::new();
    w.project(1);
    let e = &w.md.events;
    let up = |name: Option<&str>| UpdateEventRequest {
        updated_by: 1, tags: OptionalProperty::None, name: OptionalProperty::None,
        display_name: OptionalProperty::Some(name.map(|n| n.to_string())), description: OptionalProperty::None,
        status: OptionalProperty::None, is_system: OptionalProperty::None, event_properties: OptionalProperty::None,
        user_properties: OptionalProperty::None, custom_properties: OptionalProperty::None,
    };
    let (a, b) = (e.get_by_name(1, "alpha").unwrap().id, e.get_by_name(1, "beta").unwrap().id);
    e.update(1, a, up(Some("Shown"))).unwrap();
    e.update(1, a, up(None)).unwrap();
    e.update(1, b, up(Some("Shown"))).expect("the name is free");
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='i05-new-value-after-a-known-one', property='I05', kind='kit:metadata',
  edits=[('src/metadata/src/groups.rs', """                for value in values {
                    let mut found = false;
                    for (gid,""", """                let mut found = false;
                for value in values {
                    for (gid,""")],
  needs='An identify call for somebody known that changes a value and, after it, adds a property not set before.',
  breaks='Once a value of an identify call replaced an older one, the properties after it that are new are dropped.',
  demo=r'''
mod world;
use metadata::groups::{PropertyValue, Value};
fn main() {
    let w = world::World::new();
    let pv = |id: u64, v: i64| PropertyValue { property_id: id, value: Value::Int64(Some(v)) };
    let g = &w.md.groups;
    g.create_or_update(1, 0, "ann", vec![pv(1, 10)]).unwrap();
    let got = g.create_or_update(1, 0, "ann", vec![pv(1, 11), pv(2, 20)]).unwrap();
    assert_eq!(got.values, vec![pv(1, 11), pv(2, 20)]);
    println!("ok");
    std::process::exit(0);
}
'''),
]
