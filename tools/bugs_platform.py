PRE = r'''
mod api;
mod world;
use api::Api;
use serde_json::{json, Value as J};
#[allow(unused_imports)]
use world::{World, HOUR, T0};

#[allow(dead_code)]
fn account(a: &Api, admin: bool, projects: Vec<(u64, common::rbac::ProjectRole)>, force: bool) -> u64 {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    a.w.md.accounts.create(metadata::accounts::CreateAccountRequest {
        created_by: 1, password_hash: "none".to_string(), email: format!("account{n}@example.com"), name: None,
        force_update_password: force, force_update_email: false,
        role: if admin { Some(common::rbac::Role::Admin) } else { None },
        organizations: None, projects: Some(projects), teams: None,
    }).unwrap().id
}
#[allow(dead_code)]
fn ok(r: (u16, J)) -> J {
    assert!(r.0 < 300, "{} {}", r.0, r.1);
    r.1
}
'''
BUGS = [
 dict(id='p01-explorer-deletes-dashboard', property='P01', kind='kit:platform',
  edits=[('src/platform/src/dashboards.rs', """    pub async fn delete(&self, ctx: Context, project_id: u64, id: u64) -> Result<Dashboard> {
        ctx.check_project_permission(
            ctx.organization_id,
            project_id,
            ProjectPermission::ManageReports,""", """    pub async fn delete(&self, ctx: Context, project_id: u64, id: u64) -> Result<Dashboard> {
        ctx.check_project_permission(
            ctx.organization_id,
            project_id,
            ProjectPermission::ExploreReports,""")],
  needs='A member with a role that may look at reports but not manage them, deleting a dashboard.',
  breaks='Who may only look at reports can delete dashboards.',
  demo=PRE + r'''
fn main() {
    let a = Api::new(World::new());
    let admin = account(&a, true, vec![], false);
    let t = Api::token(admin, 1);
    let p = ok(a.call(&t, "POST", "/api/v1/projects", Some(json!({"name": "project"}))))["id"].as_u64().unwrap();
    let d = ok(a.call(&t, "POST", &format!("/api/v1/projects/{p}/dashboards"), Some(json!({"name": "board", "panels": []}))))["id"].as_u64().unwrap();
    for role in [common::rbac::ProjectRole::Reader] {
        let acc = account(&a, false, vec![(p, role)], false);
        let r = a.call(&Api::token(acc, 0), "DELETE", &format!("/api/v1/projects/{p}/dashboards/{d}"), None);
        assert_eq!(r.0, 403, "{}", r.1);
    }
    ok(a.call(&t, "GET", &format!("/api/v1/projects/{p}/dashboards/{d}"), None));
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='p03-password-set-again', property='P03', kind='kit:platform',
  edits=[('src/platform/src/auth/provider.rs', """            password_hash: OptionalProperty::Some(password_hash),
            force_update_password: OptionalProperty::Some(false),""", """            password_hash: OptionalProperty::Some(password_hash),
            force_update_password: OptionalProperty::None,""")],
  needs='An account that has to replace its first password, does so, and a second attempt to set a password without the old one.',
  breaks='Setting the first password does not end the leave to set one without knowing the old one: whoever holds a token can go on replacing it.',
  demo=PRE + r'''
fn main() {
    let a = Api::new(World::new());
    let acc = account(&a, false, vec![], true);
    let t = Api::token(acc, 0);
    let set = |p: &str| a.call(&t, "PUT", "/api/v1/profile/set-password", Some(json!({"password": p})));
    let r = set("k3nt4ur!9-Xylophon");
    assert!(r.0 < 300, "{} {}", r.0, r.1);
    let r = set("an0ther-Xyl0phon!77");
    assert_eq!(r.0, 403, "{}", r.1);
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='p04-years-read-as-months', property='P04', kind='kit:platform',
  edits=[('src/platform/src/lib.rs', "common::query::TimeIntervalUnit::Year => TimeIntervalUnit::Year,", "common::query::TimeIntervalUnit::Year => TimeIntervalUnit::Month,")],
  needs='A stored report whose query counts by years.',
  breaks='A report over years comes back as one over months, though it was stored rightly.',
  demo=PRE + r'''
fn main() {
    let a = Api::new(World::new());
    let admin = account(&a, true, vec![], false);
    let t = Api::token(admin, 1);
    let p = ok(a.call(&t, "POST", "/api/v1/projects", Some(json!({"name": "project"}))))["id"].as_u64().unwrap();
    let q = json!({"time": {"type": "last", "last": 3, "unit": "year"}, "group": 0, "intervalUnit": "year", "chartType": "line",
        "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": "alpha", "queries": [{"type": "countEvents"}]}]});
    let r = ok(a.call(&t, "POST", &format!("/api/v1/projects/{p}/reports"), Some(json!({"type": "eventSegmentation", "name": "years",
        "query": {"type": "eventSegmentation", "time": q["time"], "group": 0, "intervalUnit": "year", "chartType": "line", "analysis": q["analysis"], "events": q["events"]}}))));
    let id = r["id"].as_u64().unwrap();
    let g = ok(a.call(&t, "GET", &format!("/api/v1/projects/{p}/reports/{id}"), None));
    assert_eq!(g["query"]["time"]["unit"], "year", "{g}");
    assert_eq!(g["query"]["intervalUnit"], "year", "{g}");
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='q04-exclude-at-the-last-step', property='Q04', kind='kit:platform',
  edits=[('src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs', "steps.to >= self.cur_step", "steps.to > self.cur_step")],
  needs='A funnel that excludes an event between two steps, and that event just at the last of them.',
  breaks='An exclusion between steps does not hold for the last step it names.',
  demo=PRE + r'''
fn main() {
    let w = World::new();
    w.project(1);
    // alpha, then gamma (excluded), then beta
    for (user, evs) in [(1, vec!["alpha", "gamma", "beta"]), (2, vec!["alpha", "beta"])] {
        for (i, e) in evs.iter().enumerate() {
            w.event(1, user, T0 + i as i64 * HOUR, e, vec![]);
        }
    }
    let a = Api::new(w);
    let admin = account(&a, true, vec![], false);
    let t = Api::token(admin, 1);
    let ev = |n: &str| json!({"eventType": "regular", "eventName": n});
    let q = json!({
        "time": {"type": "between", "from": "2025-12-31T00:00:00Z", "to": "2026-01-03T00:00:00Z"}, "group": 0,
        "steps": [{"events": [ev("alpha")], "order": {"type": "exact"}}, {"events": [ev("beta")], "order": {"type": "exact"}}],
        "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "steps"}, "count": "nonUnique",
        "exclude": [{"eventType": "regular", "eventName": "gamma", "steps": {"type": "between", "from": 1, "to": 2}}],
    });
    let r = ok(a.call(&t, "POST", "/api/v1/projects/1/queries/funnel?timestamp=1767500000", Some(q)));
    println!("{r}");
    let total = |i: usize| r["steps"][i]["data"][0]["total"].as_i64();
    assert_eq!(total(1), Some(1), "only the visitor without gamma converts: {r}");
    println!("ok");
    std::process::exit(0);
}
'''),
 dict(id='q01-third-event-of-a-custom-event', property='Q01', kind='kit:platform',
  edits=[('src/query/src/expr.rs', "for expr in exprs.iter().skip(1) {\n                final_expr = or(", "for expr in exprs.iter().skip(1).take(1) {\n                final_expr = or(")],
  needs='A custom event made of three or more events.',
  breaks='Only the first two events a custom event consists of are counted.',
  demo=PRE + r'''
fn main() {
    let w = World::new();
    w.project(1);
    for (i, e) in ["alpha", "beta", "gamma", "gamma"].iter().enumerate() {
        w.event(1, 1, T0 + i as i64 * HOUR, e, vec![]);
    }
    let a = Api::new(w);
    let admin = account(&a, true, vec![], false);
    let t = Api::token(admin, 1);
    let ev = |n: &str| json!({"eventType": "regular", "eventName": n});
    let c = ok(a.call(&t, "POST", "/api/v1/projects/1/schema/custom-events", Some(json!({"name": "any", "status": "enabled", "isSystem": false, "events": [ev("alpha"), ev("beta"), ev("gamma")]}))));
    let q = json!({"time": {"type": "between", "from": "2026-01-01T00:00:00Z", "to": "2026-01-01T23:00:00Z"}, "group": 0, "intervalUnit": "year",
        "chartType": "line", "analysis": {"type": "linear"},
        "events": [{"eventType": "custom", "eventId": c["id"], "queries": [{"type": "countEvents"}]}]});
    let r = ok(a.call(&t, "POST", "/api/v1/projects/1/queries/event-segmentation?timestamp=1767312000", Some(q)));
    println!("{r}");
    assert!(r.to_string().contains("[4") , "{r}");
    println!("ok");
    std::process::exit(0);
}
'''),
]
