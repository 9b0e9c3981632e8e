//! A server with organizations, projects and accounts of every kind of role, the permission table, the
//! operations of the interface with the permission each needs, and the state a refused one must not change.
use std::path::Path;

use common::rbac::{OrganizationRole as OR, ProjectRole as PR, Role};
use common::GROUPS_COUNT;
use metadata::accounts::CreateAccountRequest;
use metadata::organizations::CreateOrganizationRequest;
use proputil::*;
use serde_json::{json, Value as J};

use crate::api::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OP {
    View,
    Manage,
    Projects,
    Explore,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PP {
    ManageProject,
    DeleteProject,
    ViewProject,
    ManageSchema,
    DeleteSchema,
    ViewSchema,
    Explore,
    ManageReports,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Need {
    /// any account
    Any,
    Server,
    Org(OP),
    Project(PP),
}

#[derive(Clone, Debug)]
pub struct Acc {
    pub id: u64,
    pub admin: bool,
    /// indexes of organizations and projects
    pub orgs: Vec<(usize, OR)>,
    pub projects: Vec<(usize, PR)>,
    pub alive: bool,
}
#[derive(Clone, Debug)]
pub struct Proj {
    pub id: u64,
    pub org: usize,
    pub bookmarks: Vec<(u64, String)>,
}
pub struct Fx {
    pub api: Api,
    pub orgs: Vec<u64>,
    pub projects: Vec<Proj>,
    pub accs: Vec<Acc>,
    pub n: usize,
}

impl Acc {
    pub fn may(&self, fx: &Fx, tok_org: Option<usize>, need: Need, org: Option<usize>, project: usize) -> bool {
        if need == Need::Any || self.admin {
            return true;
        }
        match need {
            Need::Any => true,
            Need::Server => false,
            Need::Org(p) => match org.and_then(|o| self.orgs.iter().find(|x| x.0 == o)) {
                Some((_, OR::Owner)) => true,
                Some((_, OR::Admin)) => p == OP::Projects,
                _ => false,
            },
            Need::Project(p) => {
                // an owner or admin of the project's own organization
                if let Some(o) = tok_org {
                    if fx.projects[project].org == o
                        && self.orgs.iter().any(|x| x.0 == o && matches!(x.1, OR::Owner | OR::Admin))
                    {
                        return true;
                    }
                }
                match self.projects.iter().find(|x| x.0 == project) {
                    None => false,
                    Some((_, PR::Owner)) => true,
                    Some((_, PR::Admin)) => {
                        matches!(p, PP::ManageProject | PP::Explore | PP::ManageReports | PP::ViewSchema | PP::ManageSchema)
                    }
                    Some((_, PR::Member)) => matches!(p, PP::Explore | PP::ManageReports | PP::ViewSchema | PP::ManageSchema),
                    Some((_, PR::Reader)) => matches!(p, PP::Explore | PP::ViewSchema),
                }
            }
        }
    }
    pub fn org_ids(&self, fx: &Fx) -> Vec<Option<usize>> {
        if self.admin {
            return std::iter::once(None).chain((0..fx.orgs.len()).map(Some)).collect();
        }
        std::iter::once(None).chain(self.orgs.iter().map(|o| Some(o.0))).collect()
    }
}

pub fn org_role(s: &mut Src) -> OR {
    s.pick(&[OR::Owner, OR::Admin, OR::Member]).clone()
}
pub fn project_role(s: &mut Src) -> PR {
    s.pick(&[PR::Owner, PR::Admin, PR::Member, PR::Reader]).clone()
}

impl Fx {
    pub fn new(root: &Path, s: &mut Src, orgs: usize, projects: usize, accs: usize) -> Result<Fx, String> {
        let api = Api::new(root)?;
        let mut fx = Fx { api, orgs: vec![], projects: vec![], accs: vec![], n: 0 };
        fx.account(true, vec![], vec![])?;
        for i in 0..orgs {
            let o = fx
                .api
                .md()
                .organizations
                .create(CreateOrganizationRequest { created_by: fx.accs[0].id, name: format!("organization {i}") })
                .map_err(e2s)?;
            fx.orgs.push(o.id);
        }
        for i in 0..projects {
            let org = if i < orgs { i } else { s.us(0, orgs - 1) };
            fx.project(org)?;
        }
        for _ in 1..accs {
            let (mut o, mut p) = (vec![], vec![]);
            for i in 0..orgs {
                if s.chance(1, 2) {
                    o.push((i, org_role(s)));
                }
            }
            for i in 0..projects {
                if s.chance(1, 2) {
                    p.push((i, project_role(s)));
                }
            }
            let admin = s.chance(1, 12);
            fx.account(admin, o, p)?;
        }
        Ok(fx)
    }
    pub fn next(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    pub fn account(&mut self, admin: bool, orgs: Vec<(usize, OR)>, projects: Vec<(usize, PR)>) -> Result<usize, String> {
        let n = self.next();
        let a = self
            .api
            .md()
            .accounts
            .create(CreateAccountRequest {
                created_by: 1,
                password_hash: "none".to_string(),
                email: format!("account{n}@example.com"),
                name: None,
                force_update_password: false,
                force_update_email: false,
                role: if admin { Some(Role::Admin) } else { None },
                organizations: Some(orgs.iter().map(|(o, r)| (self.orgs[*o], r.clone())).collect()),
                projects: Some(projects.iter().map(|(p, r)| (self.projects[*p].id, r.clone())).collect()),
                teams: None,
            })
            .map_err(e2s)?;
        self.accs.push(Acc { id: a.id, admin, orgs, projects, alive: true });
        Ok(self.accs.len() - 1)
    }
    pub fn project(&mut self, org: usize) -> Result<usize, String> {
        let t = token(self.accs[0].id, self.orgs[org], 600, ACCESS_KEY);
        let n = self.next();
        let id = self.api.post(&t, "/api/v1/projects", &json!({"name": format!("project {n}")}))?.want(201, "a project")?.id()?;
        self.projects.push(Proj { id, org, bookmarks: vec![] });
        let p = self.projects.len() - 1;
        for kind in ["event", "custom event", "dashboard", "report", "bookmark", "property", "group property"] {
            self.ensure(p, kind)?;
        }
        Ok(p)
    }
    pub fn token(&self, a: usize, org: Option<usize>) -> String {
        token(self.accs[a].id, org.map(|o| self.orgs[o]).unwrap_or(0), 600, ACCESS_KEY)
    }
    fn root(&self, p: usize) -> (String, String) {
        (token(self.accs[0].id, self.orgs[self.projects[p].org], 600, ACCESS_KEY), format!("/api/v1/projects/{}", self.projects[p].id))
    }
    /// An entity of the kind, of the project: one that is there, or a new one.
    pub fn ensure(&mut self, p: usize, kind: &str) -> Result<u64, String> {
        let pid = self.projects[p].id;
        let md = self.api.md().clone();
        let id = match kind {
            "event" => md.events.list(pid).map_err(e2s)?.data.iter().rev().find(|e| !e.is_system).map(|e| e.id),
            "custom event" => md.custom_events.list(pid).map_err(e2s)?.data.last().map(|e| e.id),
            "dashboard" => md.dashboards.list(pid).map_err(e2s)?.data.last().map(|e| e.id),
            "report" => md.reports.list(pid).map_err(e2s)?.data.last().map(|e| e.id),
            "property" => md.event_properties.list(pid).map_err(e2s)?.data.iter().rev().find(|x| !x.is_system).map(|x| x.id),
            "group property" => md.group_properties[0].list(pid).map_err(e2s)?.data.iter().rev().find(|x| !x.is_system).map(|x| x.id),
            "bookmark" => self.projects[p].bookmarks.last().map(|_| 0),
            k => return Err(format!("kind {k}")),
        };
        if let Some(id) = id {
            return Ok(id);
        }
        let n = self.next();
        if kind.ends_with("property") {
            let (typ, group) = if kind == "property" { (metadata::properties::Type::Event, false) } else { (metadata::properties::Type::Group(0), true) };
            metadata::util::create_property(&md, pid, metadata::util::CreatePropertyMainRequest {
                name: format!("property {n}"),
                display_name: None,
                typ,
                data_type: common::types::DType::String,
                nullable: true,
                hidden: false,
                dict: None,
                is_system: false,
            })
            .map_err(e2s)?;
            let l = if group { md.group_properties[0].list(pid) } else { md.event_properties.list(pid) };
            return Ok(l.map_err(e2s)?.data.iter().find(|x| x.name == format!("property {n}")).unwrap().id);
        }
        let (t, base) = self.root(p);
        if kind == "custom event" {
            self.ensure(p, "event")?;
        }
        let (path, body) = self.creation(p, kind, n)?;
        let r = self.api.post(&t, &format!("{base}{path}"), &body)?.want(201, kind)?;
        if kind == "bookmark" {
            let id = r.j()?["id"].as_str().unwrap_or_default().to_string();
            let by = self.accs[0].id;
            self.projects[p].bookmarks.push((by, id));
            return Ok(0);
        }
        r.id()
    }
    pub fn event_name(&self, p: usize) -> Result<String, String> {
        self.api
            .md()
            .events
            .list(self.projects[p].id)
            .map_err(e2s)?
            .data
            .iter()
            .rev()
            .find(|e| !e.is_system)
            .map(|e| e.name.clone())
            .ok_or("no event".to_string())
    }
    pub fn creation(&self, p: usize, kind: &str, n: usize) -> Result<(&'static str, J), String> {
        Ok(match kind {
            "event" => ("/schema/events", json!({"name": format!("event {n}"), "status": "enabled", "isSystem": false})),
            "custom event" => (
                "/schema/custom-events",
                json!({"name": format!("custom {n}"), "status": "enabled", "isSystem": false,
                    "events": [{"eventType": "regular", "eventName": self.event_name(p)?}]}),
            ),
            "dashboard" => (
                "/dashboards",
                json!({"name": format!("dashboard {n}"), "panels": [{"type": "report", "reportId": 1, "x": 1, "y": 2, "w": 3, "h": 4}]}),
            ),
            "report" => ("/reports", json!({"name": format!("report {n}"), "type": "eventSegmentation", "query": self.es(p, true)?})),
            "bookmark" => ("/bookmarks", json!({"query": self.es(p, true)?})),
            k => return Err(format!("kind {k}")),
        })
    }
    /// A query of event segmentation; as a report holds it, with its type.
    pub fn es(&self, p: usize, typed: bool) -> Result<J, String> {
        let mut q = json!({
            "time": {"type": "last", "last": 2, "unit": "day"}, "group": 0, "intervalUnit": "day", "chartType": "line",
            "analysis": {"type": "linear"},
            "events": [{"eventType": "regular", "eventName": self.event_name(p)?, "queries": [{"type": "countEvents"}]}],
        });
        if typed {
            q["type"] = json!("eventSegmentation");
        }
        Ok(q)
    }
    /// Everything the interface can change.
    pub fn dump(&self) -> Result<String, String> {
        let md = self.api.md();
        let mut out = String::new();
        let mut add = |name: String, v: Result<String, metadata::error::MetadataError>| {
            out.push_str(&name);
            out.push(' ');
            out.push_str(&v.unwrap_or_else(|e| format!("{e}")));
            out.push('\n');
        };
        add("organizations".into(), md.organizations.list().map(|l| format!("{:?}", l.data)));
        add("accounts".into(), md.accounts.list().map(|l| format!("{:?}", l.data)));
        add("backups".into(), md.backups.list().map(|l| format!("{:?}", l.data)));
        add("settings".into(), md.settings.load().map(|l| format!("{l:?}")));
        add("projects".into(), md.projects.list().map(|l| format!("{:?}", l.data)));
        for p in &self.projects {
            let i = p.id;
            add(format!("{i} events"), md.events.list(i).map(|l| format!("{:?}", l.data)));
            add(format!("{i} custom events"), md.custom_events.list(i).map(|l| format!("{:?}", l.data)));
            add(format!("{i} dashboards"), md.dashboards.list(i).map(|l| format!("{:?}", l.data)));
            add(format!("{i} reports"), md.reports.list(i).map(|l| format!("{:?}", l.data)));
            add(format!("{i} properties"), md.event_properties.list(i).map(|l| format!("{:?}", l.data)));
            add(format!("{i} groups"), md.groups.list_groups(i).map(|l| format!("{:?}", l.data)));
            for g in 0..GROUPS_COUNT {
                add(format!("{i} properties of {g}"), md.group_properties[g].list(i).map(|l| format!("{:?}", l.data)));
            }
        }
        Ok(out)
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: &'static str,
    pub need: Need,
    pub method: &'static str,
    pub path: String,
    pub body: Option<J>,
    /// the status of success; 0: any that is no refusal
    pub status: u16,
    /// the entity named in the path is one of the project's own kind of thing
    pub read: bool,
}

pub const PROJECT_OPS: [&str; 46] = [
    "project get", "project update", "project delete", "event create", "event list", "event get", "event by name",
    "event update", "event delete", "event attach", "event detach", "custom create", "custom list", "custom get",
    "custom update", "custom delete", "group create", "group list", "property list", "property get", "property by name",
    "property update", "property delete", "group property list", "group property get", "group property by name",
    "group property update", "group property delete", "values", "dashboard create", "dashboard list", "dashboard get",
    "dashboard update", "dashboard delete", "report create", "report list", "report get", "report update",
    "report delete", "bookmark create", "bookmark get", "event search", "group search", "event record", "segmentation",
    "funnel",
];
pub const OTHER_OPS: [&str; 16] = [
    "account create", "account list", "account get", "account update", "account delete", "organization create",
    "organization list", "organization get", "organization update", "organization delete", "project create",
    "project list", "backup", "backups", "settings get", "settings set",
];
pub const OWN_OPS: [&str; 2] = ["profile", "profile name"];

impl Fx {
    /// The operation on project `p` (or organization `o`), naming the things of project `of`.
    pub fn op(&mut self, name: &'static str, o: usize, p: usize, of: usize) -> Result<Op, String> {
        let n = self.next();
        let base = format!("/api/v1/projects/{}", self.projects[p].id);
        let org = format!("/api/v1/organizations/{}", self.orgs[o]);
        let mk = |need, method, path: String, body: Option<J>, status| Op { name, need, method, path, body, status, read: method == "GET" };
        let pj = Need::Project;
        let desc = Some(json!({"description": format!("new {n}")}));
        Ok(match name {
            "profile" => mk(Need::Any, "GET", "/api/v1/profile".into(), None, 200),
            "profile name" => mk(Need::Any, "PUT", "/api/v1/profile/name".into(), Some(json!({"name": format!("me {n}")})), 200),
            "account create" => mk(
                Need::Server,
                "POST",
                "/api/v1/accounts".into(),
                Some(json!({"password": "a password", "email": format!("made{n}@example.com"), "forceUpdatePassword": false, "forceUpdateEmail": false})),
                201,
            ),
            "account list" => mk(Need::Server, "GET", "/api/v1/accounts".into(), None, 200),
            "account get" => mk(Need::Server, "GET", format!("/api/v1/accounts/{}", self.accs[of % self.accs.len()].id), None, 200),
            "account update" => mk(
                Need::Server,
                "PUT",
                format!("/api/v1/accounts/{}", self.accs[of % self.accs.len()].id),
                Some(json!({"name": format!("named {n}")})),
                200,
            ),
            "account delete" => {
                let a = self.account(false, vec![], vec![])?;
                self.accs[a].alive = false;
                mk(Need::Server, "DELETE", format!("/api/v1/accounts/{}", self.accs[a].id), None, 200)
            }
            "organization create" => mk(Need::Server, "POST", "/api/v1/organizations".into(), Some(json!({"name": format!("organization {n}")})), 201),
            "organization list" => mk(Need::Server, "GET", "/api/v1/organizations".into(), None, 200),
            "organization get" => mk(Need::Org(OP::View), "GET", org, None, 200),
            "organization update" => mk(Need::Org(OP::Manage), "PUT", org, Some(json!({"name": format!("renamed {n}")})), 200),
            "organization delete" => {
                let x = self
                    .api
                    .md()
                    .organizations
                    .create(CreateOrganizationRequest { created_by: 1, name: format!("doomed {n}") })
                    .map_err(e2s)?;
                mk(Need::Server, "DELETE", format!("/api/v1/organizations/{}", x.id), None, 200)
            }
            "project create" => mk(Need::Org(OP::Projects), "POST", "/api/v1/projects".into(), Some(json!({"name": format!("made {n}")})), 201),
            "project list" => mk(Need::Org(OP::Explore), "GET", "/api/v1/projects".into(), None, 200),
            "backup" => mk(Need::Server, "POST", "/api/v1/admin/backups/backup".into(), None, 0),
            "backups" => mk(Need::Server, "GET", "/api/v1/admin/backups".into(), None, 200),
            "settings get" => mk(Need::Server, "GET", "/api/v1/admin/settings".into(), None, 200),
            "settings set" => mk(Need::Server, "PUT", "/api/v1/admin/settings".into(), Some(json!({"backupProviderS3Bucket": format!("b{n}")})), 200),
            "project get" => mk(pj(PP::ViewProject), "GET", base, None, 200),
            "project update" => mk(pj(PP::ManageProject), "PUT", base, desc, 200),
            "project delete" => mk(pj(PP::DeleteProject), "DELETE", base, None, 200),
            "event create" | "custom create" | "dashboard create" | "report create" | "bookmark create" => {
                let (kind, need) = match name {
                    "event create" => ("event", PP::ManageSchema),
                    "custom create" => ("custom event", PP::ManageSchema),
                    "dashboard create" => ("dashboard", PP::ManageReports),
                    "report create" => ("report", PP::ManageReports),
                    _ => ("bookmark", PP::Explore),
                };
                let (path, body) = self.creation(p, kind, n)?;
                mk(pj(need), "POST", format!("{base}{path}"), Some(body), 201)
            }
            "event list" => mk(pj(PP::ViewSchema), "GET", format!("{base}/schema/events"), None, 200),
            "custom list" => mk(pj(PP::ViewSchema), "GET", format!("{base}/schema/custom-events"), None, 200),
            "dashboard list" => mk(pj(PP::Explore), "GET", format!("{base}/dashboards"), None, 200),
            "report list" => mk(pj(PP::Explore), "GET", format!("{base}/reports"), None, 200),
            "property list" => mk(pj(PP::ViewSchema), "GET", format!("{base}/schema/event-properties"), None, 200),
            "group property list" => mk(pj(PP::ViewSchema), "GET", format!("{base}/schema/group-properties/0"), None, 200),
            "group list" => mk(pj(PP::ViewSchema), "GET", format!("{base}/groups"), None, 200),
            "group create" => {
                // five groups is all there is: naming one that exists returns it
                let names = ["users", "a", "b", "c", "d"];
                mk(pj(PP::ManageSchema), "POST", format!("{base}/groups"), Some(json!({"name": names[n % 5], "displayName": "x"})), 201)
            }
            "event by name" => {
                self.ensure(of, "event")?;
                let e = self.event_name(of)?;
                mk(pj(PP::ViewSchema), "GET", format!("{base}/schema/events/name/{}", e.replace(' ', "%20")), None, 200)
            }
            "property by name" | "group property by name" => {
                let (kind, path) = if name == "property by name" { ("property", "event-properties") } else { ("group property", "group-properties/0") };
                let id = self.ensure(of, kind)?;
                let md = self.api.md();
                let pid = self.projects[of].id;
                let x = if kind == "property" { md.event_properties.get_by_id(pid, id) } else { md.group_properties[0].get_by_id(pid, id) };
                let x = x.map_err(e2s)?.name.replace(' ', "%20");
                mk(pj(PP::ViewSchema), "GET", format!("{base}/schema/{path}/name/{x}"), None, 200)
            }
            "event attach" | "event detach" => {
                let (e, x) = (self.ensure(of, "event")?, self.ensure(of, "property")?);
                let pid = self.projects[of].id;
                let md = self.api.md();
                if name == "event attach" {
                    let _ = md.events.detach_event_property(pid, e, x);
                    mk(pj(PP::ManageSchema), "POST", format!("{base}/schema/events/{e}/properties/{x}"), None, 200)
                } else {
                    let _ = md.events.attach_event_property(pid, e, x);
                    mk(pj(PP::ManageSchema), "DELETE", format!("{base}/schema/events/{e}/properties/{x}"), None, 200)
                }
            }
            "bookmark get" => {
                self.ensure(of, "bookmark")?;
                let id = self.projects[of].bookmarks.last().unwrap().1.clone();
                mk(pj(PP::Explore), "GET", format!("{base}/bookmarks/{id}"), None, 0)
            }
            "values" => {
                let id = self.ensure(p, "property")?;
                let x = self.api.md().event_properties.get_by_id(self.projects[p].id, id).map_err(e2s)?.name;
                mk(pj(PP::Explore), "POST", format!("{base}/property-values"), Some(json!({"propertyType": "event", "propertyName": x})), 200)
            }
            "event search" => mk(
                pj(PP::Explore),
                "POST",
                format!("{base}/event-records/search"),
                Some(json!({"time": {"type": "last", "last": 2, "unit": "day"}})),
                200,
            ),
            "group search" => mk(pj(PP::Explore), "POST", format!("{base}/group-records/search"), Some(json!({"group": 0})), 200),
            "event record" => mk(pj(PP::Explore), "GET", format!("{base}/event-records/1"), None, 0),
            "segmentation" => {
                self.ensure(p, "event")?;
                mk(pj(PP::Explore), "POST", format!("{base}/queries/event-segmentation"), Some(self.es(p, false)?), 200)
            }
            "funnel" => {
                self.ensure(p, "event")?;
                let e = json!({"events": [{"eventType": "regular", "eventName": self.event_name(p)?}], "order": {"type": "exact"}});
                let q = json!({"time": {"type": "last", "last": 2, "unit": "day"}, "group": 0, "steps": [e.clone(), e],
                    "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique"});
                mk(pj(PP::Explore), "POST", format!("{base}/queries/funnel"), Some(q), 200)
            }
            _ => {
                let (kind, path, view, manage, del) = match name.rsplit_once(' ').unwrap().0 {
                    "event" => ("event", "schema/events", PP::ViewSchema, PP::ManageSchema, PP::DeleteSchema),
                    "custom" => ("custom event", "schema/custom-events", PP::ViewSchema, PP::ManageSchema, PP::DeleteSchema),
                    "property" => ("property", "schema/event-properties", PP::ViewSchema, PP::ManageSchema, PP::DeleteSchema),
                    "group property" => ("group property", "schema/group-properties/0", PP::ViewSchema, PP::ManageSchema, PP::DeleteSchema),
                    "dashboard" => ("dashboard", "dashboards", PP::Explore, PP::ManageReports, PP::ManageReports),
                    "report" => ("report", "reports", PP::Explore, PP::ManageReports, PP::ManageReports),
                    k => return Err(format!("operation {k}")),
                };
                let id = self.ensure(of, kind)?;
                let path = format!("{base}/{path}/{id}");
                match name.rsplit_once(' ').unwrap().1 {
                    "get" => mk(pj(view), "GET", path, None, 200),
                    "update" => mk(pj(manage), "PUT", path, desc, 200),
                    "delete" => mk(pj(del), "DELETE", path, None, 200),
                    k => return Err(format!("operation {k}")),
                }
            }
        })
    }
}
