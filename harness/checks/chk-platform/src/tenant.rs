//! What belongs to one project or organization is out of reach from another one.
use std::collections::BTreeSet;
use std::path::Path;

use common::rbac::{OrganizationRole as OR, ProjectRole as PR};
use proputil::*;

use crate::api::*;
use crate::fix::*;
use crate::perm::diff;

/// The lines of the state that are not of the project.
fn others(dump: &str, id: u64) -> String {
    let p = format!("{id} ");
    dump.lines().filter(|l| !l.starts_with(&p)).collect::<Vec<_>>().join("\n")
}
fn ids(r: &Resp) -> Result<BTreeSet<u64>, String> {
    let l = r.j()?["data"].as_array().ok_or_else(|| format!("no list: {}", r.short()))?;
    l.iter().map(|x| x["id"].as_u64().ok_or_else(|| format!("no id: {x}"))).collect()
}

impl Fx {
    /// The identifiers of the project's things, from the store.
    pub fn ids(&self, p: usize, kind: &str) -> Result<BTreeSet<u64>, String> {
        let md = self.api.md();
        let i = self.projects[p].id;
        Ok(match kind {
            "event" => md.events.list(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            "custom" => md.custom_events.list(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            "dashboard" => md.dashboards.list(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            "report" => md.reports.list(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            "property" => md.event_properties.list(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            "group property" => md.group_properties[0].list(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            "group" => md.groups.list_groups(i).map_err(e2s)?.data.iter().map(|x| x.id).collect(),
            k => return Err(format!("kind {k}")),
        })
    }
}

const OPS: [&str; 26] = [
    "event get", "event by name", "event update", "event delete", "event attach", "event detach", "custom get",
    "custom update", "custom delete", "property get", "property by name", "property update", "property delete",
    "group property get", "group property by name", "group property update", "group property delete", "dashboard get",
    "dashboard update", "dashboard delete", "report get", "report update", "report delete", "bookmark get", "event create",
    "report create",
];
const LISTS: [&str; 7] = ["event list", "custom list", "dashboard list", "report list", "property list", "group property list", "group list"];

pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let (no, extra) = (s.us(1, 2), s.us(0, 1));
    let np = (no + extra).max(2);
    let mut fx = Fx::new(root, s, no, np, 1)?;
    // more of each kind in some projects, so that identifiers and names differ or meet
    for p in 0..np {
        for _ in 0..s.us(0, 6) {
            let kind = *s.pick(&["event", "custom event", "dashboard", "report", "bookmark"]);
            let n = s.us(100, 102);
            let (path, body) = fx.creation(p, kind, n)?;
            let t = token(fx.accs[0].id, fx.orgs[fx.projects[p].org], 600, ACCESS_KEY);
            let r = fx.api.post(&t, &format!("/api/v1/projects/{}{path}", fx.projects[p].id), &body)?;
            if kind == "bookmark" && r.ok() {
                let id = r.j()?["id"].as_str().unwrap_or_default().to_string();
                let by = fx.accs[0].id;
                fx.projects[p].bookmarks.push((by, id));
            }
        }
    }
    // an owner of everything of one organization, and one of a single project
    // (who may also look into a project of another one)
    let guest: Vec<(usize, PR)> = match (0..np).find(|p| fx.projects[*p].org != 0) {
        Some(p) if s.bool() => vec![(p, s.pick(&[PR::Owner, PR::Admin, PR::Reader]).clone())],
        _ => vec![],
    };
    let whole = fx.account(false, vec![(0, OR::Owner)], guest)?;
    let single = fx.account(false, vec![(0, OR::Member)], vec![(0, PR::Owner)])?;
    c.note(format!("{:?} {:?}", fx.orgs, fx.projects));
    let (mut crossed, mut listed) = (0, 0);
    for _ in 0..s.us(8, 20) {
        let who = *s.pick(&[whole, single]);
        let mine: Vec<usize> = (0..np).filter(|p| if who == single { *p == 0 } else { fx.projects[*p].org == 0 }).collect();
        let p = *s.pick(&mine);
        let tok = fx.token(who, Some(0));
        if s.chance(1, 4) {
            let name = *s.pick(&LISTS);
            let op = fx.op(name, 0, p, p)?;
            let r = fx.api.call(&tok, op.method, &op.path, None)?.want(200, name)?;
            let (got, want) = (ids(&r)?, fx.ids(p, name.strip_suffix(" list").unwrap())?);
            ensure_eq!(got, want, "{name} of project {p}");
            for x in r.j()?["data"].as_array().unwrap() {
                if let Some(pid) = x.get("projectId").and_then(|x| x.as_u64()) {
                    ensure!(pid == fx.projects[p].id, "{name} of project {p} has {x}");
                }
            }
            listed += 1;
            continue;
        }
        if s.chance(1, 6) {
            if s.bool() {
                // an administrator sees the projects of the organization of the token
                let o = s.us(0, fx.orgs.len() - 1);
                let t = token(fx.accs[0].id, fx.orgs[o], 600, ACCESS_KEY);
                let r = fx.api.get(&t, "/api/v1/projects")?.want(200, "project list")?;
                let want: BTreeSet<u64> = fx.projects.iter().filter(|p| p.org == o).map(|p| p.id).collect();
                ensure_eq!(ids(&r)?, want, "projects of organization {}, to an administrator", o);
                continue;
            }
            let r = fx.api.get(&tok, "/api/v1/projects")?.want(200, "project list");
            if who == whole {
                let want: BTreeSet<u64> = mine.iter().map(|p| fx.projects[*p].id).collect();
                ensure_eq!(ids(&r?)?, want, "projects of organization 0");
            }
            continue;
        }
        let of = s.us(0, np - 1);
        let name = *s.pick(&OPS);
        let op = fx.op(name, 0, p, of)?;
        let last = op.path.rsplit('/').next().unwrap().to_string();
        // the thing is one of the project in the path as well
        let kind = name.rsplit_once(' ').unwrap().0;
        let own = match name {
            "event create" | "report create" => true,
            "bookmark get" => false,
            "event attach" | "event detach" => {
                let mut it = op.path.rsplit('/');
                let e = it.nth(2).unwrap();
                fx.ids(p, "event")?.contains(&e.parse().unwrap())
            }
            _ if name.ends_with("name") => {
                let md = fx.api.md();
                let i = fx.projects[p].id;
                let n = last.replace("%20", " ");
                match name {
                    "event by name" => md.events.get_by_name(i, &n).is_ok(),
                    "property by name" => md.event_properties.get_by_name(i, &n).is_ok(),
                    _ => md.group_properties[0].get_by_name(i, &n).is_ok(),
                }
            }
            _ => fx.ids(p, kind)?.contains(&last.parse().map_err(|_| last.clone())?),
        };
        let before = fx.dump()?;
        c.note(format!("account {} {} of project {of}: {} {}", fx.accs[who].id, name, op.method, op.path));
        let r = fx.api.call(&tok, op.method, &op.path, op.body.as_ref())?;
        let after = fx.dump()?;
        let what = format!("{name} with the path of project {p} ({}) and the thing of project {of}: {}", fx.projects[p].id, op.path);
        let pid = fx.projects[p].id;
        let (b, a) = (others(&before, pid), others(&after, pid));
        ensure!(a == b, "{what}: what is not of the project changed: {}", diff(&b, &a));
        if own {
            ensure!(name.ends_with("create") || name.ends_with("tach") || name.ends_with("update") || r.status == 200, "{what}: status {} {}", r.status, r.short());
            if r.ok() && r.j().is_ok() {
                if let Some(x) = r.j()?.get("projectId").and_then(|x| x.as_u64()) {
                    ensure!(x == pid, "{what}: a thing of project {x}: {}", r.short());
                }
            }
        } else {
            crossed += 1;
            c.label(name);
            ensure!(r.status == 404, "{what}: status {} instead of 404: {}", r.status, r.short());
            ensure!(after == before, "{what}: refused, yet the state changed: {}", diff(&before, &after));
        }
    }
    c.nontrivial(crossed > 1 && listed > 0);
    Ok(())
}
