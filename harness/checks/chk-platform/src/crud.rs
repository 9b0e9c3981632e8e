//! What is stored through the interface is what is read from it.
use std::collections::BTreeMap;
use std::path::Path;

use proputil::*;
use serde_json::{json, Value as J};

use crate::api::*;
use crate::fix::*;
use crate::gen;

impl Fx {
    pub fn names(&self, p: usize) -> Result<gen::Names, String> {
        let md = self.api.md();
        let i = self.projects[p].id;
        let mut props: Vec<_> = md.event_properties.list(i).map_err(e2s)?.data.into_iter().map(|x| (None, x.name, x.data_type)).collect();
        props.truncate(12);
        for x in md.event_properties.list(i).map_err(e2s)?.data {
            if !x.is_system && props.iter().all(|y| y.1 != x.name) {
                props.push((None, x.name, x.data_type));
            }
        }
        for g in 0..2 {
            for x in md.group_properties[g].list(i).map_err(e2s)?.data {
                props.push((Some(g), x.name, x.data_type));
            }
        }
        let mut fixed: Vec<_> = md.event_properties.list(i).map_err(e2s)?.data.into_iter().filter(|x| !x.nullable).map(|x| (None, x.name)).collect();
        for g in 0..2 {
            fixed.extend(md.group_properties[g].list(i).map_err(e2s)?.data.into_iter().filter(|x| !x.nullable).map(|x| (Some(g), x.name)));
        }
        Ok(gen::Names {
            fixed,
            events: md.events.list(i).map_err(e2s)?.data.into_iter().map(|e| e.name).collect(),
            customs: md.custom_events.list(i).map_err(e2s)?.data.into_iter().map(|e| e.id).collect(),
            props,
        })
    }
}

/// A value of a member: given, null or absent.
fn member(s: &mut Src, o: &mut J, k: &str, nullable: bool, f: impl FnOnce(&mut Src) -> J) {
    match s.weighted(&[4, 1, 2]) {
        0 => o[k] = f(s),
        1 if nullable => o[k] = J::Null,
        _ => {}
    }
}
fn text(s: &mut Src) -> J {
    let t = s.string(6);
    json!(t)
}
fn tags(s: &mut Src) -> J {
    let k = s.us(1, 3);
    json!((0..k).map(|_| s.string(4)).collect::<Vec<_>>())
}
fn status(s: &mut Src) -> J {
    json!(*s.pick(&["enabled", "disabled"]))
}
fn panels(s: &mut Src) -> J {
    let k = s.us(0, 3);
    J::Array(
        (0..k)
            .map(|_| json!({"type": "report", "reportId": s.us(1, 9), "x": s.us(0, 99), "y": s.us(0, 99), "w": s.us(0, 99), "h": s.us(0, 1_000_000)}))
            .collect(),
    )
}
fn custom_events(s: &mut Src, n: &gen::Names) -> J {
    let k = s.us(1, 2);
    let mut n = n.clone();
    n.customs.clear();
    J::Array(
        (0..k)
            .map(|_| {
                let mut e = gen::event(s, &n);
                if s.bool() {
                    let k = s.us(1, 2);
                    e["filters"] = J::Array((0..k).map(|_| gen::valid_filter(s, &n)).collect());
                }
                e
            })
            .collect(),
    )
}
fn report(s: &mut Src, n: &gen::Names) -> (J, J) {
    if s.bool() {
        let mut q = gen::es(s, n, true);
        q["type"] = json!("eventSegmentation");
        (json!("eventSegmentation"), q)
    } else {
        let mut q = gen::funnel(s, n, true);
        q["type"] = json!("funnel");
        (json!("funnel"), q)
    }
}

const KINDS: [&str; 7] = ["event", "custom event", "dashboard", "report", "property", "group property", "project"];

fn base(fx: &Fx, p: usize, kind: &str) -> String {
    let b = format!("/api/v1/projects/{}", fx.projects[p].id);
    match kind {
        "event" => format!("{b}/schema/events"),
        "custom event" => format!("{b}/schema/custom-events"),
        "dashboard" => format!("{b}/dashboards"),
        "report" => format!("{b}/reports"),
        "property" => format!("{b}/schema/event-properties"),
        "group property" => format!("{b}/schema/group-properties/0"),
        _ => "/api/v1/projects".to_string(),
    }
}
fn creation(s: &mut Src, kind: &str, n: &gen::Names, name: &str) -> J {
    let mut o = json!({"name": name});
    member(s, &mut o, "tags", true, tags);
    member(s, &mut o, "description", true, text);
    match kind {
        "event" => {
            o["status"] = status(s);
            o["isSystem"] = json!(s.chance(1, 8));
            member(s, &mut o, "displayName", true, |_| json!(format!("shown {name}")));
        }
        "custom event" => {
            o["status"] = status(s);
            o["isSystem"] = json!(s.chance(1, 8));
            o["events"] = custom_events(s, n);
        }
        "dashboard" => o["panels"] = panels(s),
        "report" => {
            let (t, q) = report(s, n);
            o["type"] = t;
            o["query"] = q;
        }
        "project" => member(s, &mut o, "sessionDurationSeconds", false, |s| json!(s.us(1, 9999))),
        _ => {}
    }
    o
}
fn update(s: &mut Src, kind: &str, n: &gen::Names, name: &str) -> J {
    let mut o = json!({});
    member(s, &mut o, "tags", true, tags);
    member(s, &mut o, "description", true, text);
    if ["event", "property", "group property"].contains(&kind) {
        member(s, &mut o, "status", false, status);
        member(s, &mut o, "displayName", true, |_| json!(format!("now {name}")));
    } else {
        member(s, &mut o, "name", false, |_| json!(name));
    }
    match kind {
        "custom event" => {
            member(s, &mut o, "status", false, status);
            member(s, &mut o, "events", false, |s| custom_events(s, n));
        }
        "dashboard" => member(s, &mut o, "panels", false, panels),
        "report" => {
            if s.bool() {
                let (t, q) = report(s, n);
                o["type"] = t;
                o["query"] = q;
            }
        }
        "project" => member(s, &mut o, "sessionDurationSeconds", false, |s| json!(s.us(1, 9999))),
        _ => {}
    }
    o
}
const META: [&str; 2] = ["createdAt", "updatedAt"];

/// Without what the server chooses.
fn plain(j: &J) -> J {
    let mut j = j.clone();
    for k in META.iter().chain(["sdkToken", "eventsCount"].iter()) {
        j.as_object_mut().map(|o| o.remove(*k));
    }
    gen::canon(&j)
}
fn secs(j: &J) -> i64 {
    j.as_str().and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()).map_or(i64::MIN, |t| t.timestamp())
}

pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let mut fx = Fx::new(root, s, 1, 1, 1)?;
    let editor = fx.account(false, vec![(0, common::rbac::OrganizationRole::Owner)], vec![])?;
    if s.bool() {
        fx.project(0)?;
    }
    let np = fx.projects.len();
    // things there may be, by kind, project and identifier, with their creation time
    let mut model: BTreeMap<(usize, &'static str), BTreeMap<u64, J>> = BTreeMap::new();
    for p in 0..np {
        for kind in KINDS {
            let p = if kind == "project" { 0 } else { p };
            let t = fx.token(0, Some(0));
            let r = fx.api.get(&t, &base(&fx, p, kind))?.want(200, kind)?;
            let m = model.entry((p, kind)).or_default();
            for x in r.j()?["data"].as_array().unwrap() {
                m.insert(x["id"].as_u64().ok_or_else(|| format!("{kind} without id: {x}"))?, x.clone());
            }
        }
    }
    let mut bookmarks: Vec<(usize, usize, String, J)> = vec![];
    let (mut made, mut changed, mut gone) = (0, 0, 0);
    for step in 0..s.us(6, 24) {
        let a = if s.bool() { 0 } else { editor };
        let tok = fx.token(a, Some(0));
        let kind = *s.pick(&KINDS);
        let p = if kind == "project" { 0 } else { s.us(0, np - 1) };
        let names = fx.names(p)?;
        let path = base(&fx, p, kind);
        let ids: Vec<u64> = model[&(p, kind)].keys().copied().collect();
        let now = chrono::Utc::now().timestamp();
        let creatable = !kind.contains("property");
        match s.weighted(&[4, 5, 1, 1, 1]) {
            0 if creatable => {
                let name = format!("{kind} {step} {}", s.string(3));
                let taken = ["event", "custom event", "report", "dashboard", "project"].contains(&kind) && s.chance(1, 8) && !ids.is_empty();
                let name = if taken { model[&(p, kind)][s.pick(&ids)]["name"].as_str().unwrap().to_string() } else { name };
                let b = creation(s, kind, &names, &name);
                c.note(format!("{a} POST {path} {b}"));
                let r = fx.api.post(&tok, &path, &b)?;
                if taken && (kind == "event" || kind == "custom event" || kind == "project") {
                    if kind != "project" {
                        ensure!(r.status == 409, "a second {kind} {name:?}: status {} {}", r.status, r.short());
                    }
                    if r.status == 409 {
                        continue;
                    }
                }
                let r = r.want(201, &format!("creating {b}"))?;
                let j = r.j()?.clone();
                let id = r.id()?;
                ensure!(!ids.contains(&id), "creating {b} gives the identifier of another {kind}: {}", r.short());
                let mut want = b.clone();
                want["id"] = json!(id);
                want["createdBy"] = json!(fx.accs[a].id);
                if kind != "project" {
                    want["projectId"] = json!(fx.projects[p].id);
                } else if want.get("sessionDurationSeconds").is_none() {
                    want["sessionDurationSeconds"] = json!(1800);
                }
                ensure_eq!(plain(&j), plain(&want), "creating {b}: the answer");
                ensure!((now - 2..=now + 2).contains(&secs(&j["createdAt"])) && j["updatedAt"].is_null(), "creating {b}: times of {}", r.short());
                if kind == "project" {
                    let t = j["sdkToken"].as_str().unwrap_or_default();
                    ensure!(t.len() == 64 && fx.api.md().projects.get_by_token(t).map_err(e2s)?.id == id, "the token of {}", r.short());
                }
                model.get_mut(&(p, kind)).unwrap().insert(id, j);
                made += 1;
            }
            0 => {
                // a query that is shared
                let (_, q) = report(s, &names);
                let url = format!("/api/v1/projects/{}/bookmarks", fx.projects[p].id);
                c.note(format!("{a} POST {url} {q}"));
                let r = fx.api.post(&tok, &url, &json!({"query": q}))?.want(201, &format!("bookmark {q}"))?;
                let id = r.j()?["id"].as_str().unwrap_or_default().to_string();
                ensure!(bookmarks.iter().all(|b| b.2 != id), "two bookmarks with the identifier {id}");
                bookmarks.push((a, p, id, q));
                made += 1;
            }
            1 if !ids.is_empty() => {
                let id = *s.pick(&ids);
                let name = format!("{kind} {step} anew");
                let b = update(s, kind, &names, &name);
                c.note(format!("{a} PUT {path}/{id} {b}"));
                let r = fx.api.put(&tok, &format!("{path}/{id}"), &b)?.want(200, &format!("updating {kind} {id} by {b}"))?;
                let mut want = model[&(p, kind)][&id].clone();
                for (k, v) in b.as_object().unwrap() {
                    want[k.as_str()] = v.clone();
                }
                want["updatedBy"] = json!(fx.accs[a].id);
                let j = r.j()?.clone();
                ensure_eq!(plain(&j), plain(&want), "updating {kind} {id} by {b}: the answer");
                ensure!((now - 2..=now + 2).contains(&secs(&j["updatedAt"])), "updating {kind} {id}: the time of {}", r.short());
                ensure!(secs(&j["createdAt"]) == secs(&want["createdAt"]), "updating {kind} {id}: created at {} instead of {}", j["createdAt"], want["createdAt"]);
                if kind == "project" {
                    ensure!(j["sdkToken"] == want["sdkToken"], "updating project {id}: its token is {} instead of {}", j["sdkToken"], want["sdkToken"]);
                }
                model.get_mut(&(p, kind)).unwrap().insert(id, j);
                changed += 1;
            }
            2 if !ids.is_empty() && kind != "project" => {
                let id = *s.pick(&ids);
                let was = model[&(p, kind)][&id].clone();
                c.note(format!("{a} DELETE {path}/{id}"));
                let r = fx.api.delete(&tok, &format!("{path}/{id}"))?.want(200, &format!("deleting {kind} {id}"))?;
                ensure_eq!(plain(r.j()?), plain(&was), "deleting {kind} {id}: the answer");
                let r = fx.api.get(&tok, &format!("{path}/{id}"))?;
                ensure!(r.status == 404, "{kind} {id} after deleting it: status {} {}", r.status, r.short());
                let r = fx.api.put(&tok, &format!("{path}/{id}"), &json!({"description": "x"}))?;
                ensure!(r.status == 404, "updating {kind} {id} after deleting it: status {} {}", r.status, r.short());
                model.get_mut(&(p, kind)).unwrap().remove(&id);
                gone += 1;
            }
            3 if kind == "event" && !ids.is_empty() => {
                let id = *s.pick(&ids);
                let props: Vec<u64> = model[&(p, "property")].keys().copied().collect();
                let x = *s.pick(&props);
                let on = s.chance(2, 3);
                let url = format!("{path}/{id}/properties/{x}");
                let mut l: Vec<u64> = model[&(p, kind)][&id]["eventProperties"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
                let had = l.contains(&x);
                c.note(format!("{a} {} {url}", if on { "POST" } else { "DELETE" }));
                let r = fx.api.call(&tok, if on { "POST" } else { "DELETE" }, &url, None)?;
                if on == had {
                    ensure!((400..500).contains(&r.status), "{url} {on} again: status {} {}", r.status, r.short());
                    continue;
                }
                let r = r.want(200, &url)?;
                if on {
                    l.push(x);
                } else {
                    l.retain(|y| *y != x);
                }
                let mut got: Vec<u64> = r.j()?["eventProperties"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
                got.sort();
                l.sort();
                ensure_eq!(got, l, "{url} {on}");
                let m = model.get_mut(&(p, kind)).unwrap();
                m.insert(id, r.j()?.clone());
                changed += 1;
            }
            _ => {
                // by name
                let Some(id) = (!ids.is_empty()).then(|| *s.pick(&ids)) else { continue };
                if !["event", "property", "group property"].contains(&kind) {
                    continue;
                }
                let was = &model[&(p, kind)][&id];
                let name = was["name"].as_str().unwrap_or_default();
                let enc: String = name.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect();
                let r = fx.api.get(&tok, &format!("{path}/name/{enc}"))?.want(200, &format!("{kind} {name:?}"))?;
                ensure_eq!(plain(r.j()?), plain(was), "{kind} by the name {name:?}");
            }
        }
        // all of it is there, and nothing else
        let mut at: Vec<(usize, &str)> = model.keys().copied().collect();
        if step % 4 != 3 {
            at.retain(|x| *x == (p, kind));
        }
        for (p, kind) in at {
            let path = base(&fx, p, kind);
            let r = fx.api.get(&tok, &path)?.want(200, &path)?;
            let mut got = BTreeMap::new();
            for x in r.j()?["data"].as_array().ok_or("no list")? {
                let id = x["id"].as_u64().unwrap_or(0);
                ensure!(got.insert(id, plain(x)).is_none(), "{path} lists {id} twice");
            }
            let want: BTreeMap<u64, J> = model[&(p, kind)].iter().map(|(k, v)| (*k, plain(v))).collect();
            ensure!(got.keys().eq(want.keys()), "{path}: {:?} instead of {:?}", got.keys(), want.keys());
            for (id, w) in &want {
                ensure_eq!(&got[id], w, "{path}: {id} in the list");
            }
            if let Some(id) = want.keys().copied().collect::<Vec<_>>().get(step % want.len().max(1)) {
                let r = fx.api.get(&tok, &format!("{path}/{id}"))?.want(200, &path)?;
                ensure_eq!(&plain(r.j()?), &want[id], "{path}/{id}");
                if kind == "project" {
                    ensure!(r.j()?["sdkToken"] == model[&(p, kind)][id]["sdkToken"], "the token of project {id}");
                }
            }
        }
        for (a, p, id, q) in &bookmarks {
            let r = fx.api.get(&fx.token(*a, Some(0)), &format!("/api/v1/projects/{}/bookmarks/{id}", fx.projects[*p].id))?.want(200, "a bookmark")?;
            ensure_eq!(gen::canon(&r.j()?["query"]), gen::canon(q), "bookmark {id}");
        }
    }
    c.nontrivial(made > 0 && changed > 0 && made + changed + gone > 3);
    Ok(())
}
