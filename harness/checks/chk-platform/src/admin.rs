//! What the administration interface stores: settings, organizations, accounts and groups.
use std::collections::BTreeMap;
use std::path::Path;

use proputil::*;
use serde_json::{json, Value as J};

use crate::api::*;
use crate::fix::*;
use crate::gen;

/// texts of settings, and whether they are secret
const TEXTS: [(&str, bool); 12] = [
    ("authAccessToken", true),
    ("authRefreshToken", true),
    ("authAdminDefaultPassword", true),
    ("backupEncryptionPassword", true),
    ("backupProviderS3Bucket", false),
    ("backupProviderS3Path", false),
    ("backupProviderS3Region", false),
    ("backupProviderS3AccessKey", false),
    ("backupProviderS3SecretKey", true),
    ("backupProviderGcpBucket", false),
    ("backupProviderGcpPath", false),
    ("backupProviderGcpKey", true),
];
const SETTINGS: &str = "/api/v1/admin/settings";

fn valid(m: &J) -> bool {
    let has = |k: &str| !m[k].as_str().unwrap_or("").is_empty();
    if m["backupEncryptionEnabled"] == json!(true) && !has("backupEncryptionPassword") {
        return false;
    }
    if m["backupScheduleStartHour"].as_u64().unwrap_or(0) > 23 {
        return false;
    }
    match m["backupProvider"].as_str() {
        Some("s3") => ["Bucket", "Region", "AccessKey", "SecretKey"].iter().all(|k| has(&format!("backupProviderS3{k}"))),
        Some("gcp") => has("backupProviderGcpBucket") && has("backupProviderGcpKey"),
        _ => true,
    }
}
fn shown(m: &J) -> J {
    let mut m = m.clone();
    for (k, secret) in TEXTS {
        if secret {
            m.as_object_mut().unwrap().remove(k);
        }
    }
    gen::canon(&m)
}
fn stored(fx: &Fx) -> Result<J, String> {
    use metadata::settings::*;
    let v = fx.api.md().settings.load().map_err(e2s)?;
    Ok(gen::canon(&json!({
        "authAccessToken": v.auth_access_token, "authRefreshToken": v.auth_refresh_token,
        "authAdminDefaultPassword": v.auth_admin_default_password, "backupEnabled": v.backup_enabled,
        "backupEncryptionEnabled": v.backup_encryption_enabled, "backupEncryptionPassword": v.backup_encryption_password,
        "backupCompressionEnabled": v.backup_compression_enabled,
        "backupProvider": match v.backup_provider { BackupProvider::Local => "local", BackupProvider::S3 => "s3", BackupProvider::GCP => "gcp" },
        "backupProviderS3Bucket": v.backup_provider_s3_bucket, "backupProviderS3Path": v.backup_provider_s3_path,
        "backupProviderS3Region": v.backup_provider_s3_region, "backupProviderS3AccessKey": v.backup_provider_s3_access_key,
        "backupProviderS3SecretKey": v.backup_provider_s3_secret_key, "backupProviderGcpBucket": v.backup_provider_gcp_bucket,
        "backupProviderGcpPath": v.backup_provider_gcp_path, "backupProviderGcpKey": v.backup_provider_gcp_key,
        "backupScheduleInterval": match v.backup_schedule_interval {
            BackupScheduleInterval::Hourly => "hourly", BackupScheduleInterval::Daily => "daily", BackupScheduleInterval::Weekly => "weekly",
            BackupScheduleInterval::Monthly => "monthly", BackupScheduleInterval::Yearly => "yearly" },
        "backupScheduleStartHour": v.backup_schedule_start_hour,
    })))
}

fn roles<'a>(s: &mut Src, ids: &[u64], names: &[&'a str]) -> J {
    let mut l = vec![];
    for i in ids {
        if s.chance(1, 2) {
            l.push(json!([i, *s.pick(names)]));
        }
    }
    J::Array(l)
}

fn of_known(a: &J, orgs: &BTreeMap<u64, J>) -> J {
    let mut a = a.clone();
    if let Some(l) = a.get_mut("organizations").and_then(|l| l.as_array_mut()) {
        l.retain(|x| orgs.contains_key(&(x[0].as_f64().unwrap_or(0.) as u64)));
    }
    gen::canon(&a)
}

pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let orgs0 = s.us(1, 2);
    let fx = Fx::new(root, s, orgs0, orgs0, 1)?;
    let mut tok = fx.token(0, None);
    let md = fx.api.md();
    let mut set = stored(&fx)?;
    let list = |tok: &str, url: &str| -> Result<BTreeMap<u64, J>, String> {
        let r = fx.api.get(tok, url)?.want(200, url)?;
        Ok(r.j()?["data"].as_array().ok_or("no list")?.iter().map(|x| (x["id"].as_u64().unwrap_or(0), x.clone())).collect())
    };
    let no_time = |j: &J| {
        let mut j = j.clone();
        for k in ["createdAt", "updatedAt", "created_at", "updated_at"] {
            j.as_object_mut().map(|o| o.remove(k));
        }
        gen::canon(&j)
    };
    const ORGS: &str = "/api/v1/organizations";
    const ACCS: &str = "/api/v1/accounts";
    let mut orgs: BTreeMap<u64, J> = list(&tok, ORGS)?.into_iter().map(|(k, v)| (k, no_time(&v))).collect();
    let mut accs: BTreeMap<u64, J> = list(&tok, ACCS)?.into_iter().map(|(k, v)| (k, no_time(&v))).collect();
    let me = fx.accs[0].id;
    let mut groups: Vec<Vec<(String, u64)>> = vec![];
    for p in &fx.projects {
        let l = list(&tok, &format!("/api/v1/projects/{}/groups", p.id))?;
        groups.push(l.into_iter().map(|(k, v)| (v["name"].as_str().unwrap_or("").to_string(), k)).collect());
    }
    let (mut changes, mut refused) = (0, 0);
    for step in 0..s.us(5, 16) {
        match s.weighted(&[4, 3, 4, 2]) {
            0 => {
                let mut b = json!({});
                let full = s.chance(1, 3);
                for (k, _) in TEXTS {
                    if full || s.chance(1, 4) {
                        let t = if s.chance(1, 6) { String::new() } else { format!("{k}{}", s.string(3)) };
                        b[k] = json!(t);
                    }
                }
                for k in ["backupEnabled", "backupEncryptionEnabled", "backupCompressionEnabled"] {
                    if full || s.chance(1, 4) {
                        b[k] = json!(s.bool());
                    }
                }
                if full || s.chance(1, 3) {
                    b["backupProvider"] = json!(*s.pick(&["local", "s3", "gcp"]));
                }
                if full || s.chance(1, 3) {
                    b["backupScheduleInterval"] = json!(*s.pick(&["hourly", "daily", "weekly", "monthly", "yearly"]));
                }
                if full || s.chance(1, 3) {
                    b["backupScheduleStartHour"] = json!(s.us(0, 25));
                }
                let mut want = set.clone();
                for (k, v) in b.as_object().unwrap() {
                    want[k.as_str()] = gen::canon(v);
                }
                c.note(format!("PUT {SETTINGS} {b}"));
                let r = fx.api.put(&tok, SETTINGS, &b)?;
                let v = json!({"backupScheduleStartHour": want["backupScheduleStartHour"].as_f64().map(|x| x as u64)});
                let mut w = want.clone();
                w["backupScheduleStartHour"] = v["backupScheduleStartHour"].clone();
                if valid(&w) {
                    let r = r.want(200, &format!("setting {b}"))?;
                    ensure_eq!(gen::canon(r.j()?), shown(&want), "setting {b}: the answer");
                    if want["authAccessToken"] != set["authAccessToken"] {
                        let r = fx.api.get(&tok, SETTINGS)?;
                        ensure!(r.status == 401, "a token signed by the key there was before: status {}", r.status);
                        tok = token(me, 0, 600, want["authAccessToken"].as_str().unwrap());
                    }
                    set = want;
                    changes += 1;
                } else {
                    ensure!(r.status == 400, "setting {b}: status {} {}", r.status, r.short());
                    refused += 1;
                }
            }
            1 => {
                let name = format!("org {step} {}", s.string(3));
                let ids: Vec<u64> = orgs.keys().copied().collect();
                let k = s.weighted(&[2, 2, 1]);
                if k == 0 || ids.is_empty() {
                    let taken = s.chance(1, 5) && !ids.is_empty();
                    let name = if taken { orgs[s.pick(&ids)]["name"].as_str().unwrap().to_string() } else { name };
                    c.note(format!("POST {ORGS} {name:?}"));
                    let r = fx.api.post(&tok, ORGS, &json!({"name": name}))?;
                    if taken {
                        ensure!(r.status == 409, "a second organization {name:?}: status {} {}", r.status, r.short());
                        refused += 1;
                    } else {
                        let r = r.want(201, "an organization")?;
                        let id = r.id()?;
                        let want = gen::canon(&json!({"id": id, "createdBy": me, "name": name}));
                        ensure_eq!(no_time(r.j()?), want, "creating organization {name:?}: the answer");
                        // who creates it owns it
                        let mut own = accs[&me]["organizations"].as_array().cloned().unwrap_or_default();
                        own.push(gen::canon(&json!([id, "Owner"])));
                        accs.get_mut(&me).unwrap()["organizations"] = J::Array(own);
                        ensure!(orgs.insert(id, want).is_none(), "organization {name:?} has the identifier {id} of another");
                        changes += 1;
                    }
                } else if k == 1 {
                    let id = *s.pick(&ids);
                    let taken = s.chance(1, 4);
                    let of = *s.pick(&ids);
                    let name = if taken { orgs[&of]["name"].as_str().unwrap().to_string() } else { name };
                    c.note(format!("PUT {ORGS}/{id} {name:?}"));
                    let b = if s.chance(1, 6) { json!({}) } else { json!({"name": name}) };
                    let r = fx.api.put(&tok, &format!("{ORGS}/{id}"), &b)?;
                    if taken && of != id && b.get("name").is_some() {
                        ensure!(r.status == 409, "naming organization {id} {name:?}: status {} {}", r.status, r.short());
                        refused += 1;
                    } else {
                        let r = r.want(200, &format!("organization {id} {b}"))?;
                        let w = orgs.get_mut(&id).unwrap();
                        if b.get("name").is_some() {
                            w["name"] = json!(name);
                        }
                        w["updatedBy"] = gen::canon(&json!(me));
                        ensure_eq!(&no_time(r.j()?), &*w, "updating organization {id} by {b}: the answer");
                        changes += 1;
                    }
                } else {
                    let id = *s.pick(&ids);
                    c.note(format!("DELETE {ORGS}/{id}"));
                    fx.api.delete(&tok, &format!("{ORGS}/{id}"))?.want(200, "deleting an organization")?;
                    let w = orgs.remove(&id).unwrap();
                    // no role of an organization that is gone is compared
                    for a in accs.values_mut() {
                        *a = of_known(a, &orgs);
                    }
                    let r = fx.api.get(&tok, &format!("{ORGS}/{id}"))?;
                    ensure!(r.status == 404, "organization {w} after deleting it: status {} {}", r.status, r.short());
                    changes += 1;
                }
            }
            2 => {
                let ids: Vec<u64> = accs.keys().copied().filter(|x| *x != me).collect();
                let oids: Vec<u64> = orgs.keys().copied().collect();
                let pids: Vec<u64> = fx.projects.iter().map(|p| p.id).collect();
                let k = s.weighted(&[3, 3, 1]);
                let mut b = json!({});
                let e = if s.chance(1, 6) { accs[s.pick(&accs.keys().copied().collect::<Vec<_>>())]["email"].as_str().unwrap().to_string() } else { format!("u{step}@x.y") };
                let holder = accs.iter().find(|x| x.1["email"] == json!(e)).map(|x| *x.0);
                let all = k == 0 || ids.is_empty();
                for (f, v) in [
                    ("email", json!(e)),
                    ("name", if s.chance(1, 3) { J::Null } else { json!(s.string(5)) }),
                    ("role", if s.chance(1, 6) { json!("Admin") } else { J::Null }),
                    ("organizations", if s.chance(1, 6) { J::Null } else { roles(s, &oids, &["Owner", "Admin", "Member"]) }),
                    ("projects", if s.chance(1, 6) { J::Null } else { roles(s, &pids, &["Owner", "Admin", "Member", "Reader"]) }),
                    ("teams", if s.bool() { J::Null } else { json!([[7, "Admin"]]) }),
                ] {
                    if all || s.chance(1, 3) {
                        b[f] = v;
                    }
                }
                if all {
                    b["password"] = json!(format!("pass word {step} of it"));
                    for (f, g) in [("forceUpdatePassword", "force_update_password"), ("forceUpdateEmail", "force_update_email")] {
                        let v = s.bool();
                        b[f] = json!(v);
                        b[g] = json!(v);
                    }
                    c.note(format!("POST {ACCS} {b}"));
                    let r = fx.api.post(&tok, ACCS, &b)?;
                    if holder.is_some() {
                        ensure!(r.status == 409, "a second account of {e:?}: status {} {}", r.status, r.short());
                        refused += 1;
                        continue;
                    }
                    let r = r.want(201, &format!("creating account {b}"))?;
                    let id = r.id()?;
                    let mut want = b.clone();
                    for f in ["password", "forceUpdatePassword", "forceUpdateEmail"] {
                        want.as_object_mut().unwrap().remove(f);
                    }
                    want["id"] = json!(id);
                    want["created_by"] = json!(me);
                    let want = gen::canon(&want);
                    ensure_eq!(no_time(r.j()?), want, "creating account {b}: the answer");
                    ensure!(accs.insert(id, want).is_none(), "account {b} has the identifier {id} of another");
                    changes += 1;
                } else if k == 1 {
                    let id = *s.pick(&ids);
                    c.note(format!("PUT {ACCS}/{id} {b}"));
                    let r = fx.api.put(&tok, &format!("{ACCS}/{id}"), &b)?;
                    if b.get("email").is_some() && holder.is_some_and(|h| h != id) {
                        ensure!(r.status == 409, "account {id} with the email {e:?} of another: status {} {}", r.status, r.short());
                        refused += 1;
                        continue;
                    }
                    let r = r.want(200, &format!("updating account {id} by {b}"))?;
                    let w = accs.get_mut(&id).unwrap();
                    for (k, v) in b.as_object().unwrap() {
                        w[k.as_str()] = v.clone();
                    }
                    w["updated_by"] = json!(me);
                    *w = gen::canon(w);
                    ensure_eq!(&of_known(&no_time(r.j()?), &orgs), &*w, "updating account {id} by {b}: the answer");
                    changes += 1;
                } else {
                    let id = *s.pick(&ids);
                    c.note(format!("DELETE {ACCS}/{id}"));
                    fx.api.delete(&tok, &format!("{ACCS}/{id}"))?.want(200, "deleting an account")?;
                    accs.remove(&id);
                    let r = fx.api.get(&tok, &format!("{ACCS}/{id}"))?;
                    ensure!(r.status == 404, "account {id} after deleting it: status {} {}", r.status, r.short());
                    changes += 1;
                }
            }
            _ => {
                let p = s.us(0, fx.projects.len() - 1);
                let url = format!("/api/v1/projects/{}/groups", fx.projects[p].id);
                let known: Vec<String> = groups[p].iter().map(|g| g.0.clone()).collect();
                let name = if s.chance(1, 3) && !known.is_empty() { s.pick(&known).clone() } else { format!("group {step}") };
                let at = groups[p].iter().find(|g| g.0 == name).map(|g| g.1);
                c.note(format!("POST {url} {name:?}"));
                let r = fx.api.post(&tok, &url, &json!({"name": name, "displayName": "shown"}))?;
                if at.is_none() && groups[p].len() >= common::GROUPS_COUNT {
                    ensure!((400..500).contains(&r.status), "group {name:?} past {}: status {} {}", common::GROUPS_COUNT, r.status, r.short());
                    refused += 1;
                    continue;
                }
                ensure!(r.ok(), "group {name:?}: status {} {}", r.status, r.short());
                let id = r.j()?["id"].as_u64().ok_or("no id")?;
                ensure!(r.j()?["name"] == json!(name), "group {name:?}: {}", r.short());
                match at {
                    Some(x) => ensure!(x == id, "group {name:?} is {x}, and then {id}"),
                    None => {
                        ensure!(groups[p].iter().all(|g| g.1 != id), "group {name:?} has the identifier {id} of another");
                        groups[p].push((name, id));
                        changes += 1;
                    }
                }
            }
        }
        let r = fx.api.get(&tok, SETTINGS)?.want(200, "settings")?;
        ensure_eq!(gen::canon(r.j()?), shown(&set), "settings");
        ensure_eq!(stored(&fx)?, set, "settings stored");
        for (url, m) in [(ORGS, &orgs), (ACCS, &accs)] {
            let got: BTreeMap<u64, J> = list(&tok, url)?.into_iter().map(|(k, v)| (k, of_known(&no_time(&v), &orgs))).collect();
            ensure_eq!(&got, m, "{url}");
            let ids: Vec<u64> = m.keys().copied().collect();
            if !ids.is_empty() {
                let id = ids[step % ids.len()];
                let r = fx.api.get(&tok, &format!("{url}/{id}"))?.want(200, url)?;
                ensure_eq!(&of_known(&no_time(r.j()?), &orgs), &m[&id], "{url}/{id}");
            }
        }
        for (p, g) in groups.iter().enumerate() {
            let l = list(&tok, &format!("/api/v1/projects/{}/groups", fx.projects[p].id))?;
            let mut got: Vec<(String, u64)> = l.into_iter().map(|(k, v)| (v["name"].as_str().unwrap_or("").to_string(), k)).collect();
            got.sort();
            let mut w = g.clone();
            w.sort();
            ensure_eq!(got, w, "groups of project {p}");
        }
    }
    c.nontrivial(changes > 3);
    c.label(if refused > 0 { "refused" } else { "none refused" });
    Ok(())
}
