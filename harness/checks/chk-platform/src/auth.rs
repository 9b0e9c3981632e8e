//! Accounts and their tokens: against a model of accounts, passwords and memberships.
use std::path::Path;

use common::rbac::OrganizationRole as OR;
use metadata::accounts::CreateAccountRequest;
use metadata::organizations::CreateOrganizationRequest;
use proputil::*;
use serde_json::{json, Value as J};

use crate::api::*;

#[derive(Clone, Debug)]
struct A {
    id: u64,
    email: String,
    name: Option<String>,
    password: Option<String>,
    fup: bool,
    fue: bool,
    orgs: Vec<(u64, OR)>,
    alive: bool,
}

const GOOD: [&str; 4] = ["a long passphrase", "Correct-Horse-9", "xK3!vbQm2#pL", "ünïcödé secret words"];
const WEAK: [&str; 4] = ["aaaaaaaa", "1", "", "abab"];
const BAD_EMAIL: [&str; 5] = ["nobody", "", "@x.com", "a b@x.com", "a@"];

struct W<'a> {
    api: &'a Api,
    accs: Vec<A>,
    orgs: Vec<u64>,
    admin: u64,
    /// refresh tokens that were given out
    refresh: Vec<(usize, String)>,
    passwords: Vec<String>,
}

fn field(r: &Resp, f: &str) -> bool {
    r.json.as_ref().map_or(false, |j| {
        let norm = |k: &str| k.replace('_', "").to_lowercase();
        fn any(j: &J, f: &dyn Fn(&str) -> bool) -> bool {
            match j {
                J::Object(m) => m.iter().any(|(k, v)| f(k) || any(v, f)),
                J::Array(l) => l.iter().any(|v| any(v, f)),
                _ => false,
            }
        }
        any(j, &|k| norm(k) == norm(f))
    })
}

impl<'a> W<'a> {
    fn decode(&self, t: &str, key: &str) -> Result<J, String> {
        let mut v = jsonwebtoken::Validation::new(jsonwebtoken::Algorithm::HS512);
        v.leeway = 0;
        Ok(jsonwebtoken::decode::<J>(t, &jsonwebtoken::DecodingKey::from_secret(key.as_bytes()), &v).map_err(|e| format!("token {t}: {e}"))?.claims)
    }
    /// The tokens of an answer are those of the account in the organization.
    fn tokens(&mut self, r: &Resp, a: usize, org: u64, cookie: bool, what: &str) -> R {
        let j = r.j()?;
        let (acc, rf) = (j["accessToken"].as_str().unwrap_or_default().to_string(), j["refreshToken"].as_str().unwrap_or_default().to_string());
        let now = chrono::Utc::now().timestamp();
        let c = self.decode(&acc, ACCESS_KEY)?;
        ensure!(c["accountId"] == json!(self.accs[a].id), "{what}: the token is of account {} instead of {}", c["accountId"], self.accs[a].id);
        ensure!(c["organizationId"] == json!(org), "{what}: the token is of organization {} instead of {org}", c["organizationId"]);
        let exp = c["exp"].as_i64().unwrap_or(0) - now;
        ensure!((3590..=3600).contains(&exp), "{what}: the access token lasts {exp} s");
        let c = self.decode(&rf, REFRESH_KEY)?;
        ensure!(c["accountId"] == json!(self.accs[a].id), "{what}: the refresh token is of account {}", c["accountId"]);
        let exp = c["exp"].as_i64().unwrap_or(0) - now;
        ensure!((86390..=86400).contains(&exp), "{what}: the refresh token lasts {exp} s");
        if cookie {
            ensure!(r.cookies.get("refresh_token") == Some(&rf), "{what}: the cookie is {:?}", r.cookies);
        }
        let p = self.api.get(&acc, "/api/v1/profile")?.want(200, &format!("{what}: the profile with the token"))?;
        ensure_eq!(
            p.j()?.clone(),
            json!({"name": self.accs[a].name, "email": self.accs[a].email, "forceUpdatePassword": self.accs[a].fup, "forceUpdateEmail": self.accs[a].fue}),
            "{what}: the profile with the token"
        );
        self.refresh.push((a, rf));
        Ok(())
    }
    fn taken(&self, email: &str) -> bool {
        self.accs.iter().any(|a| a.alive && a.email == email)
    }
    fn first_org(&self, a: usize) -> u64 {
        self.orgs.iter().copied().find(|o| self.accs[a].orgs.iter().any(|x| x.0 == *o)).unwrap_or(0)
    }
    fn check(&self) -> R {
        let l = self.api.md().accounts.list().map_err(e2s)?.data;
        let want: Vec<_> = self.accs.iter().filter(|a| a.alive).map(|a| (a.id, a.email.clone(), a.name.clone(), a.fup, a.fue)).collect();
        let mut got: Vec<_> = l.into_iter().filter(|a| a.id != self.admin).map(|a| (a.id, a.email, a.name, a.force_update_password, a.force_update_email)).collect();
        got.sort();
        ensure_eq!(got, want, "accounts");
        Ok(())
    }
}

fn email(s: &mut Src, w: &W) -> String {
    match s.weighted(&[5, 3, 2]) {
        0 => format!("user{}@example.com", s.us(0, 5)),
        1 if !w.accs.is_empty() => s.pick(&w.accs).email.clone(),
        _ => s.pick(&BAD_EMAIL).to_string(),
    }
}
fn password(s: &mut Src) -> String {
    if s.chance(1, 4) { s.pick(&WEAK).to_string() } else { s.pick(&GOOD).to_string() }
}
fn bad_email(e: &str) -> bool {
    BAD_EMAIL.contains(&e)
}
fn weak(p: &str) -> bool {
    WEAK.contains(&p)
}

pub fn case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let api = Api::new(root)?;
    let admin = api
        .md()
        .accounts
        .create(CreateAccountRequest {
            created_by: 0,
            password_hash: "none".into(),
            email: "root@example.com".into(),
            name: None,
            force_update_password: false,
            force_update_email: false,
            role: Some(common::rbac::Role::Admin),
            organizations: None,
            projects: None,
            teams: None,
        })
        .map_err(e2s)?
        .id;
    let root_token = token(admin, 0, 3600, ACCESS_KEY);
    let mut w = W { api: &api, accs: vec![], orgs: vec![], admin, refresh: vec![], passwords: vec![] };
    for i in 0..s.us(1, 3) {
        let o = api.md().organizations.create(CreateOrganizationRequest { created_by: admin, name: format!("organization {i}") }).map_err(e2s)?;
        w.orgs.push(o.id);
    }
    let (mut changed, mut logged, mut refused) = (0, 0, 0);
    for _ in 0..s.us(6, 30) {
        let alive: Vec<usize> = (0..w.accs.len()).filter(|a| w.accs[*a].alive).collect();
        let k = if alive.is_empty() { s.us(0, 1) } else { s.weighted(&[2, 3, 8, 3, 2, 2, 3, 3, 2, 2, 2, 2]) };
        let a = if alive.is_empty() { 0 } else { *s.pick(&alive) };
        let tok_org = s.pick(&w.orgs).clone();
        let tok = if alive.is_empty() { String::new() } else { token(w.accs[a].id, tok_org, 600, ACCESS_KEY) };
        match k {
            0 => {
                let (e, p) = (email(s, &w), password(s));
                let rep = if s.chance(1, 5) { password(s) } else { p.clone() };
                let name = s.opt(|s| s.string(5));
                c.note(format!("sign up {e} {p:?} {rep:?} {name:?}"));
                let r = api.post("", "/api/v1/auth/signup", &json!({"email": e, "password": p, "passwordRepeat": rep, "name": name}))?;
                let what = format!("sign up {e:?} {p:?} {rep:?}");
                if bad_email(&e) {
                    ensure!(r.status == 400, "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else if weak(&p) || p != rep {
                    ensure!(r.status == 400 && field(&r, "password") | field(&r, "passwordRepeat"), "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else if w.taken(&e) {
                    ensure!(r.status == 409, "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else {
                    let r = r.want(201, &what)?;
                    let id = api.md().accounts.get_by_email(&e).map_err(e2s)?.id;
                    ensure!(w.accs.iter().all(|a| a.id != id), "{what}: the id of another account");
                    w.accs.push(A { id, email: e, name, password: Some(p.clone()), fup: false, fue: false, orgs: vec![], alive: true });
                    w.passwords.push(p);
                    w.tokens(&r, w.accs.len() - 1, 0, true, &what)?;
                }
            }
            1 => {
                let e = format!("made{}@example.com", s.us(0, 4));
                let p = password(s);
                let (fup, fue) = (s.bool(), s.bool());
                let mut orgs = vec![];
                for o in &w.orgs {
                    if s.bool() {
                        orgs.push((*o, s.pick(&[OR::Owner, OR::Admin, OR::Member]).clone()));
                    }
                }
                c.note(format!("create {e} {p:?} {fup} {fue} {orgs:?}"));
                let r = api.post(&root_token, "/api/v1/accounts", &json!({"email": e, "password": p, "forceUpdatePassword": fup, "forceUpdateEmail": fue, "organizations": orgs}))?;
                if w.taken(&e) {
                    ensure!(r.status == 409, "creating {e} twice: status {} {}", r.status, r.short());
                    refused += 1;
                } else {
                    let id = r.want(201, "an account")?.id()?;
                    w.accs.push(A { id, email: e, name: None, password: Some(p.clone()), fup, fue, orgs, alive: true });
                    w.passwords.push(p);
                }
            }
            2 => {
                // with this password, a former one, another's
                let a = s.us(0, w.accs.len() - 1);
                let x = w.accs[a].clone();
                let p = if s.chance(2, 3) { x.password.clone().unwrap_or_default() } else { s.pick(&w.passwords).clone() };
                let e = if s.chance(1, 8) { "stranger@example.com".to_string() } else { x.email.clone() };
                let cookie = match s.weighted(&[3, 3, 1, 1]) {
                    0 => None,
                    1 => Some(s.pick(&w.orgs).to_string()),
                    2 => Some("9999".to_string()),
                    _ => Some("nonsense".to_string()),
                };
                c.note(format!("log in {e} {p:?} cookie {cookie:?}"));
                let r = api.raw(&Call {
                    method: "POST",
                    path: "/api/v1/auth/login".into(),
                    cookies: cookie.iter().map(|c| ("organization_id".to_string(), c.clone())).collect(),
                    body: Some(serde_json::to_vec(&json!({"email": e, "password": p})).unwrap()),
                    ..Default::default()
                })?;
                // the email may be one another account took since
                let Some(a) = (0..w.accs.len()).find(|i| w.accs[*i].alive && w.accs[*i].email == e && w.accs[*i].password.as_ref() == Some(&p)) else {
                    ensure!(r.status == 401, "log in {e} with {p:?}: status {} {}", r.status, r.short());
                    ensure!(r.cookies.is_empty() && r.j()?.get("accessToken").is_none(), "a refused log in gives {} {:?}", r.short(), r.cookies);
                    refused += 1;
                    continue;
                };
                let r = r.want(200, &format!("log in {e} {p:?} {cookie:?}"))?;
                let org = match cookie.as_ref().map(|c| c.parse::<u64>()) {
                    Some(Ok(o)) => w.accs[a].orgs.iter().find(|x| x.0 == o && w.orgs.contains(&o)).map_or(0, |x| x.0),
                    _ => w.first_org(a),
                };
                w.tokens(&r, a, org, true, &format!("log in {e} cookie {cookie:?}"))?;
                logged += 1;
            }
            3 => {
                let kinds = ["given", "given", "cookie", "expired", "foreign", "access", "none", "garbage"];
                let k = *s.pick(&kinds);
                let (of, t) = match k {
                    "given" | "cookie" if !w.refresh.is_empty() => s.pick(&w.refresh).clone(),
                    "expired" => (a, refresh(w.accs[a].id, -3600, REFRESH_KEY)),
                    "foreign" => (a, refresh(w.accs[a].id, 600, ACCESS_KEY)),
                    "access" => (a, tok.clone()),
                    "none" => (a, String::new()),
                    "garbage" => (a, "x.y.z".to_string()),
                    _ => (a, refresh(w.accs[a].id, 600, REFRESH_KEY)),
                };
                c.note(format!("refresh {k} of {of} by {a}"));
                let body = match k {
                    "none" => json!({}),
                    // the cookie comes first
                    "cookie" => json!({"refreshToken": "x.y.z"}),
                    _ => json!({"refreshToken": t}),
                };
                let r = api.raw(&Call {
                    method: "POST",
                    path: "/api/v1/auth/refresh-token".into(),
                    token: Some(format!("Bearer {tok}")),
                    cookies: if k == "cookie" { vec![("refresh_token".to_string(), t)] } else { vec![] },
                    body: Some(serde_json::to_vec(&body).unwrap()),
                    ..Default::default()
                })?;
                match k {
                    "given" | "cookie" => {
                        if w.accs[of].alive {
                            let r = r.want(200, "refresh")?;
                            w.tokens(&r, of, tok_org, true, "refresh")?;
                        }
                    }
                    "none" => ensure!(r.status == 400, "refresh without a token: status {}", r.status),
                    k => {
                        ensure!(r.status == 401, "refresh with a token that is {k}: status {} {}", r.status, r.short());
                        refused += 1;
                    }
                }
            }
            4 => {
                let o = if s.chance(1, 4) { 9999 } else { *s.pick(&w.orgs) };
                c.note(format!("switch {a} to {o}"));
                let r = api.post(&tok, &format!("/api/v1/auth/switch-organization/{o}"), &json!({}))?;
                if w.accs[a].orgs.iter().any(|x| x.0 == o && x.1 == OR::Owner) {
                    let r = r.want(200, "switching the organization")?;
                    w.tokens(&r, a, o, true, "switching the organization")?;
                } else {
                    ensure!(r.status == 403, "{:?} switches to {o}: status {} {}", w.accs[a], r.status, r.short());
                    refused += 1;
                }
            }
            5 => {
                let name = s.string(4);
                c.note(format!("name {a} {name:?}"));
                let r = api.put(&tok, "/api/v1/profile/name", &json!({"name": name}))?;
                if name.is_empty() {
                    ensure!(r.status == 400 && field(&r, "name"), "an empty name: status {} {}", r.status, r.short());
                    refused += 1;
                } else {
                    r.want(200, "the name")?;
                    w.accs[a].name = Some(name);
                    changed += 1;
                }
            }
            6 | 7 => {
                let right = w.accs[a].password.clone().unwrap_or_default();
                let cur = if s.chance(1, 3) { s.pick(&w.passwords).clone() } else { right.clone() };
                if k == 6 {
                    let e = email(s, &w);
                    c.note(format!("email {a} {e} {cur:?}"));
                    let r = api.put(&tok, "/api/v1/profile/email", &json!({"email": e, "password": cur}))?;
                    let what = format!("email {e:?} of {:?} with {cur:?}", w.accs[a]);
                    let own = w.accs[a].email == e;
                    if bad_email(&e) || cur != right || w.taken(&e) && !own {
                        ensure!(r.status == 400 && field(&r, "email") | field(&r, "password"), "{what}: status {} {}", r.status, r.short());
                        refused += 1;
                    } else if r.ok() || !own {
                        let r = r.want(200, &what)?;
                        w.accs[a].email = e;
                        w.tokens(&r, a, tok_org, false, &what)?;
                        changed += 1;
                    }
                } else {
                    let p = password(s);
                    c.note(format!("password {a} {cur:?} {p:?}"));
                    let r = api.put(&tok, "/api/v1/profile/password", &json!({"password": cur, "newPassword": p}))?;
                    let what = format!("password {p:?} of {:?} with {cur:?}", w.accs[a]);
                    if cur != right || weak(&p) {
                        ensure!(r.status == 400 && field(&r, "password"), "{what}: status {} {}", r.status, r.short());
                        refused += 1;
                    } else {
                        let r = r.want(200, &what)?;
                        w.accs[a].password = Some(p.clone());
                        w.passwords.push(p);
                        w.tokens(&r, a, tok_org, false, &what)?;
                        changed += 1;
                    }
                }
            }
            8 => {
                let p = password(s);
                c.note(format!("set password {a} {p:?}"));
                let r = api.put(&tok, "/api/v1/profile/set-password", &json!({"password": p}))?;
                let what = format!("set password {p:?} of {:?}", w.accs[a]);
                if !w.accs[a].fup {
                    ensure!(r.status == 403, "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else if weak(&p) {
                    ensure!(r.status == 400, "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else {
                    let r = r.want(200, &what)?;
                    w.accs[a].password = Some(p.clone());
                    w.accs[a].fup = false;
                    w.passwords.push(p);
                    w.tokens(&r, a, tok_org, false, &what)?;
                    changed += 1;
                }
            }
            9 => {
                let e = email(s, &w);
                c.note(format!("set email {a} {e:?}"));
                let r = api.put(&tok, "/api/v1/profile/set-email", &json!({"email": e}))?;
                let what = format!("set email {e:?} of {:?}", w.accs[a]);
                if !w.accs[a].fue {
                    ensure!(r.status == 403, "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else if bad_email(&e) || w.taken(&e) && w.accs[a].email != e {
                    ensure!(r.status == 400 || r.status == 409, "{what}: status {} {}", r.status, r.short());
                    refused += 1;
                } else if r.ok() || w.accs[a].email != e {
                    let r = r.want(200, &what)?;
                    w.accs[a].email = e;
                    w.accs[a].fue = false;
                    w.tokens(&r, a, tok_org, false, &what)?;
                    changed += 1;
                }
            }
            10 => {
                let p = s.opt(password);
                let fup = s.opt(|s| s.bool());
                let name = s.opt(|s| s.opt(|s| s.string(3)));
                let mut b = json!({});
                if let Some(p) = &p {
                    b["password"] = json!(p);
                }
                if let Some(f) = fup {
                    b["forceUpdatePassword"] = json!(f);
                }
                if let Some(n) = &name {
                    b["name"] = json!(n);
                }
                c.note(format!("update {a} {b}"));
                api.put(&root_token, &format!("/api/v1/accounts/{}", w.accs[a].id), &b)?.want(200, "updating an account")?;
                if let Some(p) = p {
                    w.accs[a].password = Some(p.clone());
                    w.passwords.push(p);
                }
                if let Some(f) = fup {
                    w.accs[a].fup = f;
                }
                if let Some(n) = name {
                    w.accs[a].name = n;
                }
                changed += 1;
            }
            _ => {
                c.note(format!("delete {a}"));
                api.delete(&root_token, &format!("/api/v1/accounts/{}", w.accs[a].id))?.want(200, "deleting an account")?;
                w.accs[a].alive = false;
                let r = api.get(&tok, "/api/v1/profile")?;
                ensure!(!r.ok(), "the token of a deleted account gives {}", r.short());
            }
        }
        w.check()?;
    }
    c.nontrivial(changed > 0 && logged > 0 && refused > 0);
    Ok(())
}
