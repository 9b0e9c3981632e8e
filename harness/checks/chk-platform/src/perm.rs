//! Who may do what.
use std::path::Path;

use proputil::*;

use crate::api::*;
use crate::fix::*;

/// Tokens the server did not make for this account, or that no longer hold.
fn bad_token(s: &mut Src, fx: &Fx, a: usize, org: u64) -> (String, Option<String>) {
    let id = fx.accs[a].id;
    let b = |t: String| Some(format!("Bearer {t}"));
    let kinds = ["none", "garbage", "expired", "foreign key", "refresh token", "other algorithm", "unsigned", "tampered", "basic", "no account", "cut"];
    let k = *s.pick(&kinds);
    let good = token(id, org, 600, ACCESS_KEY);
    let t = match k {
        "none" => None,
        "garbage" => b("abc.def.ghi".into()),
        "expired" => b(token(id, org, -3600, ACCESS_KEY)),
        "foreign key" => b(token(id, org, 600, s.pick(&["", "another key", REFRESH_KEY]))),
        "refresh token" => b(refresh(id, 600, REFRESH_KEY)),
        "other algorithm" => b(sign(
            serde_json::json!({"exp": chrono::Utc::now().timestamp() + 600, "accountId": id, "organizationId": org}),
            ACCESS_KEY,
            jsonwebtoken::Algorithm::HS256,
        )),
        // a header that says there is no signature, and none
        "unsigned" => {
            let mut it = good.split('.');
            it.next();
            b(format!("eyJ0eXAiOiJKV1QiLCJhbGciOiJub25lIn0.{}.", it.next().unwrap()))
        }
        "tampered" => {
            // the payload of another account under this signature
            let other = token(fx.accs[0].id, org + 1, 601, "x");
            let (g, o): (Vec<&str>, Vec<&str>) = (good.split('.').collect(), other.split('.').collect());
            b(format!("{}.{}.{}", g[0], o[1], g[2]))
        }
        "basic" => Some(format!("Basic {good}")),
        "no account" => b(token(9_999, org, 600, ACCESS_KEY)),
        _ => b(good[..good.len() - 3].to_string()),
    };
    (k.to_string(), t)
}

pub fn matrix_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let (no, np) = (s.us(1, 2), s.us(2, 3));
    let na = s.us(3, 6);
    let mut fx = Fx::new(root, s, no, np.max(no), na)?;
    c.note(format!("{:?} {:?}", fx.orgs, fx.projects));
    for a in &fx.accs {
        c.note(format!("{a:?}"));
    }
    let mut refused = 0;
    let mut granted = 0;
    let steps = s.us(8, 24);
    for _ in 0..steps {
        let name = match s.weighted(&[6, 3, 1]) {
            0 => *s.pick(&PROJECT_OPS),
            1 => *s.pick(&OTHER_OPS),
            _ => *s.pick(&OWN_OPS),
        };
        if name == "project delete" && fx.projects.len() > 3 && s.bool() {
            continue;
        }
        let alive: Vec<usize> = (0..fx.accs.len()).filter(|a| fx.accs[*a].alive).collect();
        let a = *s.pick(&alive);
        let orgs = fx.accs[a].org_ids(&fx);
        let tok_org = *s.pick(&orgs);
        let mut p = s.us(0, fx.projects.len() - 1);
        if name == "project delete" {
            // one nobody has a role in, or one the account has a role in
            p = fx.project(s.us(0, fx.orgs.len() - 1).min(fx.orgs.len() - 1))?;
            if s.chance(3, 4) && !fx.accs[a].admin {
                use common::rbac::ProjectRole as PR;
                let id = fx.accs[a].id;
                let role = s.pick(&[PR::Owner, PR::Admin, PR::Member, PR::Reader]).clone();
                fx.accs[a].projects.push((p, role));
                let l = fx.accs[a].projects.iter().map(|(p, r)| (fx.projects[*p].id, r.clone())).collect();
                fx.api
                    .md()
                    .accounts
                    .update(id, metadata::accounts::UpdateAccountRequest {
                        updated_by: 1,
                        projects: common::types::OptionalProperty::Some(Some(l)),
                        ..Default::default()
                    })
                    .map_err(e2s)?;
            }
        }
        // an organization of the path; creating and listing projects is about the token's
        let o = if name.starts_with("project") { tok_org } else { Some(s.us(0, fx.orgs.len() - 1)) };
        let op = fx.op(name, o.unwrap_or(0), p, p)?;
        let before = fx.dump()?;
        let org_id = tok_org.map(|o| fx.orgs[o]).unwrap_or(0);
        let (bad, tok) = if s.chance(1, 6) {
            let (k, t) = bad_token(s, &fx, a, org_id);
            (Some(k), t)
        } else {
            (None, Some(format!("Bearer {}", fx.token(a, tok_org))))
        };
        let may = bad.is_none() && fx.accs[a].may(&fx, tok_org, op.need, o, p);
        c.note(format!("account {} org {tok_org:?} {:?} {} {} {:?}", fx.accs[a].id, bad, op.method, op.path, op.body));
        let r = fx.api.raw(&Call {
            method: op.method,
            path: op.path.clone(),
            token: tok,
            body: op.body.as_ref().map(|b| serde_json::to_vec(b).unwrap()),
            ..Default::default()
        })?;
        let who = format!("{name} on project {p} of organization {} by {:?} with the token of organization {tok_org:?}", fx.projects[p].org, fx.accs[a]);
        if let Some(k) = &bad {
            c.label("bad token");
            let want = if k == "no account" { &[401, 403, 404][..] } else { &[401][..] };
            ensure!(want.contains(&r.status), "token {k}: {name} is answered with {} {}", r.status, r.short());
        } else if !may {
            ensure!(r.status == 403, "{who}: allowed, status {} {}", r.status, r.short());
            ensure!(r.json.as_ref().map_or(false, |j| j.get("error").is_some() && j.as_object().unwrap().len() == 1), "{who}: a refusal with data: {}", r.short());
        } else if op.status != 0 {
            ensure!(r.status == op.status, "{who}: status {} instead of {}: {}", r.status, op.status, r.short());
        } else {
            ensure!(r.status != 401 && r.status != 403 || name == "backup", "{who}: refused, status {} {}", r.status, r.short());
        }
        if may {
            granted += 1;
            c.label(&format!("granted {}", name));
        } else {
            refused += 1;
            if bad.is_none() {
                c.label(&format!("refused {}", name));
            }
        }
        if !may || op.read {
            let after = fx.dump()?;
            ensure!(after == before, "{who}: {} the state changed: {}", if may { "after reading" } else { "refused, yet" }, diff(&before, &after));
        }
        if may && name == "project delete" && r.ok() {
            fx.projects.remove(p);
            for a in &mut fx.accs {
                a.projects.retain(|x| x.0 != p);
                for x in &mut a.projects {
                    if x.0 > p {
                        x.0 -= 1;
                    }
                }
            }
        }
    }
    c.nontrivial(refused > 1 && granted > 1);
    Ok(())
}

pub fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            let n = x.chars().zip(y.chars()).take_while(|(p, q)| p == q).count();
            let at = |t: &str| t.chars().skip(n.saturating_sub(40)).take(140).collect::<String>();
            return format!("{}: …{} became …{}", x.split(' ').take(2).collect::<Vec<_>>().join(" "), at(x), at(y));
        }
    }
    format!("{} lines became {}", a.lines().count(), b.lines().count())
}
