//! Whatever is asked, the interface answers: it grants or refuses, a refusal changes nothing, and what was there
//! before is served afterwards.
use std::path::Path;

use chk_query::{gen_time, gen_used, NAMES};
use proputil::*;
use serde_json::{json, Value as J};

use crate::api::*;
use crate::fix::*;
use crate::gen;
use crate::http::{serve, Srv};

fn nodes(j: &J, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.concat());
    match j {
        J::Object(o) => o.iter().for_each(|(k, v)| {
            at.push(format!("/{}", k.replace('~', "~0").replace('/', "~1")));
            nodes(v, at, out);
            at.pop();
        }),
        J::Array(a) => a.iter().enumerate().for_each(|(i, v)| {
            at.push(format!("/{i}"));
            nodes(v, at, out);
            at.pop();
        }),
        _ => {}
    }
}
fn odd(s: &mut Src) -> J {
    let words = [
        "", " ", "x", "event", "group", "custom", "regular", "property", "between", "last", "from", "day", "year", "eq", "gt", "regex",
        "exists", "true", "false", "sum", "avg", "count", "countUniqueGroups", "formula", "linear", "rollingAverage", "line", "steps",
        "conversionOverTime", "frequency", "timeToConvert", "unique", "nonUnique", "any", "exact", "all", "between", "asc", "desc", "0",
        "-1", "[", "(", "*", "^(a+)+$", "\\", "%", "\u{0}", "☃", "'", "users", "user_id", "event_id", "created_at", "project_id", "id",
        "1970-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "2024-02-30T00:00:00Z", "+262142-12-31T23:59:59Z",
        "-262143-01-01T00:00:00Z", "2026-01-01T00:00:00+14:00", "null", "NaN", "$a", "$a/0", "1/0", "eventSegmentation", "funnel",
        "enabled", "disabled", "owner", "member", "a@b.c", "drop", "string", "int64", "decimal", "boolean", "timestamp",
    ];
    match s.us(0, 7) {
        0 => J::Null,
        1 => json!(s.bool()),
        2 => json!(s.range(-3, 12)),
        3 => s
            .pick(&[
                json!(i32::MAX),
                json!(i32::MIN),
                json!(u32::MAX),
                json!(i64::MAX),
                json!(i64::MIN),
                json!(u64::MAX),
                json!(1e18),
                json!(1e300),
                json!(-1e300),
                json!(1e-300),
                json!(0.5),
                json!(-0.001),
                json!(9_007_199_254_740_993i64),
                json!(79_228_162_514_264_337_593_543_950_335u128 as f64),
                json!(1_767_204_000_000i64),
            ])
            .clone(),
        4 => json!(*s.pick(&words)),
        5 => s.pick(&[json!([]), json!({}), json!([[]]), json!([null]), json!([{}]), json!({"a": 1}), json!([1, "a", true])]).clone(),
        6 => json!(s.string(12)),
        _ => json!("y".repeat(*s.pick(&[256, 5000, 70_000]))),
    }
}
/// How many intervals the query is about, at most: an answer has a column each.
fn intervals(j: &J) -> i64 {
    let per = |u: &J| match u.as_str() {
        Some("hour") => 3600,
        Some("day") => 86_400,
        Some("week") => 604_800,
        Some("month") => 2_500_000,
        _ => 31_000_000,
    };
    let unit = j.get("intervalUnit").or_else(|| j.pointer("/chartType/intervalUnit")).map_or(31_000_000, per);
    let t = match j.get("time") {
        Some(t) => t,
        None => return 0,
    };
    let at = |k: &str| t[k].as_str().and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()).map(|t| t.timestamp());
    let now = 1_800_000_000;
    let span = match t["type"].as_str() {
        Some("between") => at("to").unwrap_or(0).saturating_sub(at("from").unwrap_or(0)),
        Some("from") => at("from").map_or(0, |f| now - f),
        _ => {
            let n = t["last"].as_f64().unwrap_or(0.0) * per(&t["unit"]) as f64;
            // far before any time there is: to be refused
            if n > 9e12 { 0 } else { n as i64 }
        }
    };
    span / unit
}
pub fn mutate(s: &mut Src, j: &mut J) {
    let mut all = vec![];
    nodes(j, &mut vec![], &mut all);
    let at = s.pick(&all).clone();
    let other = j.pointer(s.pick(&all)).cloned().unwrap_or(J::Null);
    let (parent, key) = match at.rsplit_once('/') {
        Some((p, k)) => (p.to_string(), k.replace("~1", "/").replace("~0", "~")),
        None => {
            if s.chance(1, 4) {
                *j = odd(s);
            } else if let J::Object(o) = j {
                let v = odd(s);
                let k = s.pick(&["filters", "breakdowns", "segments", "events", "exclude", "sort", "name", "tags", "holdingConstants"]).to_string();
                o.insert(k, v);
            }
            return;
        }
    };
    let how = s.us(0, 5);
    let v = odd(s);
    let n = j.pointer_mut(&at);
    match how {
        0 | 1 => *n.unwrap() = v,
        2 => *n.unwrap() = other,
        3 => match j.pointer_mut(&parent) {
            Some(J::Object(o)) => {
                o.remove(&key);
            }
            Some(J::Array(a)) => {
                a.remove(key.parse().unwrap());
            }
            _ => {}
        },
        4 => match j.pointer_mut(&parent) {
            Some(J::Array(a)) => {
                let x = a[key.parse::<usize>().unwrap()].clone();
                let k = s.us(1, 7);
                (0..k).for_each(|_| a.push(x.clone()));
            }
            Some(J::Object(o)) => {
                let x = o.remove(&key).unwrap();
                o.insert(format!("{key}s"), x);
            }
            _ => {}
        },
        // numbers and texts a little off
        _ => match n.unwrap() {
            J::Number(x) => {
                let x = x.as_f64().unwrap_or(0.0);
                *j.pointer_mut(&at).unwrap() = s.pick(&[json!(-x), json!((x as i64).saturating_add(1)), json!(x + 0.25), json!(x.to_string()), json!(x * 1e12)]).clone();
            }
            J::String(x) => {
                let x = x.clone();
                let up = x.to_uppercase();
                *j.pointer_mut(&at).unwrap() = s.pick(&[json!(up), json!(format!("{x} ")), json!(x.chars().skip(1).collect::<String>()), json!([x])]).clone();
            }
            _ => {}
        },
    }
}
fn path(s: &mut Src, p: &str) -> String {
    let mut segs: Vec<String> = p.split('/').map(|x| x.to_string()).collect();
    if s.chance(1, 8) {
        let t = *s.pick(&["", "-1", "abc", "1767744000", "0", "9223372036854775807", "-9223372036854775808", "8210266876799", "1e5", "99999999999999999999"]);
        let f = *s.pick(&["", "json", "jsonCompact", "csv"]);
        return match s.us(0, 2) {
            0 => format!("{p}?timestamp={t}"),
            1 => format!("{p}?format={f}"),
            _ => format!("{p}?timestamp={t}&format={f}&x=1"),
        };
    }
    let ids: Vec<usize> = segs.iter().enumerate().filter(|(i, x)| *i > 3 && x.parse::<u64>().is_ok()).map(|x| x.0).collect();
    if let (false, true) = (ids.is_empty(), s.chance(1, 4)) {
        let i = *s.pick(&ids);
        segs[i] = s
            .pick(&["0", "1", "2", "5", "7", "999", "-1", "18446744073709551615", "9223372036854775808", "18446744073709551616", "abc", "%00", "%ff", "1%2F2", "1.5"])
            .to_string();
    }
    segs.join("/")
}
fn bytes(s: &mut Src, j: &J) -> Vec<u8> {
    let mut b = serde_json::to_vec(j).unwrap();
    match s.us(0, 19) {
        0 => {
            let k = s.us(0, b.len());
            b.truncate(k);
        }
        1 => {
            let k = s.us(0, b.len() - 1);
            b[k] = s.below(256) as u8;
        }
        2 => b = format!("{}{}", "[".repeat(5000), "]".repeat(5000)).into_bytes(),
        3 => b.clear(),
        _ => {}
    }
    b
}

/// An answer there may be.
fn fair(r: &Resp) -> R {
    ensure!(r.status < 500 || r.status == 501, "answered {} {}", r.status, r.short());
    Ok(())
}

// ---------------------------------------------------------------- queries
fn names(v: &Srv, p: usize) -> Result<gen::Names, String> {
    let md = v.api.md();
    let i = v.fx.ps[p].id;
    let mut props: Vec<_> = md.event_properties.list(i).map_err(e2s)?.data.into_iter().map(|x| (None, x.name, x.data_type)).collect();
    for g in 0..2 {
        for x in md.group_properties[g].list(i).map_err(e2s)?.data {
            props.push((Some(g), x.name, x.data_type));
        }
    }
    Ok(gen::Names {
        fixed: vec![],
        events: md.events.list(i).map_err(e2s)?.data.into_iter().map(|e| e.name).collect(),
        customs: md.custom_events.list(i).map_err(e2s)?.data.into_iter().map(|e| e.id).collect(),
        props,
    })
}
fn ask(s: &mut Src, n: &gen::Names) -> (&'static str, J) {
    match s.us(0, 5) {
        0 | 1 => ("queries/event-segmentation", gen::es(s, n, false)),
        2 => ("queries/funnel", gen::funnel(s, n, false)),
        3 => {
            let mut j = json!({"time": gen::time(s)});
            if s.bool() {
                let k = s.us(1, 2);
                j["events"] = J::Array((0..k).map(|_| {
                    let mut e = gen::event(s, n);
                    if s.bool() {
                        e["filters"] = gen::filters(s, n, 1);
                    }
                    e
                }).collect());
            }
            if s.bool() {
                j["filters"] = gen::grouped(s, n);
            }
            if s.bool() {
                let k = s.us(1, 3);
                j["properties"] = J::Array((0..k).map(|_| gen::prop(s, n)).collect());
            }
            ("event-records/search", j)
        }
        4 => {
            let g = s.us(0, 1);
            let mut m = n.clone();
            if s.chance(7, 8) {
                m.props.retain(|p| p.0 == Some(g));
            }
            if m.props.is_empty() {
                m.props = n.props.clone();
            }
            let mut j = json!({"group": g});
            if s.bool() {
                j["time"] = gen::time(s);
            }
            if s.bool() {
                j["filters"] = gen::grouped(s, &m);
            }
            if s.bool() {
                let k = s.us(1, 3);
                j["properties"] = J::Array((0..k).map(|_| gen::prop(s, &m)).collect());
            }
            if s.bool() {
                j["sort"] = gen::prop(s, &m);
                j["sort"]["direction"] = json!(*s.pick(&["asc", "desc"]));
            }
            ("group-records/search", j)
        }
        _ => {
            let p = s.pick(&n.props).clone();
            let mut j = gen::property(&p);
            if s.bool() {
                j.as_object_mut().unwrap().extend(gen::event(s, n).as_object().unwrap().clone());
            }
            if s.bool() {
                let mut m = n.clone();
                m.props = vec![p];
                let f = gen::filter(s, &m);
                j["filter"] = json!({"operation": f["operation"]});
                if !f["value"].is_null() {
                    j["filter"]["value"] = f["value"].clone();
                }
            }
            ("property-values", j)
        }
    }
}

pub fn queries_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 1, 6);
    let mut fx = chk_query::rec::world(root, s, &t, &used)?;
    let project = s.us(0, fx.ps.len() - 1);
    let w = chk_query::world::World { path: "/nonexistent".into(), inner: Some(chk_query::world::Open { md: fx.w.md().clone(), db: fx.w.db() }) };
    chk_query::req::gen_customs(s, &w, &mut fx.ps[project], &used)?;
    let srv = serve(fx)?;
    let n = names(&srv, project)?;
    let base = format!("/api/v1/projects/{}", srv.fx.ps[project].id);
    let k = s.us(1, 12);
    let (mut answered, mut refused) = (0, 0);
    for _ in 0..k {
        let (u, mut j) = ask(s, &n);
        let m = s.weighted(&[5, 4, 2, 1]);
        (0..m).for_each(|_| mutate(s, &mut j));
        if intervals(&j) > 1500 || pattern_on_id(&j) || breakdown_by_column(&j) || breakdowns_of_a_name(&j) {
            continue;
        }
        let url = path(s, &format!("{base}/{u}"));
        let b = if s.chance(1, 6) { bytes(s, &j) } else { serde_json::to_vec(&j).unwrap() };
        let line = format!("POST {url} {}", String::from_utf8_lossy(&b).chars().take(3000).collect::<String>());
        c.note(line.clone());
        let r = srv.api.raw(&Call { method: "POST", path: url, token: Some(format!("Bearer {}", srv.tok)), body: Some(b), ..Default::default() })?;
        fair(&r).map_err(|e| format!("{line}: {e}"))?;
        if r.ok() {
            answered += 1;
        } else {
            refused += 1;
        }
    }
    c.nontrivial(answered > 0 && refused > 0);
    c.label(if answered > 0 { "some answered" } else { "none answered" });
    let q = json!({"time": {"type": "from", "from": "2020-01-01T00:00:00Z"}, "group": 1, "intervalUnit": "year", "chartType": "line",
        "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": n.events[0], "queries": [{"type": "countEvents"}]}]});
    srv.api.post(&srv.tok, &format!("{base}/queries/event-segmentation"), &q)?.want(200, "a plain query afterwards")?;
    Ok(())
}

// ---------------------------------------------------------------- everything else
const MAKERS: [&str; 5] = ["event", "custom event", "dashboard", "report", "bookmark"];

pub fn requests_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let mut fx = Fx::new(root, s, 2, 2, 3)?;
    for p in 0..fx.projects.len() {
        for k in ["event", "property", "group property", "custom event", "dashboard", "report"] {
            if s.chance(2, 3) {
                fx.ensure(p, k)?;
            }
        }
    }
    let k = s.us(1, 14);
    let (mut done, mut refused) = (0, 0);
    for _ in 0..k {
        let p = s.us(0, fx.projects.len() - 1);
        let o = fx.projects[p].org;
        let name = if s.chance(1, 4) { *s.pick(&OTHER_OPS) } else { *s.pick(&PROJECT_OPS) };
        if ["account delete", "organization delete", "project delete", "settings set"].contains(&name) {
            continue;
        }
        let op = fx.op(name, o, p, p)?;
        let mut body = op.body.clone();
        // a full body for what is changed in parts
        if op.method == "PUT" && s.chance(2, 3) {
            let n = fx.next();
            let kind = MAKERS.iter().find(|m| op.name.starts_with(m.split(' ').next().unwrap()));
            if let Some(kind) = kind {
                fx.ensure(p, "event")?;
                body = Some(fx.creation(p, kind, n)?.1);
            }
        }
        if name.starts_with("custom ") && s.chance(1, 3) {
            let id = fx.ensure(p, "custom event")?;
            if let Some(b) = &mut body {
                if let Some(J::Array(a)) = b.get_mut("events") {
                    a.push(json!({"eventType": "custom", "eventId": id}));
                }
            }
        }
        if let Some(b) = &mut body {
            let m = s.weighted(&[1, 4, 3, 1]);
            (0..m).for_each(|_| mutate(s, b));
        } else if op.method != "GET" && s.chance(1, 3) {
            body = Some(odd(s));
        }
        let url = path(s, &op.path);
        let raw = match &body {
            None => None,
            Some(b) if s.chance(1, 8) => Some(bytes(s, b)),
            Some(b) => Some(serde_json::to_vec(b).unwrap()),
        };
        let shown: String = raw.as_ref().map_or(String::new(), |b| String::from_utf8_lossy(b).chars().take(2000).collect());
        let line = format!("{} {url} {shown}", op.method);
        c.note(line.clone());
        let before = fx.dump()?;
        let r = fx.api.raw(&Call {
            method: op.method,
            path: url,
            token: Some(format!("Bearer {}", fx.token(0, Some(o)))),
            body: raw,
            ..Default::default()
        })?;
        fair(&r).map_err(|e| format!("{line}: {e}"))?;
        if r.ok() {
            done += 1;
        } else {
            refused += 1;
            let after = fx.dump()?;
            if before != after {
                let d: Vec<_> = before.lines().zip(after.lines()).filter(|(a, b)| a != b).map(|(a, b)| format!("{a} became {b}")).collect();
                return Err(format!("{line} is refused with {} yet changes {}", r.status, d.join("; ").chars().take(1500).collect::<String>()));
            }
        }
    }
    c.nontrivial(done > 0 && refused > 0);
    // what is there is served
    for p in 0..fx.projects.len() {
        let o = fx.projects[p].org;
        let tok = fx.token(0, Some(o));
        for name in ["project get", "event list", "custom list", "dashboard list", "report list", "property list", "group property list", "group list"] {
            let op = fx.op(name, o, p, p)?;
            let r = fx.api.get(&tok, &op.path)?.want(200, name)?;
            if let Some(l) = r.j()?.get("data").and_then(|d| d.as_array()) {
                for x in l.iter().filter(|_| op.name != "group list") {
                    fx.api.get(&tok, &format!("{}/{}", op.path, x["id"]))?.want(200, &format!("{name}: {x}"))?;
                }
            }
        }
        for name in ["account list", "organization list", "project list", "settings get", "backups", "profile"] {
            let op = fx.op(name, o, p, p)?;
            fx.api.get(&tok, &op.path)?.want(200, name)?;
        }
        fx.ensure(p, "event")?;
        let mut q = fx.es(p, false)?;
        fx.api.post(&tok, &format!("/api/v1/projects/{}/queries/event-segmentation", fx.projects[p].id), &q)?.want(200, "a plain query")?;
        // custom events there are can be asked about, whatever they are of
        for e in fx.api.md().custom_events.list(fx.projects[p].id).map_err(e2s)?.data {
            q["events"][0]["eventType"] = json!("custom");
            q["events"][0]["eventId"] = json!(e.id);
            let r = fx.api.post(&tok, &format!("/api/v1/projects/{}/queries/event-segmentation", fx.projects[p].id), &q)?;
            fair(&r).map_err(|x| format!("a query of {e:?}: {x}"))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- findings
/// A pattern is looked for in texts: columns a query needs as numbers too are decoded in place.
fn pattern_on_id(j: &J) -> bool {
    match j {
        J::Object(o) => {
            let is = |k: &str, l: &[&str]| o.get(k).and_then(|v| v.as_str()).is_some_and(|v| l.contains(&v));
            is("operation", &["like", "notLike", "regex", "notRegex"])
                && is("propertyName", &["project_id", "event", "group_0", "group_1", "group_2", "group_3", "group_4"])
                || o.values().any(pattern_on_id)
        }
        J::Array(a) => a.iter().any(pattern_on_id),
        _ => false,
    }
}
pub fn pattern_on_id_witness(root: &Path) -> R {
    let mut s = Src::random(7);
    let sh = chk_query::fx::Shape { projects: 1, users: 3, rows: 30, span: gen_time(&mut s).span, churn: false, apart: false };
    let fx = chk_query::fx::Fx::build(root, &mut s, &sh, &["country"])?;
    let srv = serve(fx)?;
    let base = format!("/api/v1/projects/{}", srv.fx.ps[0].id);
    let f = |name: &str| json!([{"type": "property", "operation": "like", "propertyType": "event", "propertyName": name, "value": ["a"]}]);
    let e = json!({"eventType": "regular", "eventName": "alpha", "filters": f("group_1")});
    let t = json!({"type": "from", "from": "2020-01-01T00:00:00Z"});
    let funnel = json!({"time": t, "group": 1, "chartType": {"type": "steps"}, "count": "unique", "timeWindow": {"n": 1, "unit": "hour"},
        "steps": [{"events": [e], "order": {"type": "exact"}}, {"events": [e], "order": {"type": "exact"}}]});
    let es = json!({"time": t, "group": 1, "intervalUnit": "year", "chartType": "line", "analysis": {"type": "linear"},
        "events": [{"eventType": "regular", "eventName": "alpha", "filters": f("event"), "queries": [{"type": "countEvents"}]}]});
    for (path, q) in [("queries/funnel", &funnel), ("queries/event-segmentation", &es)] {
        fair(&srv.api.post(&srv.tok, &format!("{base}/{path}"), q)?)?;
    }
    Ok(())
}

/// A count is broken down by properties: columns every record has come up twice, or not at all, in
/// the plan.
fn breakdown_by_column(j: &J) -> bool {
    let named = |b: &J| {
        b.as_array().is_some_and(|l| l.iter().any(|x| {
            x.get("propertyName").and_then(|v| v.as_str()).is_some_and(|v| ["project_id", "event", "event_id", "created_at"].contains(&v))
        }))
    };
    match j {
        J::Object(o) => o.get("breakdowns").is_some_and(named) || o.values().any(breakdown_by_column),
        J::Array(a) => a.iter().any(breakdown_by_column),
        _ => false,
    }
}
pub fn breakdown_by_column_witness(root: &Path) -> R {
    let mut s = Src::random(7);
    let sh = chk_query::fx::Shape { projects: 1, users: 3, rows: 30, span: gen_time(&mut s).span, churn: false, apart: false };
    let fx = chk_query::fx::Fx::build(root, &mut s, &sh, &["country"])?;
    let srv = serve(fx)?;
    let url = format!("/api/v1/projects/{}/queries/event-segmentation", srv.fx.ps[0].id);
    for n in ["created_at", "event", "event_id"] {
        let b = json!([{"type": "property", "propertyType": "event", "propertyName": n}]);
        let e = |name: &str| json!({"eventType": "regular", "eventName": name, "queries": [{"type": "countEvents"}]});
        let mut first = e("alpha");
        first["breakdowns"] = b;
        let q = json!({"time": {"type": "from", "from": "2020-01-01T00:00:00Z"}, "group": 1, "intervalUnit": "year", "chartType": "line",
            "analysis": {"type": "linear"}, "events": [first, e("beta")]});
        fair(&srv.api.post(&srv.tok, &url, &q)?).map_err(|e| format!("broken down by {n}: {e}"))?;
    }
    Ok(())
}

/// Columns of a funnel's answer are named by the property, and groups have properties of the same
/// names.
fn breakdowns_of_a_name(j: &J) -> bool {
    fn all<'a>(j: &'a J, out: &mut Vec<&'a J>) {
        match j {
            J::Object(o) => {
                if let Some(J::Array(l)) = o.get("breakdowns") {
                    out.extend(l);
                }
                o.values().for_each(|v| all(v, out));
            }
            J::Array(a) => a.iter().for_each(|v| all(v, out)),
            _ => {}
        }
    }
    let mut l = vec![];
    all(j, &mut l);
    l.iter().any(|a| l.iter().any(|b| a["propertyName"] == b["propertyName"] && a != b))
}
pub fn breakdowns_of_a_name_witness(root: &Path) -> R {
    let mut s = Src::random(7);
    let sh = chk_query::fx::Shape { projects: 1, users: 3, rows: 30, span: gen_time(&mut s).span, churn: false, apart: false };
    let fx = chk_query::fx::Fx::build(root, &mut s, &sh, &["country"])?;
    let srv = serve(fx)?;
    let url = format!("/api/v1/projects/{}/queries/funnel", srv.fx.ps[0].id);
    let e = json!({"events": [{"eventType": "regular", "eventName": "alpha"}], "order": {"type": "exact"}});
    let b = |g: usize| json!({"type": "property", "propertyType": "group", "propertyName": "version", "group": g});
    let q = json!({"time": {"type": "from", "from": "2020-01-01T00:00:00Z"}, "group": 1, "chartType": {"type": "steps"}, "count": "unique",
        "timeWindow": {"n": 1, "unit": "hour"}, "steps": [e, e], "breakdowns": [b(0), b(1)]});
    fair(&srv.api.post(&srv.tok, &url, &q)?)
}
