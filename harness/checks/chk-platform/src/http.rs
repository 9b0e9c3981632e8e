//! Queries a client sends, answered over HTTP as loops over the rows answer them.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use chk_query::fun::{label, ratios, reference, FReq, Ord_, Tot};
use chk_query::fx::*;
use chk_query::rec::{event_value, gen_values, group_value, group_world, Search};
use chk_query::req::*;
use chk_query::world::{Open, World};
use chk_query::{gen_filters, gen_req, gen_time, gen_used, Opts, When, NAMES};
use chrono::SecondsFormat;
use common::query::{AggregateFunction as Agg, PropertyRef, PropValueOperation as Op, QueryTime, TimeIntervalUnit as Unit};
use common::rbac::Role;
use common::types::*;
use proputil::*;
use serde_json::{json, Value as J};

use crate::api::*;

pub struct Srv {
    pub fx: Fx,
    pub api: Api,
    pub tok: String,
}
pub fn serve(fx: Fx) -> Result<Srv, String> {
    let w = World {
        path: "/nonexistent/world".into(),
        inner: Some(Open { md: fx.w.md().clone(), db: fx.w.db() }),
    };
    let api = Api::over(w)?;
    let a = api
        .md()
        .accounts
        .create(metadata::accounts::CreateAccountRequest {
            created_by: 1,
            password_hash: "x".into(),
            email: "a@b.c".into(),
            name: None,
            force_update_password: false,
            force_update_email: false,
            role: Some(Role::Admin),
            organizations: None,
            projects: None,
            teams: None,
        })
        .map_err(e2s)?;
    Ok(Srv { fx, api, tok: token(a.id, 0, 600, ACCESS_KEY) })
}

// ---------------------------------------------------------------- requests as JSON
fn unit(u: &Unit) -> &'static str {
    match u {
        Unit::Hour => "hour",
        Unit::Day => "day",
        Unit::Week => "week",
        Unit::Month => "month",
        Unit::Year => "year",
    }
}
fn stamp(t: &chrono::DateTime<chrono::Utc>) -> String {
    t.to_rfc3339_opts(SecondsFormat::Millis, true)
}
fn time(t: &QueryTime) -> J {
    match t {
        QueryTime::Between { from, to } => json!({"type": "between", "from": stamp(from), "to": stamp(to)}),
        QueryTime::From(from) => json!({"type": "from", "from": stamp(from)}),
        QueryTime::Last { last, unit: u } => json!({"type": "last", "last": last, "unit": unit(u)}),
    }
}
fn rf(p: &PropertyRef) -> J {
    match p {
        PropertyRef::Event(n) => json!({"propertyType": "event", "propertyName": n}),
        PropertyRef::Group(n, g) => json!({"propertyType": "group", "propertyName": n, "group": g}),
        PropertyRef::Custom(i) => json!({"propertyType": "custom", "propertyId": i}),
    }
}
fn with(mut a: J, b: J) -> J {
    a.as_object_mut().unwrap().extend(b.as_object().unwrap().clone());
    a
}
fn op(o: &Op) -> &'static str {
    match o {
        Op::Eq => "eq",
        Op::Neq => "neq",
        Op::Gt => "gt",
        Op::Gte => "gte",
        Op::Lt => "lt",
        Op::Lte => "lte",
        Op::True => "true",
        Op::False => "false",
        Op::Exists => "exists",
        Op::Empty => "empty",
        Op::Like => "like",
        Op::NotLike => "notLike",
        Op::Regex => "regex",
        Op::NotRegex => "notRegex",
    }
}
/// A value a client can write: decimals to the cent.
fn cents(f: &mut F) {
    for v in f.vals.iter_mut().flatten() {
        if let V::D(d) = v {
            *d = *d / (DEC / 100) * (DEC / 100);
        }
    }
}
fn value(v: &V) -> J {
    match v {
        V::Null => J::Null,
        V::S(x) => json!(x),
        V::I(i) | V::T(i) => json!(i),
        V::B(b) => json!(b),
        V::D(d) if d % DEC == 0 => json!((d / DEC) as i64),
        V::D(d) => json!((d / (DEC / 100)) as f64 / 100.),
    }
}
fn condition(f: &F) -> J {
    let mut j = json!({"operation": op(&f.op)});
    if let Some(v) = &f.vals {
        j["value"] = J::Array(v.iter().map(value).collect());
    }
    j
}
fn filter(p: &Project, f: &F) -> J {
    with(with(json!({"type": "property"}), rf(&p.prop(&f.prop).rf())), condition(f))
}
fn filters(p: &Project, l: &[F]) -> J {
    J::Array(l.iter().map(|f| filter(p, f)).collect())
}
/// Sets what isn't empty: leaves out or writes null or nothing otherwise.
fn set(s: &mut Src, o: &mut J, k: &str, empty: bool, v: J) {
    if !empty {
        o[k] = v;
    } else if s.chance(1, 4) {
        o[k] = J::Null;
    }
}
fn grouped(p: &Project, l: &[F]) -> J {
    json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": filters(p, l)}]})
}
fn ev(p: &Project, e: &Ev) -> J {
    match e {
        Ev::Name(i) | Ev::Id(i) => json!({"eventType": "regular", "eventName": p.events[*i].0}),
        Ev::Custom(i) => json!({"eventType": "custom", "eventId": p.customs[*i].id}),
    }
}
fn named(e: &mut Ev) {
    if let Ev::Id(i) = e {
        *e = Ev::Name(*i);
    }
}
fn breakdowns(p: &Project, l: &[String]) -> J {
    J::Array(l.iter().map(|b| with(json!({"type": "property"}), rf(&p.prop(b).rf()))).collect())
}
fn low(d: &impl std::fmt::Debug) -> String {
    format!("{d:?}").to_lowercase()
}
fn query(p: &Project, q: &Q) -> J {
    match q {
        Q::Count => json!({"type": "countEvents"}),
        Q::Unique => json!({"type": "countUniqueGroups"}),
        Q::Daily => json!({"type": "dailyActiveGroups"}),
        Q::PerGroup(a) => json!({"type": "countPerGroup", "aggregate": low(a)}),
        Q::Prop(n, a) => with(json!({"type": "aggregateProperty", "aggregate": low(a)}), rf(&p.prop(n).rf())),
        Q::PropPerGroup(n, i, o) => with(
            json!({"type": "aggregatePropertyPerGroup", "aggregatePerGroup": low(i), "aggregate": low(o)}),
            rf(&p.prop(n).rf()),
        ),
    }
}

/// The time of the request is told in seconds.
fn whole(t: &mut When) {
    t.cur = t.cur.div_euclid(1000) * 1000;
    let r = t.time.range(dt(t.cur));
    (t.from, t.to) = (r.0.timestamp_millis(), r.1.timestamp_millis());
}
fn backward(t: &QueryTime) -> bool {
    matches!(t, QueryTime::Between { from, to } if from > to)
}

// ---------------------------------------------------------------- answers
/// Thousandths, as the server rounds: halves to the even one.
fn round(d: i128) -> i128 {
    let u = DEC / 1000;
    let (q, r) = (d.div_euclid(u), d.rem_euclid(u));
    match (2 * r).cmp(&u) {
        std::cmp::Ordering::Less => q,
        std::cmp::Ordering::Greater => q + 1,
        _ => q + (q & 1),
    }
}
/// What of thousandths a floating point number doesn't tell.
fn inexact(m: i128) -> i128 {
    m.abs() >> 48
}
fn thousandths(j: &J) -> Result<i128, String> {
    let f = j.as_f64().ok_or_else(|| format!("{j} is no number"))?;
    let m = (f * 1000.).round();
    ensure!((f * 1000. - m).abs() <= 1e-3 + m.abs() * 1e-12, "{j} has more than three digits after the point");
    Ok(m as i128)
}
/// How a value of a column of the type is written; numbers canonically.
fn cell_json(v: &V, t: &DType) -> J {
    let numeric = matches!(t, DType::Decimal | DType::Int8 | DType::Int16 | DType::Int32 | DType::Int64);
    match v {
        V::Null if numeric => json!(0.),
        V::Null => J::Null,
        V::S(x) => json!(x),
        V::B(b) => json!(b),
        V::I(i) | V::T(i) => json!(*i as f64),
        V::D(d) => json!(round(*d) as f64 / 1000.),
    }
}
fn canon_num(j: &J) -> J {
    match j {
        J::Number(n) => json!((n.as_f64().unwrap_or(f64::NAN) * 1000.).round() / 1000.),
        j => j.clone(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Flat {
    event: String,
    formula: String,
    dims: Vec<(String, String)>,
    vals: BTreeMap<String, i128>,
}
fn dim(v: &V) -> Option<String> {
    let zero = |x: i128| if x == 0 { None } else { Some(format!("number {}", x as f64 / 1000.)) };
    match v {
        V::Null => None,
        V::S(x) => Some(format!("text {x}")),
        V::B(b) => Some(format!("{b}")),
        V::I(i) | V::T(i) => zero(*i as i128 * 1000),
        V::D(d) => zero(round(*d)),
    }
}
fn dim_json(j: &J) -> Result<Option<String>, String> {
    Ok(match j {
        J::Null => None,
        J::String(x) => Some(format!("text {x}")),
        J::Bool(b) => Some(format!("{b}")),
        J::Number(_) => {
            let t = thousandths(j)?;
            if t == 0 { None } else { Some(format!("number {}", t as f64 / 1000.)) }
        }
        o => return Err(format!("{o} in a column")),
    })
}

pub fn segmentation_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    NO_TEXT_ORDER.with(|t| t.set(true));
    let big = s.chance(1, 6);
    BIG.with(|b| b.set(big));
    let mut t = gen_time(s);
    whole(&mut t);
    let mut used = gen_used(s, &NAMES, 2, 6);
    if big && !used.contains(&"amount") {
        used.push("amount");
    }
    let avg = s.chance(1, 6);
    let o = if avg {
        Opts { avg: true, breakdowns: &["country", "tier", "paid"], plain: false }
    } else {
        Opts { avg: false, breakdowns: &NAMES, plain: false }
    };
    let sh = Shape { projects: s.us(1, 2), users: if avg { 1 } else { s.range(1, 10) }, rows: s.us(if big { 30 } else { 3 }, if big { 60 } else { 40 }), span: t.span, churn: s.bool(), apart: false };
    let mut fx = Fx::build(root, s, &sh, &used)?;
    let project = s.us(0, sh.projects - 1);
    gen_customs(s, &fx.w, &mut fx.ps[project], &used)?;
    let mut req = gen_req(s, &fx.ps[project], project, &used, &t, &o);
    for e in &mut req.events {
        named(&mut e.event);
        e.filters.iter_mut().for_each(cents);
        let total = |q: &Q| matches!(q, Q::Prop(n, Agg::Sum) if n == "amount");
        if big && !avg && !e.queries.iter().any(total) {
            e.queries.push(Q::Prop("amount".into(), Agg::Sum));
        }
    }
    if big && s.chance(2, 3) {
        req.unit = Unit::Year;
        req.filters.clear();
        req.breakdowns.clear();
        for e in &mut req.events {
            e.filters.clear();
            e.breakdowns.clear();
        }
    }
    req.filters.iter_mut().for_each(cents);
    let srv = serve(fx)?;
    let p = &srv.fx.ps[project];
    let mut body = json!({
        "time": time(&req.time), "group": req.group, "intervalUnit": unit(&req.unit), "chartType": *s.pick(&["line", "column", "pie"]),
        "analysis": {"type": "linear"},
        "events": req.events.iter().map(|e| {
            let mut j = with(ev(p, &e.event), json!({"queries": e.queries.iter().map(|q| query(p, q)).collect::<Vec<_>>()}));
            set(s, &mut j, "filters", e.filters.is_empty(), filters(p, &e.filters));
            set(s, &mut j, "breakdowns", e.breakdowns.is_empty(), breakdowns(p, &e.breakdowns));
            j
        }).collect::<Vec<_>>(),
    });
    set(s, &mut body, "filters", req.filters.is_empty(), grouped(p, &req.filters));
    set(s, &mut body, "breakdowns", req.breakdowns.is_empty(), breakdowns(p, &req.breakdowns));
    let url = format!("/api/v1/projects/{}/queries/event-segmentation?timestamp={}", p.id, t.cur / 1000);
    c.note(format!("POST {url} {body}"));
    if !p.customs.is_empty() {
        c.note(format!("{:?}", p.customs));
    }
    for r in &srv.fx.rows {
        c.note(format!("{r:?}"));
    }
    let r = srv.api.post(&srv.tok, &url, &body)?;
    if backward(&req.time) {
        ensure!(r.status == 400, "a time from after its end: status {} {}", r.status, r.short());
        return Ok(());
    }
    let r = r.want(200, "the query")?;
    let cols = r.j()?["columns"].as_array().ok_or("no columns")?.clone();
    let compact = srv.api.post(&srv.tok, &format!("{url}&format=jsonCompact"), &body)?.want(200, "the query, compact")?;
    // lines that tie may come in another order
    let lines = |cols: &[J]| {
        let at = |i: usize| J::Array(cols.iter().map(|d| d[i].clone()).collect()).to_string();
        let mut l: Vec<String> = (0..cols.first().and_then(|d| d.as_array()).map_or(0, |d| d.len())).map(at).collect();
        l.sort();
        (cols.len(), l)
    };
    let datas: Vec<J> = cols.iter().map(|c| c["data"].clone()).collect();
    let compact = compact.j()?.as_array().ok_or("the compact answer is no list")?.clone();
    ensure_eq!(lines(&compact), lines(&datas), "the compact answer");
    let name = |j: &J| j["name"].as_str().unwrap_or("").to_string();
    let names: Vec<String> = cols.iter().map(name).collect();
    let n = cols.first().and_then(|c| c["data"].as_array()).map_or(0, |d| d.len());
    // an empty answer has no columns
    let at = names.iter().position(|n| n == "Average").unwrap_or(0);
    let times: Vec<String> = names.iter().skip(at + 1).cloned().collect();
    if !cols.is_empty() {
        ensure!(names[at] == "Average", "no Average among {names:?}");
        ensure_eq!(times, buckets(&req.unit, req.from, req.to), "time columns");
    }
    for (i, col) in cols.iter().enumerate() {
        ensure_eq!(col["data"].as_array().map_or(0, |d| d.len()), n, "values of column {}", names[i]);
        if names[i] != "Average" {
            let typ = if i < at { "dimension" } else { "metric" };
            ensure_eq!(col["type"], json!(typ), "type of column {}", names[i]);
        }
        if i < at && NAMES.contains(&names[i].as_str()) {
            let want = rf(&p.prop(&names[i]).rf());
            for (k, v) in want.as_object().unwrap() {
                ensure!(col[k] == *v || col[k].is_null(), "column {} is of {k} {}", names[i], col[k]);
            }
        }
    }
    let mut got = vec![];
    for i in 0..n {
        let mut l = Flat { event: String::new(), formula: String::new(), dims: vec![], vals: BTreeMap::new() };
        let mut average = 0;
        for (k, col) in cols.iter().enumerate() {
            let v = &col["data"][i];
            match names[k].as_str() {
                "Event" => l.event = v.as_str().unwrap_or("?").to_string(),
                "Formula" => l.formula = v.as_str().unwrap_or("?").to_string(),
                "Segment" => {}
                "Average" => average = thousandths(v)?,
                nm if k < at => {
                    if let Some(d) = dim_json(v)? {
                        l.dims.push((nm.to_string(), d));
                    }
                }
                nm => {
                    let x = thousandths(v)?;
                    if x != 0 {
                        l.vals.insert(nm.to_string(), x);
                    }
                }
            }
        }
        l.dims.sort();
        let sum: i128 = l.vals.values().sum();
        let by = 2 * times.len() as i128 + inexact(sum) + times.len() as i128 * inexact(average);
        ensure!((average * times.len() as i128 - sum).abs() <= by, "the average of {l:?} is {average} thousandths");
        if !l.vals.is_empty() {
            got.push(l);
        }
    }
    if req.limited(&srv.fx) {
        // some lines are left out (Q01)
        return Ok(());
    }
    let lines = req.expected(&srv.fx);
    c.nontrivial(lines.len() > 1);
    let mut want: Vec<Flat> = lines
        .iter()
        .map(|l| Flat {
            event: l.event.clone(),
            formula: l.formula.clone(),
            dims: {
                let mut d: Vec<_> = l.dims.iter().filter_map(|(n, v)| dim(v).map(|v| (n.clone(), v))).collect();
                d.sort();
                d
            },
            vals: l.vals.iter().map(|(n, v)| (n.clone(), round(*v))).filter(|v| v.1 != 0).collect(),
        })
        .filter(|l| !l.vals.is_empty())
        .collect();
    got.sort();
    want.sort();
    let eq = got.len() == want.len()
        && got.iter().zip(&want).all(|(a, b)| {
            let by = if a.formula.to_uppercase().contains("AVG") { 1 } else { 0 };
            (&a.event, &a.formula, &a.dims) == (&b.event, &b.formula, &b.dims)
                && a.vals.len() == b.vals.len()
                && a.vals.iter().zip(&b.vals).all(|(x, y)| x.0 == y.0 && (x.1 - y.1).abs() <= by + inexact(*x.1))
        });
    if !eq {
        let a: Vec<_> = got.iter().filter(|l| !want.contains(l)).collect();
        let b: Vec<_> = want.iter().filter(|l| !got.contains(l)).collect();
        return Err(format!("{} lines instead of {}: only in the answer {a:?}, only in the rows {b:?}", got.len(), want.len()));
    }
    Ok(())
}

pub fn funnel_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    BIG.with(|b| b.set(false));
    NO_TEXT_ORDER.with(|t| t.set(true));
    let mut t = gen_time(s);
    whole(&mut t);
    let used = gen_used(s, &NAMES, 2, 5);
    let sh = Shape { projects: s.us(1, 2), users: s.range(1, 4), rows: s.us(8, 40), span: t.span, churn: s.bool(), apart: true };
    let mut fx = Fx::build(root, s, &sh, &used)?;
    let project = s.us(0, sh.projects - 1);
    gen_customs(s, &fx.w, &mut fx.ps[project], &used)?;
    let mut req: FReq = chk_query::fun::gen_freq(s, &fx.ps[project], project, &used, &t);
    for (e, f) in req.steps.iter_mut().flatten().chain(&mut req.excl) {
        named(e);
        f.iter_mut().for_each(cents);
    }
    req.filters.iter_mut().for_each(cents);
    let srv = serve(fx)?;
    let p = &srv.fx.ps[project];
    let event = |s: &mut Src, e: &(Ev, Vec<F>)| {
        let mut j = ev(p, &e.0);
        set(s, &mut j, "filters", e.1.is_empty(), filters(p, &e.1));
        j
    };
    let mut steps = vec![];
    for (evs, o) in req.steps.iter().zip(&req.spec.orders) {
        let o = match o {
            Ord_::Exact => json!({"type": "exact"}),
            Ord_::Any(v) => json!({"type": "any", "steps": v}),
        };
        let l: Vec<J> = evs.iter().map(|e| event(s, e)).collect();
        steps.push(json!({"events": l, "order": o}));
    }
    let mut excl = vec![];
    for (e, r) in req.excl.iter().zip(&req.spec.excl) {
        let mut j = event(s, e);
        if let Some((a, b)) = r {
            // steps are numbered from one
            j["steps"] = if (*a, *b) == (0, req.steps.len() - 1) { json!({"type": "all"}) } else { json!({"type": "between", "from": a + 1, "to": b + 1}) };
        }
        excl.push(j);
    }
    let mut body = json!({
        "time": time(&req.time), "group": req.group, "steps": steps,
        "timeWindow": {"n": req.window.0, "unit": low(&req.window.1)},
        "chartType": match &req.spec.unit {
            None => json!({"type": "steps"}),
            Some(u) => json!({"type": "conversionOverTime", "intervalUnit": unit(u)}),
        },
        "count": if req.spec.unique { "unique" } else { "nonUnique" },
    });
    let consts: Vec<J> = req.consts.iter().map(|n| rf(&p.prop(n).rf())).collect();
    set(s, &mut body, "holdingConstants", consts.is_empty(), J::Array(consts));
    set(s, &mut body, "exclude", excl.is_empty(), J::Array(excl));
    set(s, &mut body, "filters", req.filters.is_empty(), grouped(p, &req.filters));
    set(s, &mut body, "breakdowns", req.breakdowns.is_empty(), breakdowns(p, &req.breakdowns));
    let url = format!("/api/v1/projects/{}/queries/funnel?timestamp={}", p.id, t.cur / 1000);
    c.note(format!("POST {url} {body}"));
    if !p.customs.is_empty() {
        c.note(format!("{:?}", p.customs));
    }
    for r in &srv.fx.rows {
        c.note(format!("{r:?}"));
    }
    let r = srv.api.post(&srv.tok, &url, &body)?;
    if backward(&req.time) {
        ensure!(r.status == 400, "a time from after its end: status {} {}", r.status, r.short());
        return Ok(());
    }
    let r = r.want(200, "the funnel")?;
    let want = reference(&req.rows(&srv.fx), &req.spec);
    c.nontrivial(want.values().any(|v| v.len() > 1 && v[1].total > 0));
    let j = r.j()?;
    let groups: Vec<String> = std::iter::once("Segment".to_string()).chain(req.breakdowns.iter().cloned()).collect();
    ensure_eq!(j["groups"], json!(groups), "names of the groups");
    let got = j["steps"].as_array().ok_or("no steps")?;
    ensure_eq!(got.len(), req.steps.len(), "steps");
    for (k, st) in got.iter().enumerate() {
        let name = match &req.steps[k][0].0 {
            Ev::Name(i) | Ev::Id(i) => p.events[*i].0.clone(),
            Ev::Custom(i) => p.customs[*i].name.clone(),
        };
        ensure_eq!(st["step"], json!(name), "name of step {k}");
        type Line = (Vec<String>, i64, Tot, [f64; 4]);
        let mut a: Vec<Line> = vec![];
        for d in st["data"].as_array().ok_or("no data")? {
            let g: Vec<String> = d["groups"].as_array().ok_or("no groups")?.iter().map(|g| g.as_str().unwrap_or("?").to_string()).collect();
            let int = |k: &str| d[k].as_i64().ok_or_else(|| format!("{k} of {d}"));
            let dec = |k: &str| match &d[k] {
                J::String(x) => x.parse::<f64>().map_err(|e| e.to_string()),
                j => j.as_f64().ok_or_else(|| format!("{k} of {d}")),
            };
            let tot = Tot { total: int("total")?, dropped: int("droppedOff")?, time: int("timeToConvert")?, time_start: int("timeToConvertFromStart")? };
            a.push((g, int("ts")?, tot, [dec("conversionRatio")?, dec("dropOffRatio")?, dec("avgTimeToConvert")?, dec("avgTimeToConvertFromStart")?]));
        }
        let mut b: Vec<Line> = want
            .iter()
            .map(|((dims, ts), v)| (std::iter::once("0".to_string()).chain(dims.iter().map(label)).collect(), *ts, v[k].clone(), ratios(v, k)))
            .collect();
        let by = |x: &Line, y: &Line| (&x.0, x.1, &x.2).cmp(&(&y.0, y.1, &y.2)).then(x.3[0].total_cmp(&y.3[0]));
        a.sort_by(by);
        b.sort_by(by);
        let plain = |l: &[Line]| l.iter().map(|x| (x.0.clone(), x.1, x.2.clone())).collect::<Vec<_>>();
        ensure_eq!(plain(&a), plain(&b), "step {k}");
        for (x, y) in a.iter().zip(&b) {
            for i in 0..4 {
                ensure!((x.3[i] - y.3[i]).abs() <= 0.011, "step {k} {:?} {}: ratios and averages {:?}, the rows say {:?}", x.0, x.1, x.3, y.3);
            }
        }
    }
    Ok(())
}

fn dtype(p: &Project, r: &PropertyRef) -> DType {
    let (PropertyRef::Event(n) | PropertyRef::Group(n, _)) = r else { return DType::String };
    if let Some(x) = p.props.iter().find(|x| x.name == *n) {
        return x.dt.clone();
    }
    match n.as_str() {
        COLUMN_EVENT_ID | GROUP_COLUMN_VERSION => DType::Int64,
        COLUMN_CREATED_AT | GROUP_COLUMN_CREATED_AT => DType::Timestamp,
        _ => DType::String,
    }
}
fn of(j: &J) -> Result<PropertyRef, String> {
    let n = j["propertyName"].as_str().ok_or_else(|| format!("no property in {j}"))?.to_string();
    Ok(match j["propertyType"].as_str() {
        Some("event") => PropertyRef::Event(n),
        Some("group") => PropertyRef::Group(n, j["group"].as_u64().ok_or("no group")? as usize),
        o => return Err(format!("a property of type {o:?}")),
    })
}
/// Columns of the answer, by property.
fn columns(r: &Resp) -> Result<Vec<(PropertyRef, Vec<J>)>, String> {
    let mut out = vec![];
    for c in r.j()?["columns"].as_array().ok_or("no columns")? {
        let d: Vec<J> = c["data"].as_array().ok_or("no data")?.iter().map(canon_num).collect();
        out.push((of(c)?, d));
    }
    Ok(out)
}

pub fn records_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    BIG.with(|b| b.set(false));
    NO_TEXT_ORDER.with(|t| t.set(true));
    let mut t = gen_time(s);
    whole(&mut t);
    let used = gen_used(s, &NAMES, 2, 6);
    let fx = chk_query::rec::world(root, s, &t, &used)?;
    let project = s.us(0, fx.ps.len() - 1);
    let mut q = Search::gen(s, &fx.ps[project], project, &used, &t);
    for (e, f) in &mut q.events {
        named(e);
        f.iter_mut().for_each(cents);
    }
    q.filters.iter_mut().for_each(cents);
    let srv = serve(fx)?;
    let p = &srv.fx.ps[project];
    let mut body = json!({"time": time(&q.time)});
    let mut evs = vec![];
    for (e, f) in &q.events {
        let mut j = ev(p, e);
        set(s, &mut j, "filters", f.is_empty(), filters(p, f));
        evs.push(j);
    }
    set(s, &mut body, "events", evs.is_empty(), J::Array(evs));
    set(s, &mut body, "filters", q.filters.is_empty(), grouped(p, &q.filters));
    if let Some(l) = &q.props {
        body["properties"] = J::Array(l.iter().map(rf).collect());
    }
    let url = format!("/api/v1/projects/{}/event-records/search?timestamp={}", p.id, t.cur / 1000);
    c.note(format!("POST {url} {body}"));
    for r in &srv.fx.rows {
        c.note(format!("{r:?}"));
    }
    let rows = q.rows(&srv.fx);
    c.nontrivial(rows.len() > 1 && rows.len() < srv.fx.rows.len());
    let r = srv.api.post(&srv.tok, &url, &body)?;
    if backward(&q.time) {
        ensure!(r.status == 400, "a time from after its end: status {} {}", r.status, r.short());
    } else {
        let r = r.want(200, "the search")?;
        let cols = columns(&r)?;
        let compact = srv.api.post(&srv.tok, &format!("{url}&format=jsonCompact"), &body)?.want(200, "the search, compact")?;
        ensure_eq!(compact.j()?.as_array().map(|a| a.len()), Some(cols.len()), "columns of the compact answer");
        if rows.is_empty() {
            ensure!(cols.iter().all(|c| c.1.is_empty()), "records of an empty answer: {}", r.short());
        } else {
            for (k, (pr, d)) in cols.iter().enumerate() {
                ensure_eq!(d.len(), rows.len(), "records in column {pr:?}");
                let want: Option<Vec<J>> = rows.iter().map(|x| event_value(&srv.fx, x, pr).map(|v| cell_json(&v, &dtype(p, pr)))).collect();
                if let Some(w) = want {
                    ensure_eq!(d, &w, "column {pr:?}");
                    let raw: Vec<J> = compact.j()?[k].as_array().ok_or("no data")?.iter().map(canon_num).collect();
                    ensure_eq!(raw, w, "column {pr:?} of the compact answer");
                }
            }
            for pr in q.props.iter().flatten() {
                ensure!(cols.iter().any(|c| c.0 == *pr), "no column {pr:?}");
            }
        }
    }
    // one of them by its identifier
    let id = s.range(1, srv.fx.rows.len() as i64 + 1);
    let r = srv.api.get(&srv.tok, &format!("/api/v1/projects/{}/event-records/{id}", p.id))?;
    c.note(format!("GET event-records/{id}"));
    match srv.fx.rows.iter().find(|r| r.project == project && r.id == id) {
        None => ensure!(!r.ok(), "event {id} of the project is no event of it: {}", r.short()),
        Some(row) => {
            let r = r.want(200, "the event")?;
            for x in r.j()?["properties"].as_array().ok_or("no properties")? {
                let pr = of(x)?;
                if let Some(v) = event_value(&srv.fx, row, &pr) {
                    let w = if v == V::Null { J::Null } else { cell_json(&v, &dtype(p, &pr)) };
                    ensure_eq!(canon_num(&x["value"]), w, "{pr:?} of event {id}");
                }
            }
        }
    }
    Ok(())
}

pub fn groups_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    BIG.with(|b| b.set(false));
    NO_TEXT_ORDER.with(|t| t.set(true));
    let mut t = gen_time(s);
    whole(&mut t);
    let w = group_world(root, s, &t)?;
    let project = s.us(0, w.fx.ps.len() - 1);
    let used: Vec<&str> = w.used.iter().map(|u| u.as_str()).collect();
    let mut fs = if s.bool() { gen_filters(s, &w.fx.ps[project], &used, 2) } else { vec![] };
    fs.iter_mut().for_each(cents);
    let g = w.g;
    let rows_all = w.rows.clone();
    let used: Vec<String> = w.used.clone();
    let srv = serve(w.fx)?;
    let p = &srv.fx.ps[project];
    let timed = s.chance(2, 3);
    let mut body = json!({"group": g});
    set(s, &mut body, "time", !timed, time(&t.time));
    set(s, &mut body, "filters", fs.is_empty(), grouped(p, &fs));
    let sys = [GROUP_COLUMN_ID, GROUP_COLUMN_CREATED_AT, GROUP_COLUMN_VERSION];
    let mut props = vec![];
    if s.chance(2, 3) {
        let k = s.us(1, 3);
        for _ in 0..k {
            let n = if s.bool() { s.pick(&sys).to_string() } else { s.pick(&used).to_string() };
            props.push(PropertyRef::Group(n, g));
        }
    }
    set(s, &mut body, "properties", props.is_empty(), J::Array(props.iter().map(rf).collect()));
    let desc = s.bool();
    let sorted = s.bool();
    if sorted {
        body["sort"] = with(rf(&PropertyRef::Group(GROUP_COLUMN_VERSION.into(), g)), json!({"direction": if desc { "desc" } else { "asc" }}));
    }
    let url = format!("/api/v1/projects/{}/group-records/search?timestamp={}", p.id, t.cur / 1000);
    c.note(format!("POST {url} {body}"));
    for r in &rows_all {
        c.note(format!("{r:?}"));
    }
    let rows: Vec<_> = rows_all
        .iter()
        .filter(|r| r.project == project && (!timed || (r.ts >= t.from && r.ts <= t.to)))
        .filter(|r| fs.iter().all(|f| f.holds(r.vals.get(&f.prop).unwrap_or(&V::Null))))
        .collect();
    c.nontrivial(rows.len() > 1 && rows.len() < rows_all.len());
    let r = srv.api.post(&srv.tok, &url, &body)?;
    if timed && backward(&t.time) {
        ensure!(r.status == 400, "a time from after its end: status {} {}", r.status, r.short());
    } else {
        let r = r.want(200, "the search")?;
        let cols = columns(&r)?;
        let n = cols.first().map_or(0, |c| c.1.len());
        ensure_eq!(n, rows.len().min(100), "records");
        let shown = |x: &chk_query::rec::GRow| -> Vec<J> {
            cols.iter().map(|c| group_value(p, g, x, &c.0).map_or(J::Null, |v| cell_json(&v, &dtype(p, &c.0)))).collect()
        };
        let mut left: Vec<Vec<J>> = rows.iter().map(|x| shown(x)).collect();
        for i in 0..n {
            let a: Vec<J> = cols.iter().map(|c| if group_value(p, g, &rows_all[0], &c.0).is_some() { c.1[i].clone() } else { J::Null }).collect();
            let k = left.iter().position(|l| *l == a).ok_or_else(|| format!("{a:?} of {:?} is no record", cols.iter().map(|c| &c.0).collect::<Vec<_>>()))?;
            left.remove(k);
        }
        if let Some(c) = cols.iter().find(|c| c.0 == PropertyRef::Group(GROUP_COLUMN_VERSION.into(), g)).filter(|_| sorted) {
            for x in c.1.windows(2) {
                let (a, b) = (x[0].as_f64(), x[1].as_f64());
                ensure!(if desc { a >= b } else { a <= b }, "the versions aren't in order: {:?}", c.1);
            }
        }
        for pr in &props {
            ensure!(n == 0 || cols.iter().any(|c| c.0 == *pr), "no column {pr:?}");
        }
    }
    let id = s.range(1, 13);
    let url = format!("/api/v1/projects/{}/group-records/{g}/{}", p.id, group_name(g, id).replace(' ', "%20"));
    c.note(format!("GET {url}"));
    let r = srv.api.get(&srv.tok, &url)?;
    match rows_all.iter().find(|r| r.project == project && r.id == id) {
        None => ensure!(!r.ok(), "there is no group record {id}: {}", r.short()),
        Some(row) => {
            let r = r.want(200, "the record")?;
            for x in r.j()?["properties"].as_array().ok_or("no properties")? {
                let pr = of(x)?;
                if let Some(v) = group_value(p, g, row, &pr) {
                    let w = if v == V::Null { J::Null } else { cell_json(&v, &dtype(p, &pr)) };
                    ensure_eq!(canon_num(&x["value"]), w, "{pr:?} of the record");
                }
            }
        }
    }
    Ok(())
}

pub fn values_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    BIG.with(|b| b.set(false));
    NO_TEXT_ORDER.with(|t| t.set(true));
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 1, 4);
    let fx = chk_query::rec::world(root, s, &t, &used)?;
    let project = s.us(0, fx.ps.len() - 1);
    let (_, n, mut e, mut f) = gen_values(s, &fx.ps[project], &used);
    if let Some(e) = &mut e {
        named(e);
    }
    if let Some(f) = &mut f {
        cents(f);
    }
    let srv = serve(fx)?;
    let p = &srv.fx.ps[project];
    let mut body = rf(&p.prop(&n).rf());
    if let Some(e) = &e {
        body = with(body, ev(p, e));
    }
    set(s, &mut body, "filter", f.is_none(), f.as_ref().map_or(J::Null, condition));
    let url = format!("/api/v1/projects/{}/property-values", p.id);
    c.note(format!("POST {url} {body}"));
    for r in &srv.fx.rows {
        c.note(format!("{r:?}"));
    }
    let want: BTreeSet<V> = srv
        .fx
        .rows
        .iter()
        .filter(|r| r.project == project && e.as_ref().map(|e| e.holds(p, r)).unwrap_or(true))
        .map(|r| r.get(&n))
        .filter(|v| f.as_ref().map(|f| f.holds(v)).unwrap_or(true))
        .collect();
    c.nontrivial(want.len() > 1);
    let r = srv.api.post(&srv.tok, &url, &body)?.want(200, "values")?;
    let got: Vec<J> = r.j()?["data"].as_array().ok_or("no data")?.iter().map(canon_num).collect();
    let mut w: Vec<V> = want.into_iter().collect();
    // without a value comes last
    if w.first() == Some(&V::Null) {
        w.rotate_left(1);
    }
    ensure_eq!(got, w.iter().map(|v| cell_json(v, &p.prop(&n).dt)).collect::<Vec<_>>(), "values of {n}");
    Ok(())
}
