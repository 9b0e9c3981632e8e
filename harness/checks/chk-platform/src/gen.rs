//! Queries as a client sends them.
use common::types::DType;
use proputil::*;
use serde_json::{json, Map, Value as J};

#[derive(Clone, Debug)]
pub struct Names {
    pub events: Vec<String>,
    pub customs: Vec<u64>,
    /// properties of events and of the groups, with their types
    pub props: Vec<(Option<usize>, String, DType)>,
    /// those every record has
    pub fixed: Vec<(Option<usize>, String)>,
}

pub fn unit(s: &mut Src) -> &'static str {
    *s.pick(&["hour", "day", "week", "month", "year"])
}
fn ts(s: &mut Src) -> String {
    let t = 1_600_000_000 + s.below(100_000_000) as i64;
    chrono::DateTime::from_timestamp(t, 0).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
}
pub fn time(s: &mut Src) -> J {
    match s.us(0, 2) {
        0 => {
            let (a, b) = (ts(s), ts(s));
            json!({"type": "between", "from": a.clone().min(b.clone()), "to": a.max(b)})
        }
        1 => json!({"type": "from", "from": ts(s)}),
        _ => json!({"type": "last", "last": s.range(1, 60), "unit": unit(s)}),
    }
}
pub fn event(s: &mut Src, n: &Names) -> J {
    if !n.customs.is_empty() && s.chance(1, 4) {
        json!({"eventType": "custom", "eventId": *s.pick(&n.customs)})
    } else {
        json!({"eventType": "regular", "eventName": s.pick(&n.events).clone()})
    }
}
pub fn property(p: &(Option<usize>, String, DType)) -> J {
    match p.0 {
        Some(g) => json!({"propertyType": "group", "propertyName": p.1, "group": g}),
        None => json!({"propertyType": "event", "propertyName": p.1}),
    }
}
pub fn prop(s: &mut Src, n: &Names) -> J {
    property(s.pick(&n.props))
}
fn merge(mut a: J, b: J) -> J {
    a.as_object_mut().unwrap().extend(b.as_object().unwrap().clone());
    a
}
pub fn num(s: &mut Src) -> J {
    match s.us(0, 4) {
        // up to 28 digits are kept
        4 => {
            let m = s.range(1, 7) as f64 * 10f64.powi(s.us(10, 28) as i32);
            json!(if s.bool() { m } else { -m })
        }
        0 => json!(s.range(-100, 1000)),
        1 => json!(s.range(-100_000, 100_000) as f64 / 1000.0),
        2 => json!(0),
        _ => json!(1_600_000_000_000i64 + s.below(100_000_000) as i64),
    }
}
pub fn value(s: &mut Src, t: &DType) -> J {
    match t {
        DType::String => json!(s.string(4)),
        DType::Boolean => json!(s.bool()),
        _ => num(s),
    }
}
/// A filter that is right for the property.
pub fn filter(s: &mut Src, n: &Names) -> J {
    let p = s.pick(&n.props).clone();
    let ops: &[&str] = match p.2 {
        DType::String => &["eq", "neq", "like", "notLike", "regex", "notRegex", "exists", "empty"],
        DType::Boolean => &["eq", "neq", "true", "false", "exists", "empty"],
        _ => &["eq", "neq", "gt", "gte", "lt", "lte", "exists", "empty"],
    };
    let op = *s.pick(ops);
    let mut f = merge(json!({"type": "property", "operation": op}), property(&p));
    if !["exists", "empty", "true", "false"].contains(&op) {
        let k = s.us(1, 3);
        f["value"] = J::Array((0..k).map(|_| value(s, &p.2)).collect());
    }
    f
}
/// A filter the server can apply: it refuses to store another one.
pub fn valid_filter(s: &mut Src, n: &Names) -> J {
    let mut f = filter(s, n);
    let op = f["operation"].as_str().unwrap().to_string();
    let of = (f["group"].as_u64().map(|g| g as usize), f["propertyName"].as_str().unwrap().to_string());
    if ["exists", "empty"].contains(&op.as_str()) && n.fixed.contains(&of) {
        let p = n.props.iter().find(|p| (p.0, &p.1) == (of.0, &of.1)).unwrap();
        f["operation"] = json!("eq");
        f["value"] = json!([value(s, &p.2)]);
    }
    if ["regex", "notRegex"].contains(&op.as_str()) {
        for v in f["value"].as_array_mut().unwrap() {
            *v = json!(v.as_str().unwrap().chars().filter(|c| c.is_alphanumeric() || *c == '.').collect::<String>());
        }
    }
    f
}
pub fn filters(s: &mut Src, n: &Names, min: usize) -> J {
    let k = s.us(min, 2);
    J::Array((0..k).map(|_| filter(s, n)).collect())
}
pub fn grouped(s: &mut Src, n: &Names) -> J {
    let mut g = json!({"filters": filters(s, n, 1)});
    if s.bool() {
        g["filtersCondition"] = json!("and");
    }
    json!({"groups": [g]})
}
fn breakdowns(s: &mut Src, n: &Names) -> J {
    let k = s.us(0, 2);
    let l: Vec<J> = (0..k).map(|_| merge(json!({"type": "property"}), prop(s, n))).collect();
    let mut u: Vec<J> = vec![];
    for b in l {
        if !u.contains(&b) {
            u.push(b);
        }
    }
    J::Array(u)
}
fn agg(s: &mut Src) -> &'static str {
    *s.pick(&["count", "sum", "min", "max", "avg"])
}
pub fn query(s: &mut Src, n: &Names) -> J {
    match s.us(0, 8) {
        0 => json!({"type": "countEvents"}),
        1 => json!({"type": "countUniqueGroups"}),
        2 => json!({"type": "dailyActiveGroups"}),
        3 => json!({"type": "weeklyActiveGroups"}),
        4 => json!({"type": "monthlyActiveGroups"}),
        5 => json!({"type": "countPerGroup", "aggregate": agg(s)}),
        6 => {
            let p = prop(s, n);
            merge(json!({"type": "aggregatePropertyPerGroup", "aggregatePerGroup": agg(s), "aggregate": agg(s)}), p)
        }
        7 => {
            let p = prop(s, n);
            merge(json!({"type": "aggregateProperty", "aggregate": agg(s)}), p)
        }
        _ => json!({"type": "formula", "formula": s.string(6)}),
    }
}
fn opt(s: &mut Src, o: &mut Map<String, J>, k: &str, f: impl FnOnce(&mut Src) -> J) {
    if s.chance(1, 3) {
        let v = f(s);
        o.insert(k.to_string(), v);
    }
}
fn segment_time(s: &mut Src) -> J {
    match s.us(0, 3) {
        0 => {
            let (a, b) = (ts(s), ts(s));
            json!({"type": "between", "from": a.clone().min(b.clone()), "to": a.max(b)})
        }
        1 => json!({"type": "last", "last": s.range(1, 9), "unit": unit(s)}),
        2 => json!({"type": "afterFirstUse", "within": s.range(1, 9), "unit": unit(s)}),
        _ => json!({"type": "windowEach", "n": s.range(1, 9), "unit": unit(s)}),
    }
}
fn segment(s: &mut Src, n: &Names) -> J {
    let cond = |s: &mut Src| match s.us(0, 2) {
        0 => json!({"type": "hasPropertyValue", "property": prop(s, n), "operation": "eq", "value": [num(s), "text", true]}),
        1 => json!({"type": "hadPropertyValue", "property": prop(s, n), "operation": "exists", "time": segment_time(s)}),
        _ => {
            let agg = match s.us(0, 3) {
                0 => json!({"type": "count", "operation": "gt", "value": s.range(0, 9), "time": segment_time(s)}),
                1 => merge(json!({"type": "relativeCount", "operation": "lte", "filters": filters(s, n, 1), "time": segment_time(s)}), event(s, n)),
                2 => merge(
                    json!({"type": "aggregateProperty", "operation": "eq", "value": num(s), "time": segment_time(s),
                        "aggregate": *s.pick(&["min", "max", "sum", "avg", "median", "distinctCount", "percentile25", "percentile75", "percentile90", "percentile99"])}),
                    prop(s, n),
                ),
                _ => json!({"type": "historicalCount", "operation": "neq", "value": s.range(0, 9), "time": segment_time(s)}),
            };
            let mut d = merge(json!({"type": "didEvent", "aggregate": agg}), event(s, n));
            if s.bool() {
                d["filters"] = filters(s, n, 1);
            }
            d
        }
    };
    let k = s.us(1, 2);
    let conds: Vec<J> = (0..k).map(|_| { let k = s.us(1, 2); J::Array((0..k).map(|_| cond(s)).collect()) }).collect();
    json!({"name": s.string(4), "conditions": conds})
}
pub fn es(s: &mut Src, n: &Names, segments: bool) -> J {
    let k = s.us(1, 2);
    let events: Vec<J> = (0..k)
        .map(|_| {
            let k = s.us(1, 3);
            let q: Vec<J> = (0..k).map(|_| query(s, n)).collect();
            let mut e = merge(event(s, n), json!({"queries": q}));
            let o = e.as_object_mut().unwrap();
            opt(s, o, "filters", |s| filters(s, n, 0));
            opt(s, o, "breakdowns", |s| breakdowns(s, n));
            e
        })
        .collect();
    let mut r = json!({
        "time": time(s), "group": s.us(0, 4), "intervalUnit": unit(s), "chartType": *s.pick(&["line", "column", "pie"]),
        "analysis": match s.us(0, 3) {
            0 => json!({"type": "linear"}),
            1 => json!({"type": "rollingAverage", "window": s.us(1, 9), "unit": unit(s)}),
            2 => json!({"type": "logarithmic"}),
            _ => json!({"type": "cumulative"}),
        },
        "events": events,
    });
    let o = r.as_object_mut().unwrap();
    opt(s, o, "compare", |s| json!({"offset": s.us(0, 9), "unit": unit(s)}));
    opt(s, o, "filters", |s| grouped(s, n));
    opt(s, o, "breakdowns", |s| breakdowns(s, n));
    if segments {
        opt(s, o, "segments", |s| json!([segment(s, n)]));
    }
    r
}
pub fn funnel(s: &mut Src, n: &Names, segments: bool) -> J {
    let k = s.us(1, 4);
    let steps: Vec<J> = (0..k)
        .map(|_| {
            let m = s.us(1, 2);
            let events: Vec<J> = (0..m)
                .map(|_| {
                    let mut e = event(s, n);
                    opt(s, e.as_object_mut().unwrap(), "filters", |s| filters(s, n, 1));
                    e
                })
                .collect();
            let order = if s.chance(1, 3) { json!({"type": "any", "steps": [[0, s.us(0, k - 1)]]}) } else { json!({"type": "exact"}) };
            json!({"events": events, "order": order})
        })
        .collect();
    let mut r = json!({
        "time": time(s), "group": s.us(0, 4), "steps": steps,
        "timeWindow": {"n": s.us(1, 9), "unit": unit(s)},
        "chartType": match s.us(0, 3) {
            0 | 1 => json!({"type": "steps"}),
            2 => json!({"type": "conversionOverTime", "intervalUnit": unit(s)}),
            _ => json!({"type": "timeToConvert", "intervalUnit": unit(s), "minInterval": s.us(0, 5), "maxInterval": s.us(6, 9)}),
        },
        "count": *s.pick(&["unique", "nonUnique", "session"]),
    });
    let o = r.as_object_mut().unwrap();
    opt(s, o, "filter", |s| match s.us(0, 2) {
        0 => json!({"type": "dropOffOnAnyStep"}),
        1 => json!({"type": "dropOffOnStep", "step": s.us(0, k - 1)}),
        _ => json!({"type": "timeToConvert", "from": s.us(0, 4), "to": s.us(5, 9)}),
    });
    opt(s, o, "touch", |s| match s.us(0, 2) {
        0 => json!({"type": "first"}),
        1 => json!({"type": "last"}),
        _ => json!({"type": "step", "step": s.us(0, k - 1)}),
    });
    opt(s, o, "holdingConstants", |s| json!([prop(s, n)]));
    opt(s, o, "exclude", |s| {
        let mut e = event(s, n);
        let (a, b) = (s.us(1, k), s.us(1, k));
        if s.bool() {
            e["steps"] = if s.bool() { json!({"type": "all"}) } else { json!({"type": "between", "from": a.min(b), "to": a.max(b)}) };
        }
        opt(s, e.as_object_mut().unwrap(), "filters", |s| filters(s, n, 1));
        json!([e])
    });
    opt(s, o, "filters", |s| grouped(s, n));
    opt(s, o, "breakdowns", |s| breakdowns(s, n));
    if segments {
        opt(s, o, "segments", |s| json!([segment(s, n)]));
    }
    r
}

/// What two spellings of the same have in common: without nulls, empty lists and defaults.
pub fn canon(j: &J) -> J {
    match j {
        J::Object(m) => {
            let mut o = Map::new();
            for (k, v) in m {
                let v = canon(v);
                let drop = v.is_null()
                    || v.as_array().map_or(false, |a| a.is_empty())
                    || (k == "filtersCondition" && v == json!("and"));
                if !drop {
                    o.insert(k.clone(), v);
                }
            }
            J::Object(o)
        }
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        J::Number(n) => json!(n.as_f64()),
        v => v.clone(),
    }
}
