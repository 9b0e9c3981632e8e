pub mod fun;
pub mod fx;
pub mod meta;
pub mod rec;
pub mod req;
pub mod world;

use std::path::Path;

use common::query::{AggregateFunction as Agg, PartitionedAggregateFunction as PAgg, QueryTime, TimeIntervalUnit as Unit};
use fx::*;
use proputil::*;
use req::*;
use world::World;

pub struct When {
    pub from: i64,
    pub to: i64,
    pub cur: i64,
    pub time: QueryTime,
    pub unit: Unit,
    pub span: i64,
}

pub fn gen_time(s: &mut Src) -> When {
    let unit = s.pick(&[Unit::Hour, Unit::Day, Unit::Week, Unit::Month, Unit::Year]).clone();
    let span = match unit {
        Unit::Hour => 6,
        Unit::Day => 8,
        Unit::Week => 30,
        _ => 100,
    };
    let a = if s.bool() { T0 - span * HOUR } else { ts(s, span) };
    let b = if s.bool() { T0 + span * DAY } else { ts(s, span) };
    let (mut from, mut to) = (a.min(b), a.max(b));
    if s.chance(1, 40) {
        std::mem::swap(&mut from, &mut to);
    }
    let cur = if s.bool() { to } else { ts(s, span) };
    let time = match s.weighted(&[3, 1, 1]) {
        0 => QueryTime::Between { from: dt(from), to: dt(to) },
        1 => QueryTime::From(dt(from)),
        _ => QueryTime::Last { last: s.range(0, 4), unit: unit.clone() },
    };
    let r = time.range(dt(cur));
    (from, to) = (r.0.timestamp_millis(), r.1.timestamp_millis());
    When { from, to, cur, time, unit, span }
}

pub const NAMES: [&str; 16] = [
    "country", "tier", "city", "brand", "label", "amount", "cost", "paid", "when", "n8", "n16", "n32", "n64", "plan",
    "age", "sector",
];
const NUMS: [&str; 7] = ["amount", "cost", "age", "n8", "n16", "n32", "n64"];

/// A few properties, so that the request and the rows are about the same ones.
pub fn gen_used(s: &mut Src, from: &[&'static str], lo: usize, hi: usize) -> Vec<&'static str> {
    let mut v = from.to_vec();
    s.shuffle(&mut v);
    v.truncate(s.us(lo, hi));
    v
}

#[derive(Default)]
pub struct Opts {
    pub avg: bool,
    pub breakdowns: &'static [&'static str],
    pub plain: bool,
}

pub fn gen_query(s: &mut Src, used: &[&str], o: &Opts) -> Q {
    let outer: &[Agg] =
        if o.avg { &[Agg::Count, Agg::Sum, Agg::Min, Agg::Max, Agg::Avg] } else { &[Agg::Count, Agg::Sum, Agg::Min, Agg::Max] };
    let g = s.pick(&[PAgg::Count, PAgg::Sum, PAgg::Min, PAgg::Max, PAgg::Avg]).clone();
    let f = s.pick(outer).clone();
    let nums: Vec<&str> = used.iter().filter(|n| NUMS.contains(n)).cloned().collect();
    let n = if nums.is_empty() { String::new() } else { s.pick(&nums).to_string() };
    match s.weighted(&[2, 2, 1, 2, 2, 2]) {
        0 => Q::Count,
        1 => Q::Unique,
        2 => Q::Daily,
        3 => Q::PerGroup(f),
        4 if n != "" => Q::Prop(n, if o.avg && s.chance(1, 4) { Agg::Avg } else { f }),
        5 if n != "" => Q::PropPerGroup(n, g, f),
        _ => Q::Count,
    }
}

pub fn gen_filters(s: &mut Src, p: &Project, used: &[&str], hi: usize) -> Vec<F> {
    s.vec(0, hi, |s| {
        let n = *s.pick(used);
        F::gen(s, p.prop(n))
    })
}

pub fn gen_req(s: &mut Src, p: &Project, project: usize, used: &[&str], t: &When, o: &Opts) -> Req {
    let bs: Vec<&str> = used.iter().filter(|n| o.breakdowns.contains(n)).cloned().collect();
    let group = if o.avg { 0 } else { s.weighted(&[4, 1]) };
    let breakdown = |s: &mut Src, n: u64, hi: usize| {
        if bs.is_empty() || !s.chance(1, n) { vec![] } else { s.vec(1, hi, |s| s.pick(&bs).to_string()) }
    };
    let n = s.us(1, 3);
    let shared = breakdown(s, 2, 2);
    let mut events = vec![];
    for _ in 0..n {
        let own: Vec<String> = breakdown(s, 3, 2);
        events.push(E {
            event: Ev::gen(s, p),
            filters: if !o.plain && s.chance(1, 2) { gen_filters(s, p, used, 2) } else { vec![] },
            breakdowns: own,
            queries: s.vec(1, 3, |s| gen_query(s, used, o)),
        });
    }
    Req {
        project,
        from: t.from,
        to: t.to,
        time: t.time.clone(),
        unit: t.unit.clone(),
        group,
        events,
        filters: if !o.plain && s.chance(1, 3) { gen_filters(s, p, used, 2) } else { vec![] },
        breakdowns: shared,
    }
}

fn q1_case(root: &Path, s: &mut Src, c: &mut Case, o: &Opts) -> R {
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 2, 6);
    let sh = Shape { projects: s.us(1, 2), users: if o.avg { 1 } else { s.range(1, 12) }, rows: if s.chance(1, 8) { s.us(0, 4) } else { s.us(5, 60) }, span: t.span, churn: s.bool(), apart: false };
    let mut fx = Fx::build(root, s, &sh, &used)?;
    let project = s.us(0, sh.projects - 1);
    gen_customs(s, &fx.w, &mut fx.ps[project], &used)?;
    let p = &fx.ps[project];
    let req = gen_req(s, p, project, &used, &t, o);
    c.note(format!("{req:?}"));
    if !p.customs.is_empty() {
        c.note(format!("{:?}", p.customs));
    }
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    let want = req.expected(&fx);
    let n: usize = (0..req.events.len()).map(|i| req.rows(&fx, i).len()).sum();
    let got = lines(&run(&fx, project, req.to(p), t.cur)?, p, &req)?;
    if req.limited(&fx) {
        c.label("limited");
        return req.same_limited(&fx, &got).map(|_| ());
    }
    c.nontrivial(n > 2);
    same(&got, &want)
}

/// Answers with so many lines that some are left out.
fn q1_many_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let mut t = gen_time(s);
    if s.chance(7, 8) {
        (t.from, t.to) = (T0 - t.span * DAY, T0 + t.span * DAY);
        t.time = QueryTime::Between { from: dt(t.from), to: dt(t.to) };
    }
    let mut used = vec!["amount"];
    let few = *s.pick(&["paid", "paid", "paid", "country", "n64"]);
    used.push(few);
    WIDE.with(|b| b.set(true));
    let r = q1_many(root, s, c, few, &used, &t);
    WIDE.with(|b| b.set(false));
    r
}
fn q1_many(root: &Path, s: &mut Src, c: &mut Case, few: &'static str, used: &[&'static str], t: &When) -> R {
    let sh = Shape { projects: 1, users: s.range(1, 12), rows: s.us(60, 300), span: t.span, churn: s.bool(), apart: false };
    let mut fx = Fx::build(root, s, &sh, used)?;
    gen_customs(s, &fx.w, &mut fx.ps[0], used)?;
    let p = &fx.ps[0];
    let mut req = gen_req(s, p, 0, used, t, &Opts { avg: false, breakdowns: &NAMES, plain: true });
    req.events.truncate(2);
    for e in &mut req.events {
        if s.bool() {
            e.event = Ev::Name(0);
        }
        e.breakdowns = if s.chance(1, 6) { vec![] } else { vec!["amount".to_string()] };
        // averages are not exact
        e.queries.retain(|q| !q.name().to_uppercase().contains("AVG"));
        if e.queries.is_empty() || s.bool() {
            e.queries = vec![Q::Prop("amount".into(), Agg::Sum)];
        }
    }
    req.breakdowns = if s.chance(1, 6) { vec![] } else { vec![few.to_string()] };
    c.note(format!("{req:?}"));
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    let got = lines(&run(&fx, 0, req.to(p), t.cur)?, p, &req)?;
    let left_out = req.same_limited(&fx, &got)?;
    c.nontrivial(left_out > 0);
    if !req.limited(&fx) {
        return same(&got, &req.expected(&fx));
    }
    Ok(())
}

fn q1(p: &mut Prop) {
    let root = p.scratch();
    let o = Opts { avg: false, breakdowns: &NAMES, plain: false };
    p.suite("answers", "at least three rows match the request", 1500, 30_000, |s, c| q1_case(&root, s, c, &o));
    let o = Opts { avg: true, breakdowns: &["country", "tier", "paid"], plain: false };
    p.suite("averages", "at least three rows match the request", 200, 10_000, |s, c| q1_case(&root, s, c, &o));
    p.suite("many lines", "some lines are left out", 1000, 15_000, |s, c| q1_many_case(&root, s, c));
    p.finding("average-of-partial-averages", "the average of a property over users of several partitions is the average of the partitions' averages", || {
        let w = World::new(&root)?;
        let pr = project(&w, 1)?;
        let mut rows = vec![];
        for (i, user) in [1, 2, 2, 2, 3, 3, 4].iter().enumerate() {
            let r = Row {
                project: 0,
                user: *user,
                company: None,
                ts: T0,
                event: 0,
                id: i as i64 + 1,
                vals: [("amount".to_string(), V::D(*user as i128 * DEC))].into(),
            };
            insert(&w, &pr, &r)?;
            rows.push(r);
        }
        let fx = Fx { w, ps: vec![pr], rows };
        let e = E { event: Ev::Name(0), filters: vec![], breakdowns: vec![], queries: vec![Q::Prop("amount".into(), Agg::Avg)] };
        let req = Req { project: 0, from: T0, to: T0 + HOUR, time: QueryTime::Between { from: dt(T0), to: dt(T0 + HOUR) }, unit: Unit::Day, group: 0, events: vec![e], filters: vec![], breakdowns: vec![] };
        let got = lines(&run(&fx, 0, req.to(&fx.ps[0]), T0)?, &fx.ps[0], &req)?;
        same(&got, &req.expected(&fx))
    });
}

fn q4(p: &mut Prop) {
    let root = p.scratch();
    p.suite("batches", "some attempt got to the second step", 6000, 300_000, |s, c| fun::batches_case(s, c));
    p.suite("reports", "some attempt got to the second step", 1500, 25_000, |s, c| fun::report_case(&root, s, c));
}

fn q5(p: &mut Prop) {
    let root = p.scratch();
    p.suite("search", "more than one row and not all rows match", 1200, 25_000, |s, c| rec::events_case(&root, s, c));
    p.suite("by id", "the project has an event of the id", 200, 8_000, |s, c| rec::event_case(&root, s, c));
}
fn q6(p: &mut Prop) {
    let root = p.scratch();
    p.suite("search", "more than one record and not all match", 600, 25_000, |s, c| rec::groups_case(&root, s, c));
    p.suite("by id", "the record exists", 200, 8_000, |s, c| rec::group_case(&root, s, c));
    p.finding("group-records-lost-between-parts", "of the records of a project in two overlapping parts of a group table, one is found, with another's version", || rec::parts_witness(&root));
}
fn q7(p: &mut Prop) {
    let root = p.scratch();
    p.suite("values", "more than one value", 1500, 25_000, |s, c| rec::values_case(&root, s, c));
}

fn q2(p: &mut Prop) {
    let root = p.scratch();
    p.suite("layouts", "an answer has more than two lines", 1200, 20_000, |s, c| meta::layout_case(&root, s, c));
}
fn q3(p: &mut Prop) {
    let root = p.scratch();
    p.suite("other projects", "another project has events and an answer more than two lines", 1200, 20_000, |s, c| meta::isolation_case(&root, s, c));
}

pub fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut p = Prop::new(&id);
    match id.as_str() {
        "Q01" => q1(&mut p),
        "Q02" => q2(&mut p),
        "Q03" => q3(&mut p),
        "Q04" => q4(&mut p),
        "Q05" => q5(&mut p),
        "Q06" => q6(&mut p),
        "Q07" => q7(&mut p),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    p.finish();
}
