//! Generated segmentation requests and the answers plain loops over the rows give.
use std::collections::{BTreeMap, BTreeSet};

use arrow::array::{Array, ArrayRef, BooleanArray, Decimal128Array, Int64Array, StringArray};
use arrow::compute::cast;
use arrow::datatypes::{DataType, TimeUnit};
use chrono::{DateTime, Datelike, Duration, NaiveDate, TimeZone, Timelike, Utc};
use common::event_segmentation::{Analysis, ChartType, Event, EventSegmentationRequest, NamedQuery, Query};
use common::query::{
    AggregateFunction as Agg, Breakdown, EventRef, PartitionedAggregateFunction as PAgg, PropValueFilter,
    PropValueOperation as Op, QueryTime, TimeIntervalUnit as Unit,
};
use common::{DECIMAL_PRECISION, DECIMAL_SCALE};
use common::types::DType;
use metadata::custom_events::{self, CreateCustomEventRequest};
use datafusion_common::ScalarValue;
use proputil::*;
use query::context::Format;
use query::event_segmentation::EventSegmentationProvider;
use query::{ColumnarDataTable, Context};

use crate::fx::*;

// ---------------------------------------------------------------- filters
#[derive(Clone, Debug)]
pub struct F {
    pub prop: String,
    pub op: Op,
    pub vals: Option<Vec<V>>,
}

pub fn like(t: &[char], p: &[char]) -> bool {
    match p.split_first() {
        None => t.is_empty(),
        Some(('%', r)) => (0..=t.len()).any(|i| like(&t[i..], r)),
        Some(('_', r)) => !t.is_empty() && like(&t[1..], r),
        Some((c, r)) => t.first() == Some(c) && like(&t[1..], r),
    }
}

thread_local! {
    /// The HTTP API refuses comparing texts by order.
    pub static NO_TEXT_ORDER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl F {
    pub fn gen(s: &mut Src, p: &PropSpec) -> F {
        let one = |s: &mut Src| loop {
            let v = value(s, p);
            if v != V::Null {
                return v;
            }
        };
        let ops: Vec<Op> = match (&p.dt, p.dict.is_some()) {
            (DType::String, true) => {
                vec![Op::Eq, Op::Neq, Op::Exists, Op::Empty, Op::Like, Op::NotLike, Op::Regex, Op::NotRegex]
            }
            (DType::String, false) if NO_TEXT_ORDER.with(|t| t.get()) => {
                vec![Op::Eq, Op::Neq, Op::Exists, Op::Empty, Op::Like, Op::NotLike, Op::Regex, Op::NotRegex]
            }
            (DType::String, false) => vec![
                Op::Eq, Op::Neq, Op::Exists, Op::Empty, Op::Like, Op::NotLike, Op::Regex, Op::NotRegex, Op::Gt,
                Op::Gte, Op::Lt, Op::Lte,
            ],
            (DType::Boolean, _) => vec![Op::True, Op::False, Op::Exists, Op::Empty, Op::Eq, Op::Neq],
            _ => vec![Op::Eq, Op::Neq, Op::Gt, Op::Gte, Op::Lt, Op::Lte, Op::Exists, Op::Empty],
        };
        let op = s.pick(&ops).clone();
        let vals = match op {
            Op::True | Op::False | Op::Exists | Op::Empty => None,
            Op::Like | Op::NotLike => Some(s.vec(1, 3, |s| {
                V::S(s.pick(&["e%", "%s", "%", "_s", "a_b", "%☃", "ES", "", "na%e%"]).to_string())
            })),
            Op::Regex | Op::NotRegex => Some(s.vec(1, 2, |s| V::S(s.pick(&["^e", "s$", "a.b", "S|f", "☃", "^$"]).to_string()))),
            _ => {
                let n = if s.chance(2, 3) { 1 } else { s.us(2, 3) };
                Some((0..n).map(|_| one(s)).collect())
            }
        };
        F { prop: p.name.clone(), op, vals }
    }
    pub fn holds(&self, v: &V) -> bool {
        match self.op {
            Op::Exists => return *v != V::Null,
            Op::Empty => return *v == V::Null,
            Op::True => return *v == V::B(true),
            Op::False => return *v == V::B(false),
            _ => {}
        }
        if *v == V::Null {
            return false;
        }
        let one = |w: &V| match (&self.op, v, w) {
            (Op::Eq | Op::Neq, a, b) => a == b,
            (Op::Gt, a, b) => a > b,
            (Op::Gte, a, b) => a >= b,
            (Op::Lt, a, b) => a < b,
            (Op::Lte, a, b) => a <= b,
            (Op::Like | Op::NotLike, V::S(a), V::S(b)) => {
                like(&a.chars().collect::<Vec<_>>(), &b.chars().collect::<Vec<_>>())
            }
            (Op::Regex | Op::NotRegex, V::S(a), V::S(b)) => regex::Regex::new(b).unwrap().is_match(a),
            o => panic!("{o:?}"),
        };
        let any = self.vals.as_ref().unwrap().iter().any(one);
        match self.op {
            Op::Neq | Op::NotLike | Op::NotRegex => !any,
            _ => any,
        }
    }
    pub fn to(&self, p: &Project) -> PropValueFilter {
        let spec = p.prop(&self.prop);
        PropValueFilter::Property {
            property: spec.rf(),
            operation: self.op.clone(),
            value: self.vals.as_ref().map(|v| v.iter().map(|v| scalar(spec, v)).collect()),
        }
    }
}

pub fn scalar(p: &PropSpec, v: &V) -> ScalarValue {
    match v {
        V::Null => ScalarValue::Null,
        V::S(s) => ScalarValue::Utf8(Some(s.clone())),
        V::D(d) => ScalarValue::Decimal128(Some(*d), DECIMAL_PRECISION, DECIMAL_SCALE),
        V::B(b) => ScalarValue::Boolean(Some(*b)),
        V::T(t) => ScalarValue::TimestampMillisecond(Some(*t), None),
        V::I(i) => match p.dt {
            DType::Int8 => ScalarValue::Int8(Some(*i as i8)),
            DType::Int16 => ScalarValue::Int16(Some(*i as i16)),
            DType::Int32 => ScalarValue::Int32(Some(*i as i32)),
            _ => ScalarValue::Int64(Some(*i)),
        },
    }
}

// ---------------------------------------------------------------- time
pub fn dt(ms: i64) -> DateTime<Utc> {
    Utc.timestamp_millis_opt(ms).unwrap()
}
pub fn trunc(u: &Unit, ms: i64) -> i64 {
    let d = dt(ms);
    let day = d.date_naive();
    let (date, h) = match u {
        Unit::Hour => (day, d.hour()),
        Unit::Day => (day, 0),
        Unit::Week => (day - Duration::days(day.weekday().num_days_from_monday() as i64), 0),
        Unit::Month => (NaiveDate::from_ymd_opt(day.year(), day.month(), 1).unwrap(), 0),
        Unit::Year => (NaiveDate::from_ymd_opt(day.year(), 1, 1).unwrap(), 0),
    };
    date.and_hms_opt(h, 0, 0).unwrap().and_utc().timestamp_millis()
}
/// Starts of the units from the one of `from` to the one of `to`.
pub fn buckets(u: &Unit, from: i64, to: i64) -> Vec<String> {
    let mut out = vec![];
    let mut t = trunc(u, from);
    while t <= trunc(u, to) {
        out.push(bucket(u, t));
        // the middle of the next unit
        t = trunc(u, t + match u {
            Unit::Hour => 3 * HOUR / 2,
            Unit::Day => 3 * DAY / 2,
            Unit::Week => 10 * DAY,
            Unit::Month => 45 * DAY,
            Unit::Year => 500 * DAY,
        });
    }
    out
}
pub fn bucket(u: &Unit, ms: i64) -> String {
    dt(trunc(u, ms)).format("%Y-%m-%dT%H:%M:%S").to_string()
}

// ---------------------------------------------------------------- queries
#[derive(Clone, Debug)]
pub enum Q {
    Count,
    Unique,
    Daily,
    PerGroup(Agg),
    Prop(String, Agg),
    PropPerGroup(String, PAgg, Agg),
}
impl Q {
    pub fn to(&self, p: &Project) -> Query {
        match self {
            Q::Count => Query::CountEvents,
            Q::Unique => Query::CountUniqueGroups,
            Q::Daily => Query::DailyActiveGroups,
            Q::PerGroup(a) => Query::CountPerGroup { aggregate: a.clone() },
            Q::Prop(n, a) => Query::AggregateProperty { property: p.prop(n).rf(), aggregate: a.clone() },
            Q::PropPerGroup(n, i, o) => Query::AggregatePropertyPerGroup {
                property: p.prop(n).rf(),
                aggregate_per_group: i.clone(),
                aggregate: o.clone(),
            },
        }
    }
    pub fn name(&self) -> String {
        match self {
            Q::Count => "Count".into(),
            Q::Unique => "Count unique".into(),
            Q::Daily => "Daily active".into(),
            Q::PerGroup(a) => match a {
                Agg::Count => "Count",
                Agg::Sum => "Sum",
                Agg::Min => "Min",
                Agg::Max => "Max",
                Agg::Avg => "Avg",
            }
            .into(),
            Q::Prop(n, a) => format!("{}({n})", format!("{a:?}").to_uppercase()),
            Q::PropPerGroup(n, i, o) => {
                format!("{}({}({n}))", format!("{o:?}").to_uppercase(), format!("{i:?}").to_uppercase())
            }
        }
    }
    /// The answer over the rows of one bucket, `None` when there is nothing to aggregate.
    pub fn answer(&self, p: &Project, group: usize, rows: &[&Row]) -> Option<i128> {
        let mut per: BTreeMap<i64, Vec<&Row>> = BTreeMap::new();
        for r in rows {
            if let Some(g) = r.group(group) {
                per.entry(g).or_default().push(r);
            }
        }
        let num = |name: &str, r: &Row| -> Option<i128> {
            match r.get(name) {
                V::Null => None,
                V::I(i) => Some(i as i128 * DEC),
                V::D(d) => Some(d),
                o => panic!("{name} {o:?} {:?}", p.id),
            }
        };
        match self {
            Q::Count => Some(rows.len() as i128 * DEC),
            Q::Unique | Q::Daily => if per.is_empty() { None } else { Some(per.len() as i128 * DEC) },
            Q::PerGroup(a) => agg(a, &per.values().map(|v| v.len() as i128 * DEC).collect::<Vec<_>>()),
            Q::Prop(n, a) => agg(a, &rows.iter().filter_map(|r| num(n, r)).collect::<Vec<_>>()),
            Q::PropPerGroup(n, i, o) => {
                let inner: Vec<i128> = per
                    .values()
                    .filter_map(|v| agg(&pagg(i), &v.iter().filter_map(|r| num(n, r)).collect::<Vec<_>>()))
                    .collect();
                agg(o, &inner)
            }
        }
    }
}
pub fn pagg(p: &PAgg) -> Agg {
    match p {
        PAgg::Count => Agg::Count,
        PAgg::Sum => Agg::Sum,
        PAgg::Min => Agg::Min,
        PAgg::Max => Agg::Max,
        PAgg::Avg => Agg::Avg,
    }
}
pub fn agg(a: &Agg, v: &[i128]) -> Option<i128> {
    if v.is_empty() {
        return None;
    }
    Some(match a {
        Agg::Count => v.len() as i128 * DEC,
        Agg::Sum => v.iter().sum(),
        Agg::Min => *v.iter().min().unwrap(),
        Agg::Max => *v.iter().max().unwrap(),
        Agg::Avg => v.iter().sum::<i128>() / v.len() as i128,
    })
}

/// An event of a request: a regular one by name or id, or a custom one.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Name(usize),
    Id(usize),
    /// index into `Project::customs`
    Custom(usize),
}
#[derive(Clone, Debug)]
pub struct CustomEv {
    pub id: u64,
    pub name: String,
    pub parts: Vec<(Ev, Vec<F>)>,
}
impl Ev {
    pub fn to(&self, p: &Project) -> EventRef {
        match self {
            Ev::Name(i) => EventRef::RegularName(p.events[*i].0.clone()),
            Ev::Id(i) => EventRef::Regular(p.events[*i].1),
            Ev::Custom(i) => EventRef::Custom(p.customs[*i].id),
        }
    }
    pub fn label(&self, p: &Project) -> String {
        match self {
            Ev::Name(i) => p.events[*i].0.clone(),
            Ev::Id(i) => p.events[*i].1.to_string(),
            Ev::Custom(i) => p.customs[*i].id.to_string(),
        }
    }
    pub fn holds(&self, p: &Project, r: &Row) -> bool {
        match self {
            Ev::Name(i) | Ev::Id(i) => r.event == *i,
            Ev::Custom(i) => p.customs[*i]
                .parts
                .iter()
                .any(|(e, fs)| e.holds(p, r) && fs.iter().all(|f| f.holds(&r.get(&f.prop)))),
        }
    }
    pub fn gen(s: &mut Src, p: &Project) -> Ev {
        let i = s.weighted(&[4, 4, 3, 1]);
        match s.weighted(&[4, 2, 3]) {
            1 => Ev::Id(i),
            2 if !p.customs.is_empty() => Ev::Custom(s.below(p.customs.len() as u64) as usize),
            _ => Ev::Name(i),
        }
    }
}
/// Adds custom events, the later ones of which may consist of the earlier ones.
pub fn gen_customs(s: &mut Src, w: &crate::world::World, p: &mut Project, used: &[&str]) -> R {
    for k in 0..s.us(0, 2) {
        let parts = s.vec(1, 3, |s| {
            let e = Ev::gen(s, p);
            let fs = s.vec(0, 2, |s| {
                let n = *s.pick(used);
                F::gen(s, p.prop(n))
            });
            (e, fs)
        });
        create_custom(w, p, &format!("custom {k}"), parts)?;
    }
    Ok(())
}
pub fn create_custom(w: &crate::world::World, p: &mut Project, name: &str, parts: Vec<(Ev, Vec<F>)>) -> Result<Option<u64>, String> {
    let req = CreateCustomEventRequest {
        created_by: 1,
        tags: None,
        name: name.to_string(),
        description: None,
        status: custom_events::Status::Enabled,
        is_system: false,
        events: parts
            .iter()
            .map(|(e, fs)| custom_events::Event {
                event: e.to(p),
                filters: if fs.is_empty() { None } else { Some(fs.iter().map(|f| f.to(p)).collect()) },
            })
            .collect(),
    };
    let id = match w.md().custom_events.create(p.id, req) {
        Ok(e) => e.id,
        // an event may not consist of another one twice
        Err(metadata::error::MetadataError::AlreadyExists(_)) => return Ok(None),
        Err(e) => return Err(format!("custom event: {e}")),
    };
    p.customs.push(CustomEv { id, name: name.to_string(), parts });
    Ok(Some(id))
}

#[derive(Clone, Debug)]
pub struct E {
    pub event: Ev,
    pub filters: Vec<F>,
    pub breakdowns: Vec<String>,
    pub queries: Vec<Q>,
}
#[derive(Clone, Debug)]
pub struct Req {
    pub project: usize,
    pub from: i64,
    pub to: i64,
    /// how the range is asked for
    pub time: QueryTime,
    pub unit: Unit,
    pub group: usize,
    pub events: Vec<E>,
    pub filters: Vec<F>,
    pub breakdowns: Vec<String>,
}

impl Req {
    pub fn to(&self, p: &Project) -> EventSegmentationRequest {
        let fs = |v: &Vec<F>| if v.is_empty() { None } else { Some(v.iter().map(|f| f.to(p)).collect()) };
        let bs = |v: &Vec<String>| {
            if v.is_empty() {
                None
            } else {
                Some(v.iter().map(|b| Breakdown::Property(p.prop(b).rf())).collect())
            }
        };
        EventSegmentationRequest {
            time: self.time.clone(),
            group_id: self.group,
            interval_unit: self.unit.clone(),
            chart_type: ChartType::Line,
            analysis: Analysis::Linear,
            compare: None,
            events: self
                .events
                .iter()
                .map(|e| {
                    Event::new(
                        e.event.to(p),
                        fs(&e.filters),
                        bs(&e.breakdowns),
                        e.queries.iter().map(|q| NamedQuery::new(q.to(p), None)).collect(),
                    )
                })
                .collect(),
            filters: fs(&self.filters),
            breakdowns: bs(&self.breakdowns),
            segments: None,
        }
    }

    /// The rows event `i` of the request is answered from.
    pub fn rows<'a>(&self, fx: &'a Fx, i: usize) -> Vec<&'a Row> {
        let e = &self.events[i];
        fx.rows
            .iter()
            .filter(|r| r.project == self.project && r.ts >= self.from && r.ts <= self.to && e.event.holds(&fx.ps[self.project], r))
            .filter(|r| e.filters.iter().chain(&self.filters).all(|f| f.holds(&r.get(&f.prop))))
            .collect()
    }

    pub fn expected(&self, fx: &Fx) -> Vec<Line> {
        let mut out: Vec<Line> = (0..self.events.len()).flat_map(|i| self.of_event(fx, i)).collect();
        out.retain(|l| !l.vals.is_empty());
        out.sort();
        out
    }

    /// The lines of one event, also those without any value.
    fn of_event(&self, fx: &Fx, i: usize) -> Vec<Line> {
        let p = &fx.ps[self.project];
        let mut out = vec![];
        let e = &self.events[i];
        {
            let mut by: BTreeMap<Vec<(String, V)>, BTreeMap<String, Vec<&Row>>> = BTreeMap::new();
            for r in self.rows(fx, i) {
                let mut key = vec![];
                let mut seen = BTreeSet::new();
                for b in e.breakdowns.iter().chain(&self.breakdowns) {
                    if seen.insert(b) {
                        key.push((b.clone(), r.get(b)));
                    }
                }
                key.sort();
                by.entry(key).or_default().entry(bucket(&self.unit, r.ts)).or_default().push(r);
            }
            for (key, buckets) in by {
                for q in &e.queries {
                    out.push(Line {
                        event: e.event.label(p),
                        segment: 0,
                        dims: key.iter().filter(|d| d.1 != V::Null).cloned().collect(),
                        formula: q.name(),
                        vals: buckets
                            .iter()
                            .filter_map(|(b, rows)| q.answer(p, self.group, rows).map(|v| (b.clone(), v)))
                            .collect(),
                    });
                }
            }
        }
        out
    }

    fn dims(&self, i: usize) -> BTreeSet<&String> {
        self.events[i].breakdowns.iter().chain(&self.breakdowns).collect()
    }
    /// How often each value of a breakdown of the event would be in the answer.
    fn uses(&self, fx: &Fx, i: usize) -> BTreeMap<(String, V), usize> {
        let mut m = BTreeMap::new();
        for l in self.of_event(fx, i) {
            for d in self.dims(i) {
                *m.entry((d.clone(), l.dim(d))).or_default() += 1;
            }
        }
        m
    }
    /// Answers have each value of a breakdown at most fifty times; some value
    /// of this one would be there more often.
    pub fn limited(&self, fx: &Fx) -> bool {
        (0..self.events.len()).any(|i| self.uses(fx, i).values().any(|n| *n > LINES_OF_A_VALUE))
    }

    /// What remains of an answer over the limit: lines of the reference, those with
    /// the highest averages first, of which only lines with a value
    /// that is in the answer too often already are left out.
    pub fn same_limited(&self, fx: &Fx, got: &[Line]) -> Result<usize, String> {
        let p = &fx.ps[self.project];
        let cols = buckets(&self.unit, self.from, self.to).len() as i128;
        let mut left_out = 0;
        ensure_eq!(got.iter().map(|l| l.event.clone()).collect::<BTreeSet<_>>().len() <= self.events.len(), true, "events of the answer");
        for (i, e) in self.events.iter().enumerate() {
            let label = e.event.label(p);
            if self.events.iter().filter(|x| x.event.label(p) == label).count() > 1 {
                return Ok(0);
            }
            let mine: Vec<&Line> = got.iter().filter(|l| l.event == label).collect();
            let mut want = self.of_event(fx, i);
            let uses = self.uses(fx, i);
            let over = |l: &Line| self.dims(i).iter().any(|d| uses[&((*d).clone(), l.dim(d))] > LINES_OF_A_VALUE);
            let mut seen: BTreeMap<(String, V), usize> = BTreeMap::new();
            for l in &mine {
                ensure!(want.contains(l), "the answer has a line the reference has not: {l:?}");
                for d in self.dims(i) {
                    let n = seen.entry((d.clone(), l.dim(d))).or_default();
                    *n += 1;
                    ensure!(*n <= LINES_OF_A_VALUE, "{d} {:?} is in the answer more than {LINES_OF_A_VALUE} times", l.dim(d));
                }
            }
            for l in &want {
                if !l.vals.is_empty() && !mine.contains(&l) {
                    left_out += 1;
                    ensure!(over(l), "left out, though its values are not there too often: {l:?}");
                }
            }
            // which ones remain, as far as equal averages leave no choice
            let avg = |l: &Line| l.vals.values().sum::<i128>() / cols;
            want.sort_by_key(|l| -avg(l));
            let (mut cnt, mut fuzz): (BTreeMap<(String, V), usize>, BTreeMap<(String, V), usize>) = Default::default();
            let mut at = 0;
            'walk: while at < want.len() {
                let block: Vec<&Line> = want[at..].iter().take_while(|l| avg(l) == avg(&want[at])).collect();
                at += block.len();
                let keys = |l: &Line| self.dims(i).into_iter().map(|d| (d.clone(), l.dim(d))).collect::<Vec<_>>();
                let mut sum: BTreeMap<(String, V), usize> = BTreeMap::new();
                block.iter().flat_map(|l| keys(l)).for_each(|k| *sum.entry(k).or_default() += 1);
                let full = |k: &(String, V)| cnt.get(k).copied().unwrap_or(0) >= LINES_OF_A_VALUE;
                let room = |k: &(String, V), n: usize| cnt.get(k).copied().unwrap_or(0) + fuzz.get(k).copied().unwrap_or(0) + n <= LINES_OF_A_VALUE;
                if sum.iter().all(|(k, n)| room(k, *n)) {
                    for l in &block {
                        ensure!(l.vals.is_empty() || mine.contains(l), "left out, though there is room for it: {l:?}");
                    }
                    for l in &block {
                        // one without a value may be there or not
                        let m = if l.vals.is_empty() { &mut fuzz } else { &mut cnt };
                        keys(l).into_iter().for_each(|k| *m.entry(k).or_default() += 1);
                    }
                } else if block.iter().all(|l| keys(l).iter().any(full)) {
                    for l in &block {
                        ensure!(!mine.contains(l), "in the answer, though there is no room for it: {l:?}");
                    }
                    for k in sum.keys().filter(|k| !full(k)).cloned().collect::<Vec<_>>() {
                        *fuzz.entry(k.clone()).or_default() += sum[&k];
                    }
                } else {
                    break 'walk;
                }
            }
        }
        Ok(left_out)
    }
}
pub const LINES_OF_A_VALUE: usize = 50;

/// One line of an answer: its dimensions and what each time column holds.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Line {
    pub event: String,
    pub segment: i64,
    pub dims: Vec<(String, V)>,
    pub formula: String,
    pub vals: BTreeMap<String, i128>,
}

impl Line {
    pub fn dim(&self, d: &str) -> V {
        self.dims.iter().find(|x| x.0 == d).map(|x| x.1.clone()).unwrap_or(V::Null)
    }
}

pub fn cell(a: &ArrayRef, i: usize) -> Result<V, String> {
    if a.is_null(i) {
        return Ok(V::Null);
    }
    Ok(match a.data_type() {
        DataType::Utf8 => V::S(a.as_any().downcast_ref::<StringArray>().unwrap().value(i).to_string()),
        DataType::Boolean => V::B(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i)),
        DataType::Decimal128(_, sc) => {
            if *sc as i32 != DECIMAL_SCALE as i32 {
                return Err(format!("a decimal of scale {sc}"));
            }
            V::D(a.as_any().downcast_ref::<Decimal128Array>().unwrap().value(i))
        }
        DataType::Int8 | DataType::Int16 | DataType::Int32 | DataType::Int64 => {
            let c = cast(a, &DataType::Int64).map_err(|e| e.to_string())?;
            V::I(c.as_any().downcast_ref::<Int64Array>().unwrap().value(i))
        }
        DataType::Timestamp(TimeUnit::Millisecond, _) => {
            let c = cast(a, &DataType::Int64).map_err(|e| e.to_string())?;
            V::T(c.as_any().downcast_ref::<Int64Array>().unwrap().value(i))
        }
        o => return Err(format!("unexpected type {o:?}")),
    })
}

pub struct Table {
    pub names: Vec<String>,
    pub rows: Vec<Vec<V>>,
}
pub fn table(t: &ColumnarDataTable) -> Result<Table, String> {
    let n = t.columns.first().map(|c| c.data.len()).unwrap_or(0);
    for c in &t.columns {
        if c.data.len() != n {
            return Err(format!("column {} has {} values, the first {n}", c.name, c.data.len()));
        }
    }
    let mut rows = vec![];
    for i in 0..n {
        rows.push(t.columns.iter().map(|c| cell(&c.data, i)).collect::<Result<Vec<_>, String>>()?);
    }
    Ok(Table { names: t.columns.iter().map(|c| c.name.clone()).collect(), rows })
}

pub fn lines(t: &Table, p: &Project, req: &Req) -> Result<Vec<Line>, String> {
    let avg = t.names.iter().position(|n| n == "Average").ok_or(format!("no Average column in {:?}", t.names))?;
    let cols: Vec<String> = t.names[avg + 1..].to_vec();
    let want = buckets(&req.unit, req.from, req.to);
    ensure_eq!(cols, want, "time columns");
    let mut out = vec![];
    let twice = req.events.iter().map(|e| e.event.label(p)).collect::<BTreeSet<_>>().len() < req.events.len();
    let mut last: Option<(String, i128)> = None;
    for r in &t.rows {
        let mut l = Line { event: String::new(), segment: -1, dims: vec![], formula: String::new(), vals: BTreeMap::new() };
        for (i, (n, v)) in t.names.iter().zip(r).enumerate() {
            match (n.as_str(), v) {
                ("Event", V::S(s)) => l.event = s.clone(),
                ("Segment", V::I(x)) => l.segment = *x,
                ("Formula", V::S(s)) => l.formula = s.clone(),
                ("Average", _) => {}
                (n, V::Null) if i < avg => {
                    let _ = n;
                }
                (n, v) if i < avg => l.dims.push((n.to_string(), v.clone())),
                (_, V::Null) => {}
                (n, V::D(d)) => {
                    l.vals.insert(n.to_string(), *d);
                }
                o => return Err(format!("unexpected value {o:?} in a result line")),
            }
        }
        l.dims.sort();
        let V::D(a) = r[avg] else { return Err(format!("the average of a line is {:?}", r[avg])) };
        ensure_eq!(a, l.vals.values().sum::<i128>() / cols.len() as i128, "average of the columns of {l:?}");
        if let Some((e, v)) = &last {
            ensure!(twice || *e != l.event || *v >= a, "the lines of {e} are not in descending order of their averages");
        }
        last = Some((l.event.clone(), a));
        out.push(l);
    }
    out.retain(|l| !l.vals.is_empty());
    out.sort();
    Ok(out)
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub fn run(fx: &Fx, project: usize, req: EventSegmentationRequest, cur: i64) -> Result<Table, String> {
    let p = EventSegmentationProvider::new(fx.w.md().clone(), fx.w.db());
    let ctx = Context { project_id: fx.ps[project].id, format: Format::Regular, cur_time: dt(cur) };
    let r = guarded(|| rt().block_on(p.event_segmentation(ctx, req)))?.map_err(|e| format!("query failed: {e}"))?;
    table(&r)
}

/// Lines agree; a quotient (an average) may differ by its rounding.
pub fn same(got: &[Line], want: &[Line]) -> R {
    let close = |f: &str, a: i128, b: i128| {
        a == b || (f.to_uppercase().contains("AVG") && (a - b).abs() <= b.abs() / 1_000_000_000 + 1_000_000)
    };
    let eq = got.len() == want.len()
        && got.iter().zip(want).all(|(a, b)| {
            a.event == b.event
                && a.segment == b.segment
                && a.dims == b.dims
                && a.formula == b.formula
                && a.vals.len() == b.vals.len()
                && a.vals.iter().zip(&b.vals).all(|(x, y)| x.0 == y.0 && close(&a.formula, *x.1, *y.1))
        });
    if eq {
        return Ok(());
    }
    let g: Vec<_> = got.iter().filter(|l| !want.contains(l)).collect();
    let w: Vec<_> = want.iter().filter(|l| !got.contains(l)).collect();
    Err(format!("the answer has {} lines, the reference {}; only in the answer {g:?}; only in the reference {w:?}", got.len(), want.len()))
}
