//! Funnels: a reference that walks each user's rows, and the requests and batches it is compared over.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

use arrow::array::{Array, ArrayRef, BooleanArray, Decimal128Array, Int64Array, RecordBatch, StringArray, TimestampMillisecondArray};
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use arrow::row::SortField;
use chrono::Duration;
use common::funnel::{ChartType, Count, Event, Exclude, ExcludeSteps, Funnel, Step, StepOrder, TimeIntervalUnitSession as WUnit, TimeWindow};
use common::query::{Breakdown, QueryTime, TimeIntervalUnit as Unit};
use common::{DECIMAL_PRECISION, DECIMAL_SCALE};
use datafusion::physical_expr::expressions::{BinaryExpr, Column, Literal};
use datafusion::physical_expr::PhysicalExprRef;
use datafusion_common::ScalarValue;
use datafusion_expr::Operator;
use proputil::*;
use query::context::Format;
use query::physical_plan::expressions::aggregate::partitioned::funnel as pf;
use query::Context;

use crate::fx::*;
use crate::req::*;
use crate::{gen_filters, gen_time, gen_used, NAMES};

// ---------------------------------------------------------------- the reference
#[derive(Clone, Debug)]
pub struct Fr {
    pub user: Option<i64>,
    pub ts: i64,
    pub steps: Vec<bool>,
    pub excl: Vec<bool>,
    pub consts: Vec<V>,
    pub dims: Vec<V>,
}
#[derive(Clone, Debug)]
pub enum Ord_ {
    Exact,
    Any(Vec<(usize, usize)>),
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub orders: Vec<Ord_>,
    pub excl: Vec<Option<(usize, usize)>>,
    pub window: i64,
    pub unique: bool,
    pub unit: Option<Unit>,
    pub from: i64,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tot {
    pub total: i64,
    pub dropped: i64,
    pub time: i64,
    pub time_start: i64,
}
pub type Out = BTreeMap<(Vec<V>, i64), Vec<Tot>>;

/// An attempt begins with the first step and goes on with each next step by the same user. An excluded event or
/// another value of a held constant discards it, the end of the window ends it; the row that did may begin another.
pub fn reference(rows: &[Fr], sp: &Spec) -> Out {
    let mut out = Out::new();
    let mut per: BTreeMap<(Vec<V>, i64), Vec<&Fr>> = BTreeMap::new();
    for r in rows {
        if let Some(u) = r.user {
            per.entry((r.dims.clone(), u)).or_default().push(r);
        }
    }
    for ((dims, _), mut rs) in per {
        rs.sort_by_key(|r| r.ts);
        let mut attempts: Vec<Vec<i64>> = vec![];
        let mut cur: Vec<i64> = vec![];
        let mut consts: Vec<V> = vec![];
        for r in rs {
            if !cur.is_empty() {
                let next = cur.len();
                let hit = sp.excl.iter().zip(&r.excl).any(|(range, hit)| {
                    *hit && range.map(|(a, b)| a <= next && next <= b).unwrap_or(true)
                });
                if hit {
                    cur.clear();
                } else if r.ts - cur[0] > sp.window {
                    attempts.push(std::mem::take(&mut cur));
                } else if consts != r.consts {
                    cur.clear();
                }
            }
            let next = cur.len();
            let takes = match &sp.orders[next] {
                Ord_::Exact => r.steps[next],
                Ord_::Any(v) => v.iter().any(|(a, b)| (*a..=*b).any(|i| r.steps[i])),
            };
            if takes {
                if cur.is_empty() {
                    consts = r.consts.clone();
                }
                cur.push(r.ts);
                if cur.len() == sp.orders.len() {
                    attempts.push(std::mem::take(&mut cur));
                    if sp.unique {
                        break;
                    }
                }
            }
        }
        if !cur.is_empty() {
            attempts.push(cur);
        }
        for a in attempts {
            let b = match &sp.unit {
                Some(u) => trunc(u, a[0]),
                None => sp.from,
            };
            let e = out.entry((dims.clone(), b)).or_insert_with(|| vec![Tot::default(); sp.orders.len()]);
            for i in 0..a.len() {
                e[i].total += 1;
                if i > 0 {
                    e[i].time += a[i] - a[i - 1];
                    e[i].time_start += a[i] - a[0];
                }
            }
        }
    }
    for v in out.values_mut() {
        for i in 1..v.len() {
            v[i].dropped = v[i - 1].total - v[i].total;
        }
    }
    out
}

/// conversion, drop-off, average time from the step before and from the start
pub fn ratios(v: &[Tot], i: usize) -> [f64; 4] {
    let t = &v[i];
    if i == 0 {
        return [100., 0., 0., 0.];
    }
    if t.total == 0 {
        return [0., 100., 0., 0.];
    }
    let n = t.total as f64;
    let c = n / v[0].total as f64 * 100.;
    [c, 100. - c, t.time as f64 / n, t.time_start as f64 / n]
}

fn gen_spec(s: &mut Src, window: i64, unit: Option<Unit>, from: i64) -> Spec {
    let n = s.weighted(&[1, 4, 4, 1]) + 1;
    let range = |s: &mut Src, n: usize| {
        let a = s.us(0, n - 1);
        (a, s.us(a, n - 1))
    };
    let mut orders = vec![];
    for i in 0..n {
        orders.push(if i > 0 && s.chance(1, 5) { Ord_::Any(s.vec(1, 3, |s| range(s, n))) } else { Ord_::Exact });
    }
    let excl = if s.chance(1, 2) { vec![] } else { s.vec(1, 2, |s| if s.bool() { None } else { Some(range(s, n)) }) };
    Spec { orders, excl, window, unique: s.bool(), unit, from }
}

// ---------------------------------------------------------------- the aggregate over batches
fn int_eq(col: &str, i: usize, v: i64) -> PhysicalExprRef {
    Arc::new(BinaryExpr::new(
        Arc::new(Column::new(col, i)),
        Operator::Eq,
        Arc::new(Literal::new(ScalarValue::Int64(Some(v)))),
    ))
}

fn const_col(kind: usize, v: &[V]) -> ArrayRef {
    let i = |x: &V| match x {
        V::I(i) => Some(*i),
        _ => None,
    };
    match kind {
        0 => Arc::new(v.iter().map(i).collect::<Int64Array>()),
        1 => Arc::new(v.iter().map(|x| i(x).map(|i| format!("v{i}"))).collect::<StringArray>()),
        2 => Arc::new(v.iter().map(|x| i(x).map(|i| i != 0)).collect::<BooleanArray>()),
        3 => Arc::new(v.iter().map(i).collect::<TimestampMillisecondArray>()),
        _ => Arc::new(
            v.iter()
                .map(|x| i(x).map(|i| i as i128))
                .collect::<Decimal128Array>()
                .with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE)
                .unwrap(),
        ),
    }
}
fn const_type(kind: usize) -> DataType {
    match kind {
        0 => DataType::Int64,
        1 => DataType::Utf8,
        2 => DataType::Boolean,
        3 => DataType::Timestamp(TimeUnit::Millisecond, None),
        _ => DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE),
    }
}

pub fn batches_case(s: &mut Src, c: &mut Case) -> R {
    let unit = s.pick(&[None, None, Some(Unit::Day), Some(Unit::Month), Some(Unit::Year), Some(Unit::Hour)]).clone();
    let big = matches!(unit, Some(Unit::Month | Unit::Year));
    let step = if big { 9 * DAY } else { HOUR / 2 };
    let sp = gen_spec(s, 0, unit, T0);
    let sp = Spec { window: s.range(0, 6) * step + s.range(-1, 1), ..sp };
    let n = sp.orders.len();
    let (kind, nconst, ngroups, segment) = (s.us(0, 4), s.us(0, 2), s.us(0, 2), s.chance(1, 6));
    let users = s.range(1, 5);
    let mut rows = vec![];
    let mut raw = vec![];
    for user in 0..=users {
        let user = if user == 0 { if s.chance(1, 3) { None } else { continue } } else { Some(user) };
        let mut t = T0 + s.range(0, 20) * step;
        let mut ev0 = -1;
        for _ in 0..s.us(0, 12) {
            t += s.range(1, 3) * step / s.range(1, 2);
            let ev = if s.bool() { s.range(0, n as i64) } else { (ev0 + 1) % n as i64 };
            ev0 = ev;
            let ex: Vec<Option<i64>> = sp.excl.iter().map(|_| if s.chance(1, 4) { None } else { Some(s.range(0, 3)) }).collect();
            let g = |s: &mut Src| if s.chance(1, 5) { V::Null } else { V::I(s.range(0, 1)) };
            let consts: Vec<V> = (0..nconst).map(|_| if s.chance(1, 4) { g(s) } else { V::I(1) }).collect();
            let dims: Vec<V> = (0..ngroups).map(|_| g(s)).collect();
            let ev = if s.chance(1, 12) { None } else { Some(ev) };
            rows.push(Fr {
                user,
                ts: t,
                steps: (0..n).map(|i| ev == Some(i as i64)).collect(),
                excl: ex.iter().map(|x| *x == Some(0)).collect(),
                consts,
                dims,
            });
            raw.push((ev, ex));
        }
    }
    let last = rows.iter().map(|r| r.ts).max().unwrap_or(T0);
    // columns: user ts ev excl.. const.. dim..
    let mut fields = vec![
        Field::new("user", DataType::Int64, true),
        Field::new("ts", DataType::Timestamp(TimeUnit::Millisecond, None), false),
        Field::new("ev", DataType::Int64, true),
    ];
    for i in 0..sp.excl.len() {
        fields.push(Field::new(format!("x{i}"), DataType::Int64, true));
    }
    for i in 0..nconst {
        fields.push(Field::new(format!("c{i}"), const_type(kind), true));
    }
    for i in 0..ngroups {
        fields.push(Field::new(format!("g{i}"), DataType::Int64, true));
    }
    let schema = Arc::new(Schema::new(fields));
    let at = |name: String| -> PhysicalExprRef { Arc::new(Column::new_with_schema(&name, &schema).unwrap()) };
    let x0 = 3;
    let opts = pf::funnel::Options {
        schema: schema.clone(),
        ts_col: at("ts".into()),
        from: dt(T0),
        to: dt(last),
        time_interval: sp.unit.clone(),
        window: Duration::milliseconds(sp.window),
        steps: (0..n)
            .map(|i| {
                (int_eq("ev", 2, i as i64), match &sp.orders[i] {
                    Ord_::Exact => pf::StepOrder::Exact,
                    Ord_::Any(v) => pf::StepOrder::Any(v.clone()),
                })
            })
            .collect(),
        exclude: if sp.excl.is_empty() {
            None
        } else {
            Some(
                sp.excl
                    .iter()
                    .enumerate()
                    .map(|(i, r)| pf::ExcludeExpr {
                        expr: int_eq(&format!("x{i}"), x0 + i, 0),
                        steps: r.map(|(a, b)| pf::ExcludeSteps::new(a, b)),
                    })
                    .collect(),
            )
        },
        constants: if nconst == 0 { None } else { Some((0..nconst).map(|i| at(format!("c{i}"))).collect()) },
        count: if sp.unique { pf::Count::Unique } else { pf::Count::NonUnique },
        filter: None,
        touch: None,
        partition_col: at("user".into()),
        groups: if ngroups == 0 {
            None
        } else {
            Some((0..ngroups).map(|i| (at(format!("g{i}")), format!("g{i}"), SortField::new(DataType::Int64))).collect())
        },
    };
    let mut f = pf::funnel::Funnel::try_new(opts).map_err(|e| e.to_string())?;
    if s.chance(1, 4) {
        f = f.make_new().map_err(|e| e.to_string())?;
    }
    let keep: Vec<i64> = (1..=users).filter(|_| !segment || s.bool()).collect();
    let map = keep.iter().map(|u| (*u, ())).collect();
    c.note(format!("{sp:?} kind={kind} segment={:?}", if segment { Some(&keep) } else { None }));
    let mut at_row = 0;
    let mut sizes = vec![];
    while at_row < rows.len() {
        let k = s.us(1, 7).min(rows.len() - at_row);
        let (a, b) = (at_row, at_row + k);
        let r = &rows[a..b];
        let mut cols: Vec<ArrayRef> = vec![
            Arc::new(r.iter().map(|r| r.user).collect::<Int64Array>()),
            Arc::new(r.iter().map(|r| Some(r.ts)).collect::<TimestampMillisecondArray>()),
            Arc::new(raw[a..b].iter().map(|r| r.0).collect::<Int64Array>()),
        ];
        for i in 0..sp.excl.len() {
            cols.push(Arc::new(raw[a..b].iter().map(|r| r.1[i]).collect::<Int64Array>()));
        }
        for i in 0..nconst {
            cols.push(const_col(kind, &r.iter().map(|r| r.consts[i].clone()).collect::<Vec<_>>()));
        }
        for i in 0..ngroups {
            cols.push(const_col(0, &r.iter().map(|r| r.dims[i].clone()).collect::<Vec<_>>()));
        }
        let batch = RecordBatch::try_new(schema.clone(), cols).map_err(|e| e.to_string())?;
        f.evaluate(&batch, if segment { Some(&map) } else { None }).map_err(|e| e.to_string())?;
        if s.chance(1, 12) {
            f.evaluate(&batch.slice(0, 0), if segment { Some(&map) } else { None }).map_err(|e| e.to_string())?;
        }
        sizes.push(k);
        at_row = b;
    }
    for r in &rows {
        c.note(format!("{r:?}"));
    }
    c.note(format!("batches {sizes:?}"));
    let counted: Vec<Fr> = rows.iter().filter(|r| !segment || r.user.map(|u| keep.contains(&u)).unwrap_or(false)).cloned().collect();
    let want = reference(&counted, &sp);
    c.nontrivial(want.values().any(|v| v.len() > 1 && v[1].total > 0));
    let arrs = f.finalize().map_err(|e| e.to_string())?;
    let names: Vec<String> = f.schema().fields().iter().map(|f| f.name().clone()).collect();
    let mut got = Out::new();
    for i in 0..arrs[0].len() {
        let cell = |name: &str| cell(&arrs[names.iter().position(|n| n == name).unwrap()], i);
        let int = |name: String| match cell(&name)? {
            V::I(i) => Ok(i),
            o => Err(format!("{name}: {o:?}")),
        };
        let mut dims = vec![];
        for g in 0..ngroups {
            dims.push(cell(&format!("g{g}"))?);
        }
        let V::T(t) = cell("ts")? else { return Err("ts".into()) };
        let mut v = vec![];
        for k in 0..n {
            v.push(Tot {
                total: int(format!("step{k}_total"))?,
                dropped: int(format!("step{k}_dropped_off"))?,
                time: int(format!("step{k}_time_to_convert"))?,
                time_start: int(format!("step{k}_time_to_convert_from_start"))?,
            });
        }
        for k in 0..n {
            let r = ratios(&v, k);
            for (name, r) in ["conversion_ratio", "drop_off_ratio", "avg_time_to_convert", "avg_time_to_convert_from_start"].iter().zip(r) {
                let V::D(d) = cell(&format!("step{k}_{name}"))? else { return Err(format!("{name} is no decimal")) };
                let d = d as f64 / DEC as f64;
                ensure!((d - r).abs() <= 1e-6 * r.abs().max(1.), "step {k} {name} is {d}, its totals {v:?} say {r}");
            }
        }
        ensure!(got.insert((dims.clone(), t), v).is_none(), "{dims:?} {t} twice");
    }
    ensure_eq!(got, want, "totals");
    Ok(())
}

// ---------------------------------------------------------------- reports
#[derive(Clone, Debug)]
pub struct FReq {
    pub project: usize,
    pub time: QueryTime,
    pub to: i64,
    pub group: usize,
    pub spec: Spec,
    pub steps: Vec<Vec<(Ev, Vec<F>)>>,
    pub excl: Vec<(Ev, Vec<F>)>,
    pub window: (usize, WUnit),
    pub consts: Vec<String>,
    pub breakdowns: Vec<String>,
    pub filters: Vec<F>,
}
impl FReq {
    pub fn to(&self, p: &Project) -> Funnel {
        let fs = |v: &Vec<F>| if v.is_empty() { None } else { Some(v.iter().map(|f| f.to(p)).collect()) };
        let opt = |b: bool| if b { Some(()) } else { None };
        Funnel {
            time: self.time.clone(),
            group_id: self.group,
            steps: self
                .steps
                .iter()
                .zip(&self.spec.orders)
                .map(|(evs, o)| Step {
                    events: evs.iter().map(|(e, f)| Event { event: e.to(p), filters: fs(f) }).collect(),
                    order: match o {
                        Ord_::Exact => StepOrder::Exact,
                        Ord_::Any(v) => StepOrder::Any(v.clone()),
                    },
                })
                .collect(),
            time_window: TimeWindow { n: self.window.0, unit: self.window.1.clone() },
            chart_type: match &self.spec.unit {
                None => ChartType::Steps,
                Some(u) => ChartType::ConversionOverTime { interval_unit: u.clone() },
            },
            count: if self.spec.unique { Count::Unique } else { Count::NonUnique },
            filter: None,
            touch: None,
            holding_constants: opt(!self.consts.is_empty()).map(|_| self.consts.iter().map(|n| p.prop(n).rf()).collect()),
            exclude: opt(!self.excl.is_empty()).map(|_| {
                self.excl
                    .iter()
                    .zip(&self.spec.excl)
                    .map(|((e, f), r)| Exclude {
                        event: e.to(p),
                        filters: fs(f),
                        steps: r.map(|(a, b)| if (a, b) == (0, self.steps.len() - 1) { ExcludeSteps::All } else { ExcludeSteps::Between(a, b) }),
                    })
                    .collect()
            }),
            breakdowns: opt(!self.breakdowns.is_empty()).map(|_| self.breakdowns.iter().map(|n| Breakdown::Property(p.prop(n).rf())).collect()),
            segments: None,
            filters: fs(&self.filters),
        }
    }
    pub fn rows(&self, fx: &Fx) -> Vec<Fr> {
        let p = &fx.ps[self.project];
        let ok = |fs: &Vec<F>, r: &Row| fs.iter().all(|f| f.holds(&r.get(&f.prop)));
        fx.rows
            .iter()
            .filter(|r| r.project == self.project && r.ts >= self.spec.from && r.ts <= self.to && ok(&self.filters, r))
            .map(|r| Fr {
                user: r.group(self.group),
                ts: r.ts,
                steps: self.steps.iter().map(|evs| evs.iter().any(|(e, f)| e.holds(p, r) && ok(f, r))).collect(),
                excl: self.excl.iter().map(|(e, f)| e.holds(p, r) && ok(f, r)).collect(),
                consts: self.consts.iter().map(|n| r.get(n)).collect(),
                dims: self.breakdowns.iter().map(|n| r.get(n)).collect(),
            })
            .collect()
    }
}

/// How a value of a dimension is written in a report.
pub fn label(v: &V) -> String {
    match v {
        V::Null => String::new(),
        V::S(s) => s.clone(),
        V::I(i) => i.to_string(),
        V::B(b) => b.to_string(),
        V::T(t) => dt(*t).format("%Y-%m-%dT%H:%M:%S").to_string(),
        V::D(d) => {
            // all are cents or next to an integer
            let cents = (*d as f64 / (DEC / 100) as f64).round() as i64;
            if cents % 100 == 0 {
                (cents / 100).to_string()
            } else {
                format!("{}{}.{:02}0", if cents < 0 { "-" } else { "" }, cents.abs() / 100, cents.abs() % 100)
            }
        }
    }
}

pub fn gen_freq(s: &mut Src, p: &Project, project: usize, used: &[&'static str], t: &crate::When) -> FReq {
    let unit = if s.bool() { None } else { Some(t.unit.clone()) };
    let n = s.us(1, 6);
    let wunit = match t.unit {
        Unit::Hour | Unit::Day => s.pick(&[WUnit::Hour, WUnit::Day, WUnit::Week]).clone(),
        _ => s.pick(&[WUnit::Day, WUnit::Week, WUnit::Month]).clone(),
    };
    let window = wunit.duration(n as i64).num_milliseconds();
    let spec = gen_spec(s, window, unit, t.from);
    let few = |s: &mut Src, k: u64| {
        if s.chance(1, k) { gen_filters(s, p, used, 2) } else { vec![] }
    };
    let ev = |s: &mut Src| {
        let e = Ev::gen(s, p);
        (e, few(s, 6))
    };
    let steps = (0..spec.orders.len()).map(|_| s.vec(1, 2, |s| ev(s))).collect();
    let excl = spec.excl.iter().map(|_| ev(s)).collect();
    let names = |s: &mut Src, k: u64| if s.chance(1, k) { gen_used(s, used, 1, 2).iter().map(|n| n.to_string()).collect() } else { vec![] };
    FReq {
        project,
        time: t.time.clone(),
        to: t.to,
        group: s.weighted(&[4, 1]),
        spec,
        steps,
        excl,
        window: (n, wunit),
        consts: names(s, 4),
        breakdowns: names(s, 3),
        filters: few(s, 5),
    }
}

pub fn report_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let t = gen_time(s);
    let used = gen_used(s, &NAMES, 2, 5);
    let sh = Shape { projects: s.us(1, 2), users: s.range(1, 5), rows: if s.chance(1, 10) { s.us(0, 4) } else { s.us(12, 60) }, span: t.span, churn: s.bool(), apart: true };
    let mut fx = Fx::build(root, s, &sh, &used)?;
    let project = s.us(0, sh.projects - 1);
    gen_customs(s, &fx.w, &mut fx.ps[project], &used)?;
    let p = &fx.ps[project];
    let req = gen_freq(s, p, project, &used, &t);
    c.note(format!("{req:?}"));
    if !p.customs.is_empty() {
        c.note(format!("{:?}", p.customs));
    }
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    let want = reference(&req.rows(&fx), &req.spec);
    c.nontrivial(want.values().any(|v| v.len() > 1 && v[1].total > 0));
    let prov = query::funnel::FunnelProvider::new(fx.w.md().clone(), fx.w.db());
    let ctx = Context { project_id: p.id, format: Format::Regular, cur_time: dt(t.cur) };
    let got = rt().block_on(prov.funnel(ctx, req.to(p))).map_err(|e| e.to_string())?;
    let groups: Vec<String> = std::iter::once("Segment".to_string()).chain(req.breakdowns.iter().cloned()).collect();
    ensure_eq!(got.groups, groups, "names of the groups");
    ensure_eq!(got.steps.len(), req.steps.len(), "steps");
    for (k, st) in got.steps.iter().enumerate() {
        let name = match &req.steps[k][0].0 {
            Ev::Name(i) | Ev::Id(i) => p.events[*i].0.clone(),
            Ev::Custom(i) => p.customs[*i].name.clone(),
        };
        ensure_eq!(st.step, name, "name of step {k}");
        let mut a: Vec<(Vec<String>, i64, Tot)> = vec![];
        let mut ar = vec![];
        for d in &st.data {
            let tot = Tot { total: d.total, dropped: d.dropped_off, time: d.time_to_convert, time_start: d.time_to_convert_from_start };
            let g = d.groups.clone().ok_or("no groups")?;
            a.push((g.clone(), d.ts, tot.clone()));
            ar.push((g, d.ts, tot, [&d.conversion_ratio, &d.drop_off_ratio, &d.avg_time_to_convert, &d.avg_time_to_convert_from_start].map(|d| d.to_string().parse::<f64>().unwrap())));
        }
        let mut b: Vec<(Vec<String>, i64, Tot)> = vec![];
        let mut br = vec![];
        for ((dims, ts), v) in &want {
            let g: Vec<String> = std::iter::once("0".to_string()).chain(dims.iter().map(label)).collect();
            b.push((g.clone(), *ts, v[k].clone()));
            br.push((g, *ts, v[k].clone(), ratios(v, k)));
        }
        a.sort();
        b.sort();
        ensure_eq!(a, b, "step {k}");
        let by = |x: &(Vec<String>, i64, Tot, [f64; 4]), y: &(Vec<String>, i64, Tot, [f64; 4])| {
            (&x.0, x.1, &x.2).cmp(&(&y.0, y.1, &y.2)).then(x.3[0].total_cmp(&y.3[0]))
        };
        ar.sort_by(by);
        br.sort_by(by);
        for (x, y) in ar.iter().zip(&br) {
            for i in 0..4 {
                ensure!((x.3[i] - y.3[i]).abs() <= 0.011, "step {k} {:?} {}: ratios and averages {:?}, the rows say {:?}", x.0, x.1, x.3, y.3);
            }
        }
    }
    Ok(())
}
