//! Relations between answers: the layout of the tables and the data of other projects don't
//! show in any answer.
use std::path::Path;

use common::types::TABLE_EVENTS;
use proputil::*;
use query::context::Format;
use query::properties::PropertyValues;
use query::Context;

use crate::fun::FReq;
use crate::fx::*;
use crate::rec::{self, Search};
use crate::req::*;
use crate::{dt, gen_req, gen_used, When, NAMES};

pub enum Ask {
    Report(Req),
    Funnel(FReq),
    Records(Search),
    Record(i64),
    Values(PropertyValues),
}

impl Ask {
    pub fn gen(s: &mut Src, p: &Project, project: usize, used: &[&'static str], t: &When, rows: usize) -> Ask {
        let o = crate::Opts { avg: false, breakdowns: &NAMES, plain: false };
        match s.weighted(&[4, 4, 2, 1, 2]) {
            0 => Ask::Report(gen_req(s, p, project, used, t, &o)),
            1 => Ask::Funnel(crate::fun::gen_freq(s, p, project, used, t)),
            2 => Ask::Records(Search::gen(s, p, project, used, t)),
            3 => Ask::Record(s.range(1, rows.max(1) as i64)),
            _ => Ask::Values(rec::gen_values(s, p, used).0),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ask::Report(r) => format!("{r:?}"),
            Ask::Funnel(r) => format!("{r:?}"),
            Ask::Records(r) => format!("{r:?}"),
            Ask::Record(r) => format!("record {r}"),
            Ask::Values(r) => format!("{r:?}"),
        }
    }
    /// The answer, in an order of its own; an error is an answer too.
    pub fn answer(&self, fx: &Fx, project: usize, cur: i64) -> Result<Vec<String>, String> {
        let p = &fx.ps[project];
        guarded(|| {
            Ok(match self {
                Ask::Report(r) => {
                    let mut v: Vec<String> = lines(&run(fx, project, r.to(p), cur)?, p, r)?.iter().map(|l| format!("{l:?}")).collect();
                    v.sort();
                    v
                }
                Ask::Funnel(r) => {
                    let prov = query::funnel::FunnelProvider::new(fx.w.md().clone(), fx.w.db());
                    let ctx = Context { project_id: p.id, format: Format::Regular, cur_time: dt(cur) };
                    let got = rt().block_on(prov.funnel(ctx, r.to(p))).map_err(|e| e.to_string())?;
                    let mut v = vec![format!("{:?}", got.groups)];
                    for st in &got.steps {
                        let mut d: Vec<String> = st.data.iter().map(|d| format!("{} {d:?}", st.step)).collect();
                        d.sort();
                        v.extend(d);
                    }
                    v
                }
                Ask::Records(q) => rec::search(fx, q, cur)?.iter().map(|c| format!("{c:?}")).collect(),
                Ask::Record(id) => {
                    let prov = query::event_records::EventRecordsProvider::new(fx.w.md().clone(), fx.w.db());
                    let mut v: Vec<String> = match rt().block_on(prov.get_by_id(rec::ctx(p, cur), *id as u64)) {
                        Ok(r) => r.properties.iter().map(|v| format!("{v:?}")).collect(),
                        Err(e) => vec![format!("{e:?}")],
                    };
                    v.sort();
                    v
                }
                Ask::Values(r) => rec::values(fx, project, r.clone(), cur)?.iter().map(|v| format!("{v:?}")).collect(),
            })
        })?
    }
}

fn told(what: &str, ask: &Ask, got: &[String], want: &[String]) -> R {
    if got == want {
        return Ok(());
    }
    let only = |a: &[String], b: &[String]| a.iter().filter(|x| !b.contains(x)).take(4).cloned().collect::<Vec<_>>();
    Err(format!("{what}, the answer to {} changes: it loses {:?} and gains {:?}", ask.show(), only(want, got), only(got, want)))
}

/// The same projects and custom events, with the chosen rows in the order given.
fn again(root: &Path, fx: &Fx, order: &[usize]) -> Result<Fx, String> {
    let w = crate::world::World::new(root)?;
    let mut ps = vec![];
    for p in &fx.ps {
        let mut q = project(&w, p.id)?;
        for c in &p.customs {
            let n = create_custom(&w, &mut q, &c.name, c.parts.clone())?;
            ensure_eq!(n, Some(c.id), "id of the custom event");
        }
        ps.push(q);
    }
    let rows: Vec<Row> = order.iter().map(|i| fx.rows[*i].clone()).collect();
    for r in &rows {
        insert(&w, &ps[r.project], r)?;
    }
    Ok(Fx { w, ps, rows })
}

struct Setting {
    fx: Fx,
    t: When,
    project: usize,
    asks: Vec<Ask>,
}
fn setting(root: &Path, s: &mut Src, c: &mut Case, projects: (usize, usize)) -> Result<Setting, String> {
    let t = crate::gen_time(s);
    let used = gen_used(s, &NAMES, 2, 5);
    let sh = Shape { projects: s.us(projects.0, projects.1), users: s.range(1, 6), rows: s.us(5, 60), span: t.span, churn: false, apart: true };
    let mut fx = Fx::build(root, s, &sh, &used)?;
    for i in 0..fx.ps.len() {
        gen_customs(s, &fx.w, &mut fx.ps[i], &used)?;
    }
    let project = s.us(0, fx.ps.len() - 1);
    let p = &fx.ps[project];
    let n = fx.rows.len();
    let mut asks = s.vec(1, 4, |s| Ask::gen(s, p, project, &used, &t, n));
    // which lines are left out of an answer depends on the order of equal ones
    asks.retain(|a| !matches!(a, Ask::Report(r) if r.limited(&fx)));
    for a in &asks {
        c.note(format!("project {} {}", p.id, a.show()));
    }
    c.note(format!("{:?}", p.customs));
    for r in &fx.rows {
        c.note(format!("{r:?}"));
    }
    Ok(Setting { fx, t, project, asks })
}

pub fn layout_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let Setting { mut fx, t, project, asks } = setting(root, s, c, (1, 2))?;
    let want = asks.iter().map(|a| a.answer(&fx, project, t.cur)).collect::<Result<Vec<_>, _>>()?;
    c.nontrivial(want.iter().any(|w| w.len() > 2));
    for _ in 0..s.us(1, 3) {
        let what = match s.weighted(&[2, 2, 2, 1]) {
            0 => {
                fx.w.db().flush(TABLE_EVENTS).map_err(|e| e.to_string())?;
                "after a flush"
            }
            1 => {
                // the same rows, in another order and several parts
                let mut order: Vec<usize> = (0..fx.rows.len()).collect();
                s.shuffle(&mut order);
                let parts = s.us(1, 8);
                let other = again(root, &fx, &[])?;
                for (k, i) in order.iter().enumerate() {
                    insert(&other.w, &other.ps[fx.rows[*i].project], &fx.rows[*i])?;
                    if (k + 1) % (order.len() / parts).max(1) == 0 {
                        other.w.db().flush(TABLE_EVENTS).map_err(|e| e.to_string())?;
                    }
                }
                let rows = std::mem::take(&mut fx.rows);
                fx = Fx { rows, ..other };
                c.note(format!("order {order:?} in {parts} parts"));
                "with the rows inserted in another order"
            }
            2 => {
                fx.w.compact();
                "after a compaction"
            }
            _ => {
                fx.w.reopen()?;
                "after a restart"
            }
        };
        c.note(what.to_string());
        for (a, w) in asks.iter().zip(&want) {
            told(what, a, &a.answer(&fx, project, t.cur)?, w)?;
        }
    }
    Ok(())
}

pub fn isolation_case(root: &Path, s: &mut Src, c: &mut Case) -> R {
    let Setting { fx, t, project, asks } = setting(root, s, c, (2, 3))?;
    let own: Vec<usize> = (0..fx.rows.len()).filter(|i| fx.rows[*i].project == project).collect();
    let alone = again(root, &fx, &own)?;
    if s.bool() {
        fx.w.db().flush(TABLE_EVENTS).map_err(|e| e.to_string())?;
    }
    let want = asks.iter().map(|a| a.answer(&alone, project, t.cur)).collect::<Result<Vec<_>, _>>()?;
    c.nontrivial(own.len() < fx.rows.len() && want.iter().any(|w| w.len() > 2));
    for (a, w) in asks.iter().zip(&want) {
        told("with the events of other projects", a, &a.answer(&fx, project, t.cur)?, w)?;
    }
    Ok(())
}
