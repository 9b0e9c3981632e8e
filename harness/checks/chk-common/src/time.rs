//! Calendar oracles computed from day numbers, independent of chrono's arithmetic.
use chrono::{DateTime, TimeZone, Utc};
use common::query::*;
use proputil::*;

use crate::gen;

fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = y - (m <= 2) as i64;
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn mdays(y: i64, m: i64) -> i64 {
    days(if m == 12 { y + 1 } else { y }, if m == 12 { 1 } else { m + 1 }, 1) - days(y, m, 1)
}
/// Start of the bucket holding the second `t`.
fn trunc(u: &TimeIntervalUnit, t: i64) -> i64 {
    let d = t.div_euclid(86400);
    match u {
        TimeIntervalUnit::Hour => t.div_euclid(3600) * 3600,
        TimeIntervalUnit::Day => d * 86400,
        // 1970-01-05 was a Monday
        TimeIntervalUnit::Week => ((d - 4).div_euclid(7) * 7 + 4) * 86400,
        TimeIntervalUnit::Month => {
            let (y, m, _) = civil(d);
            days(y, m, 1) * 86400
        }
        TimeIntervalUnit::Year => days(civil(d).0, 1, 1) * 86400,
    }
}
fn next(u: &TimeIntervalUnit, t: i64) -> i64 {
    match u {
        TimeIntervalUnit::Hour => t + 3600,
        TimeIntervalUnit::Day => t + 86400,
        TimeIntervalUnit::Week => t + 7 * 86400,
        TimeIntervalUnit::Month => trunc(u, t + 32 * 86400),
        TimeIntervalUnit::Year => trunc(u, t + 370 * 86400),
    }
}
fn name(t: i64) -> String {
    let (y, m, d) = civil(t.div_euclid(86400));
    let s = t.rem_euclid(86400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)
}
fn edge(s: &mut Src) -> DateTime<Utc> {
    // near calendar edges half of the time
    let t = gen::dt(s);
    if s.bool() {
        let u = gen::unit(s);
        let e = trunc(&u, t.timestamp()) + *s.pick(&[0i64, -1, 1, 3599, 86399, -3600]);
        Utc.timestamp_opt(e, *s.pick(&[0u32, 1, 999_999_999])).unwrap()
    } else {
        t
    }
}

pub fn c02(p: &mut Prop) {
    p.suite(
        "bucket-of-instant",
        "instants 1969-2105, half near hour/day/week/month/year edges; non-trivial: the instant is not its bucket's start",
        30000,
        1000000,
        |s, c| {
            let u = gen::unit(s);
            let t = edge(s);
            c.note(format!("{u:?} {t:?}"));
            c.label(format!("{u:?}"));
            let b = date_trunc(&u, t).map_err(|e| format!("{e:?}"))?;
            c.nontrivial(b != t);
            ensure_eq!(b, Utc.timestamp_opt(trunc(&u, t.timestamp()), 0).unwrap(), "bucket of {t:?} by {u:?}");
            Ok(())
        },
    );
    p.suite(
        "buckets-of-range",
        "ranges up to ~70 buckets by each unit, both ends near edges; non-trivial: more than one bucket",
        6000,
        120000,
        |s, c| {
            let u = gen::unit(s);
            let from = edge(s);
            let span = match u {
                TimeIntervalUnit::Hour => 60 * 3600,
                TimeIntervalUnit::Day => 70 * 86400,
                TimeIntervalUnit::Week => 70 * 7 * 86400,
                TimeIntervalUnit::Month => 40 * 31 * 86400,
                TimeIntervalUnit::Year => 20 * 366 * 86400,
            };
            let mut to = from + chrono::Duration::seconds(s.below(span) as i64);
            if s.chance(1, 3) {
                to = Utc.timestamp_opt(trunc(&u, to.timestamp()).max(from.timestamp()), from.timestamp_subsec_nanos()).unwrap();
            }
            c.note(format!("{u:?} {from:?}..{to:?}"));
            c.label(format!("{u:?}"));
            let mut want = vec![];
            let mut b = trunc(&u, from.timestamp());
            while b <= to.timestamp() {
                want.push(name(b));
                b = next(&u, b);
            }
            c.nontrivial(want.len() > 1);
            let got = time_columns(from, to, &u);
            ensure_eq!(got, want, "columns of {from:?}..{to:?} by {u:?}");
            Ok(())
        },
    );
    p.suite(
        "reversed-range",
        "ranges that end before they start; non-trivial: the ends are in different buckets",
        1000,
        20000,
        |s, c| {
            let u = gen::unit(s);
            let to = edge(s);
            let from = to + chrono::Duration::seconds(1 + s.below(40 * 366 * 86400) as i64);
            c.note(format!("{u:?} {from:?}..{to:?}"));
            let (a, b) = (trunc(&u, from.timestamp()), trunc(&u, to.timestamp()));
            c.nontrivial(a != b);
            let got = time_columns(from, to, &u);
            if a != b {
                ensure!(got.is_empty(), "a reversed range has {} buckets", got.len());
            }
            Ok(())
        },
    );
}

pub fn report_columns(p: &mut Prop) {
    p.suite(
        "columns-of-report",
        "the columns of a generated report definition at a generated current time; non-trivial: more than one column",
        4000,
        80000,
        |s, c| {
            let mut q = gen::segmentation(s);
            q.interval_unit = gen::unit(s);
            let u = q.interval_unit.clone();
            let cur = edge(s);
            let k = s.range(0, 40);
            q.time = match s.below(3) {
                0 => QueryTime::Last { last: s.range(0, 12), unit: u.clone() },
                1 => QueryTime::From(Utc.timestamp_opt(back(&u, cur.timestamp(), k), cur.timestamp_subsec_nanos()).unwrap()),
                _ => {
                    let to = Utc.timestamp_opt(back(&u, cur.timestamp(), s.range(0, 5)), 0).unwrap();
                    QueryTime::Between { from: Utc.timestamp_opt(back(&u, to.timestamp(), k), 0).unwrap(), to }
                }
            };
            let (a, b) = match &q.time {
                QueryTime::Last { last, .. } => (back(&u, cur.timestamp(), *last), cur.timestamp()),
                QueryTime::From(f) => (f.timestamp(), cur.timestamp()),
                QueryTime::Between { from, to } => (from.timestamp(), to.timestamp()),
            };
            c.note(format!("{:?} by {u:?} at {cur:?}", q.time));
            let mut want = vec![];
            let mut x = trunc(&u, a);
            while x <= b {
                want.push(name(x));
                x = next(&u, x);
            }
            c.nontrivial(want.len() > 1);
            ensure_eq!(q.time_columns(cur), want, "columns of {:?}", q.time);
            Ok(())
        },
    );
}

/// `n` calendar units before `t` (months and years clamp to the month's last day).
fn back(u: &TimeIntervalUnit, t: i64, n: i64) -> i64 {
    let (d, sec) = (t.div_euclid(86400), t.rem_euclid(86400));
    let months = match u {
        TimeIntervalUnit::Hour => return t - n * 3600,
        TimeIntervalUnit::Day => return t - n * 86400,
        TimeIntervalUnit::Week => return t - n * 7 * 86400,
        TimeIntervalUnit::Month => n,
        TimeIntervalUnit::Year => 12 * n,
    };
    let (y, m, dd) = civil(d);
    let k = y * 12 + m - 1 - months;
    let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
    days(y, m, dd.min(mdays(y, m))) * 86400 + sec
}

pub fn c03(p: &mut Prop) {
    p.suite(
        "query-range",
        "each kind of query time at generated current times; non-trivial: a relative range",
        20000,
        400000,
        |s, c| {
            let cur = edge(s);
            let (a, b) = (edge(s), edge(s));
            let q = match s.below(4) {
                0 => QueryTime::Between { from: a, to: b },
                1 => QueryTime::From(a),
                _ => QueryTime::Last { last: s.range(0, 60), unit: gen::unit(s) },
            };
            c.note(format!("{q:?} at {cur:?}"));
            let (from, to) = q.range(cur);
            match &q {
                QueryTime::Between { from: f, to: t } => ensure_eq!((from, to), (*f, *t), "between"),
                QueryTime::From(f) => ensure_eq!((from, to), (*f, cur), "from"),
                QueryTime::Last { last, unit } => {
                    c.label(format!("{unit:?}"));
                    c.nontrivial(*last > 0);
                    ensure_eq!(to, cur, "end of {q:?}");
                    let w = Utc.timestamp_opt(back(unit, cur.timestamp(), *last), cur.timestamp_subsec_nanos()).unwrap();
                    ensure_eq!(from, w, "start of {q:?} at {cur:?}");
                }
            }
            Ok(())
        },
    );
    p.suite(
        "window-length",
        "behaviour windows and funnel windows of n units; non-trivial: n > 0",
        4000,
        40000,
        |s, c| {
            use common::funnel::TimeIntervalUnitSession as T;
            let i = s.below(5) as usize;
            let n = s.range(0, 400);
            c.note(format!("{i} {n}"));
            c.nontrivial(n > 0);
            let u = [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year][i].clone();
            let t = [T::Hour, T::Day, T::Week, T::Month, T::Year][i].clone();
            let h = [1i64, 24, 168, 744, 8928][i] * n;
            ensure_eq!(u.duration(n).num_milliseconds(), h * 3_600_000, "{n} {u:?}");
            ensure_eq!(t.duration(n).num_milliseconds(), h * 3_600_000, "funnel {n} {t:?}");
            ensure_eq!(SegmentTime::Each { n, unit: u.clone() }.try_window(), Some(h * 3_600_000), "each {n} {u:?}");
            ensure_eq!(t.as_str(), u.as_str(), "unit names");
            ensure_eq!(t.relative_duration(n), u.relative_duration(n), "calendar length");
            Ok(())
        },
    );
}
