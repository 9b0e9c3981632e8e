mod crash;
mod model;
mod parts;

use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use common::types::DType;
use crash::Op;
use model::*;
use proputil::*;
use storage::{KeyValue, NamedValue, Value};

fn pause(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms))
}
fn show(c: &mut Case, o: &storage::table::Options, m: &Model) {
    c.note(format!("options {o:?}"));
    for f in &m.fields {
        c.note(format!("field {} {:?} nullable={}", f.name, f.ty, f.nullable));
    }
}
fn projection(s: &mut Src, m: &Model) -> Vec<usize> {
    let mut p: Vec<usize> = (0..m.index_cols).collect();
    for i in m.index_cols..m.fields.len() {
        if s.bool() {
            p.push(i);
        }
    }
    s.shuffle(&mut p);
    p
}

/// Poll until compaction has nothing left to do at level 0 and only live files remain.
fn settle(sut: &Sut, l0_max: usize, c: &mut Case) -> R {
    let t0 = Instant::now();
    loop {
        let l0 = sut.level0();
        let live: std::collections::HashSet<PathBuf> = sut.parts().into_iter().collect();
        let (files, logs) = sut.files();
        if l0 <= l0_max && files == live && logs.len() == 1 {
            return Ok(());
        }
        if t0.elapsed() > Duration::from_secs(15) {
            ensure!(l0 <= l0_max, "{l0} level-0 parts stay uncompacted (limit {l0_max})");
            let garbage: Vec<_> = files.difference(&live).collect();
            let lost: Vec<_> = live.difference(&files).collect();
            ensure!(lost.is_empty(), "parts without a file: {lost:?}");
            ensure!(garbage.is_empty(), "files of replaced parts are never removed: {garbage:?}");
            ensure!(logs.len() == 1, "old logs are never removed: {logs:?}");
        }
        c.label("waited");
        pause(4);
    }
}

fn history(s: &mut Src, c: &mut Case, root: &Path, compact: bool) -> R {
    let (o, mut m) = table_def(s, compact);
    show(c, &o, &m);
    let l0_max = o.l0_max_parts;
    let mut sut = Sut::new(root)?;
    sut.create(o, &m)?;
    let n = s.us(1, 40);
    let (mut flushes, mut reopens) = (0, 0);
    let w: [u32; 6] = if compact { [24, 1, 8, 1, 2, 2] } else { [24, 2, 2, 1, 3, 0] };
    for i in 0..n {
        match s.weighted(&w) {
            0 => {
                let r = m.new_row(s, false);
                c.note(format!("{i}: insert {r:?}"));
                sut.insert(&m, s, &r)?;
                m.rows.push(r);
            }
            1 => {
                let f = m.new_field(s);
                c.note(format!("{i}: add_field {f:?}"));
                sut.add_field(&f)?;
                m.fields.push(f);
            }
            2 => {
                c.note(format!("{i}: flush"));
                sut.flush()?;
                flushes += 1;
            }
            3 => {
                c.note(format!("{i}: reopen"));
                sut.reopen()?;
                reopens += 1;
            }
            4 => {
                let p = if s.bool() { m.all() } else { projection(s, &m) };
                c.note(format!("{i}: scan {p:?}"));
                sut.check(&m, &p, &format!("step {i}, scan {p:?}"))?;
            }
            _ => {
                c.note(format!("{i}: wait for compaction"));
                settle(&sut, l0_max, c)?;
                sut.check(&m, &m.all(), &format!("step {i}, after compaction"))?;
            }
        }
    }
    sut.check(&m, &m.all(), "at the end")?;
    if compact {
        settle(&sut, l0_max, c)?;
        sut.check(&m, &m.all(), "after compaction at the end")?;
        let levels: std::collections::BTreeSet<String> =
            sut.parts().iter().map(|p| p.parent().unwrap().file_name().unwrap().to_string_lossy().into_owned()).collect();
        for l in levels {
            c.label(format!("level {l}"));
        }
    }
    sut.reopen()?;
    sut.check(&m, &m.all(), "after the final reopen")?;
    if flushes > 0 {
        c.label("flush");
    }
    if reopens > 0 {
        c.label("reopen");
    }
    c.nontrivial(m.rows.len() >= 2);
    Ok(())
}

fn s01(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "history",
        "random histories of insert/add_field/flush/reopen/scan on a random table (compaction off); every scan is compared with the model; non-trivial: two rows or more",
        1500,
        40000,
        |s, c| history(s, c, &root, false),
    );
}
fn s02(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "history",
        "random histories with a table whose options make background compaction run through several levels; scans compared with the model during and after it; level 0 must reach its limit and only live files may remain; non-trivial: two rows or more",
        700,
        20000,
        |s, c| history(s, c, &root, true),
    );
    p.suite(
        "scan-across-compaction",
        "a scan opened before parts are flushed, compacted and removed must return the content at its start; a scan dropped half-way must not pin files; non-trivial: the scan reads at least one part",
        300,
        6000,
        |s, c| {
            let (o, mut m) = table_def(s, true);
            show(c, &o, &m);
            let l0_max = o.l0_max_parts;
            let sut = Sut::new(&root)?;
            sut.create(o, &m)?;
            for _ in 0..s.us(1, 4) {
                for _ in 0..s.us(1, 6) {
                    let r = m.new_row(s, false);
                    c.note(format!("insert {r:?}"));
                    sut.insert(&m, s, &r)?;
                    m.rows.push(r);
                }
                sut.flush()?;
            }
            c.nontrivial(true);
            let before = m.clone();
            let st = sut.db().scan(T, m.all()).map_err(|e| format!("scan: {e}"))?;
            let mut it = futures::executor::block_on_stream(st);
            let mut got = vec![];
            for _ in 0..s.us(0, 2) {
                if let Some(x) = it.next() {
                    got.extend(rows(&x.map_err(|e| e.to_string())?));
                }
            }
            for _ in 0..s.us(1, 5) {
                let r = m.new_row(s, false);
                c.note(format!("insert while scanning {r:?}"));
                sut.insert(&m, s, &r)?;
                m.rows.push(r);
                if s.bool() {
                    sut.flush()?;
                }
            }
            let t0 = Instant::now();
            while sut.level0() > l0_max && t0.elapsed() < Duration::from_secs(15) {
                pause(4);
            }
            pause(s.below(40));
            if s.chance(1, 4) {
                c.note("drop the scan");
                c.label("dropped");
                drop(it);
            } else {
                for x in it {
                    got.extend(rows(&x.map_err(|e| format!("scan across compaction: {e}"))?));
                }
                compare(&before, &before.all(), got, "scan opened before compaction")?;
            }
            settle(&sut, l0_max, c)?;
            sut.check(&m, &m.all(), "afterwards")
        },
    );
}

#[derive(Debug, Clone)]
enum Step {
    Create,
    Field(Field),
    Insert(Row),
    Flush,
    Pause,
}

fn s03(p: &mut Prop) {
    let root = p.scratch();
    let per_case = |s: &mut Src, c: &mut Case, thorough: bool| -> R {
        let compact = s_compact(s.u64());
        let (o, mut m) = table_def(s, compact);
        show(c, &o, &m);
        let mut steps = vec![Step::Create];
        let index_cols = m.index_cols;
        let fields = std::mem::take(&mut m.fields);
        for f in fields {
            steps.push(Step::Field(f));
        }
        let dir = fresh(&root);
        let rec = crash::arm(&dir);
        let r = (|| -> R {
            let sut = Sut::open_at(&root, dir.clone())?;
            let n = s.us(3, 25);
            for i in 0..n + steps.len() {
                if i >= steps.len() {
                    let st = match s.weighted(&[16, 2, 4, 2]) {
                        0 => Step::Insert(m.new_row(s, true)),
                        1 => Step::Field(m.new_field(s)),
                        2 => Step::Flush,
                        _ => Step::Pause,
                    };
                    steps.push(st);
                }
                let st = steps[i].clone();
                c.note(format!("{i}: {st:?}"));
                rec.mark(Op::Begin(i));
                match st {
                    Step::Create => sut.db().create_table(T.into(), o.clone()).map_err(|e| format!("create: {e}"))?,
                    Step::Field(f) => {
                        sut.add_field(&f)?;
                        m.fields.push(f);
                    }
                    Step::Insert(r) => {
                        sut.insert(&m, s, &r)?;
                        m.rows.push(r);
                    }
                    Step::Flush => sut.flush()?,
                    Step::Pause => pause(25),
                }
                rec.mark(Op::Done(i));
            }
            pause(if s.bool() { 40 } else { 0 });
            crash::disarm(&rec);
            std::mem::forget(std::fs::remove_dir_all(sut.close()));
            Ok(())
        })();
        if r.is_err() {
            crash::disarm(&rec);
            return r;
        }
        let ops = std::mem::take(&mut *rec.ops.lock().unwrap());
        let points: Vec<usize> = (0..=ops.len()).filter(|n| *n == 0 || !matches!(ops[n - 1], Op::Begin(_))).collect();
        let mut chosen: Vec<usize> = if thorough {
            points.clone()
        } else {
            // every change that is not a log write, and a sample of those
            points
                .iter()
                .copied()
                .filter(|n| {
                    let structural = *n > 0
                        && !matches!(&ops[n - 1], Op::Done(_))
                        && !matches!(&ops[n - 1], Op::Write { path, .. } if path.extension().is_some_and(|x| x == "log" || x == "parquet"));
                    if structural { s.chance(1, 2) } else { s.chance(1, 6) }
                })
                .collect()
        };
        if !thorough {
            while chosen.len() > 30 {
                let i = s.us(0, chosen.len() - 1);
                chosen.remove(i);
            }
        }
        let mut hit_inflight = 0;
        for n in chosen {
            let torn = match ops.get(n.wrapping_sub(1)) {
                Some(Op::Write { path, data, .. }) if path.extension().is_some_and(|x| x == "log") && s.bool() => {
                    Some(s.us(0, data.len() - 1))
                }
                _ => None,
            };
            let at = fresh(&root);
            crash::materialize(&ops, n, &dir, &at, torn).map_err(|e| format!("materialize: {e}"))?;
            let last = ops[..n].iter().rev().find(|o| !matches!(o, Op::Begin(_) | Op::Done(_)));
            let when = format!(
                "crash after change {n} of {} ({}{})",
                ops.len(),
                match last {
                    Some(Op::Write { path, at, data }) => format!("write {} bytes at {at} of {}", data.len(), rel(path, &dir)),
                    Some(Op::Create { path, .. }) => format!("create {}", rel(path, &dir)),
                    Some(Op::Unlink(p)) => format!("unlink {}", rel(p, &dir)),
                    Some(o) => format!("{o:?}").replace(&dir.display().to_string(), ""),
                    None => "nothing yet".into(),
                },
                torn.map(|k| format!(", torn at byte {k}")).unwrap_or_default()
            );
            let mut want = Model { index_cols, fields: vec![], rows: vec![] };
            let mut created = false;
            let mut inflight = None;
            for o in &ops[..n] {
                match o {
                    Op::Begin(i) => inflight = Some(*i),
                    Op::Done(i) => {
                        inflight = None;
                        match &steps[*i] {
                            Step::Create => created = true,
                            Step::Field(f) => want.fields.push(f.clone()),
                            Step::Insert(r) => want.rows.push(r.clone()),
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
            if inflight.is_some() {
                hit_inflight += 1;
            }
            check_crash(s, &root, at, &o, created, want, inflight.map(|i| steps[i].clone()), &when)
                .map_err(|e| format!("{when}: {e}"))?;
        }
        c.nontrivial(hit_inflight > 0 && m.rows.len() > 1);
        if hit_inflight > 0 {
            c.label("crash inside an operation");
        }
        if ops.iter().any(|o| matches!(o, Op::Link(..) | Op::Rename(..))) {
            c.label("part moved");
        }
        if ops.iter().any(|o| matches!(o, Op::Create { path, .. } if path.to_string_lossy().contains("/levels/1/"))) {
            c.label("compaction");
        }
        Ok(())
    };
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    p.suite(
        "crash-points",
        "a random history is executed while every file-system change is recorded; the directory is rebuilt as of chosen prefixes of the changes (log writes also torn) and opened: acknowledged rows and columns exactly once, at most the operation in flight besides, and the table stays usable; non-trivial: a crash inside an operation with two rows or more",
        90,
        1200,
        |s, c| per_case(s, c, thorough),
    );
    p.suite(
        "io-errors",
        "one file-system change of a random insert or flush fails with ENOSPC/EIO: the failed insert's row may or may not be present, every acknowledged row stays exactly once, later operations succeed, also after reopening; non-trivial: the fault happened",
        500,
        10000,
        |s, c| {
            let (o, mut m) = table_def(s, false);
            show(c, &o, &m);
            let mut sut = Sut::new(&root)?;
            sut.create(o, &m)?;
            let mut maybe: Vec<Row> = vec![];
            let mut hits = 0;
            for i in 0..s.us(2, 25) {
                let armed = s.chance(1, 3);
                if armed {
                    crash::fail_nth(&sut.path, s.below(8) as i64, *s.pick(&[28, 5]));
                }
                let r = if s.chance(2, 3) {
                    let r = m.new_row(s, true);
                    if maybe.iter().any(|x| x[..m.index_cols] == r[..m.index_cols]) {
                        // must be told apart from the row that may or may not be there
                        if armed {
                            crash::fail_off();
                        }
                        continue;
                    }
                    let res = sut.insert(&m, s, &r);
                    c.note(format!("{i}: insert {r:?}{} -> {res:?}", if armed { " with a fault" } else { "" }));
                    match &res {
                        Ok(()) => m.rows.push(r),
                        Err(_) => maybe.push(r),
                    }
                    res
                } else {
                    let res = sut.flush();
                    c.note(format!("{i}: flush{} -> {res:?}", if armed { " with a fault" } else { "" }));
                    res
                };
                let hit = armed && crash::fail_off();
                hits += hit as u32;
                if let Err(e) = r {
                    ensure!(hit, "step {i} fails without a fault: {e}");
                }
                if s.chance(1, 6) {
                    c.note(format!("{i}: reopen"));
                    sut.reopen()?;
                }
                let got = sut.scan(&m.all()).map_err(|e| format!("after step {i}: {e}"))?;
                among(&mut m, &mut maybe, got, &format!("after step {i}"))?;
            }
            sut.reopen()?;
            let got = sut.scan(&m.all())?;
            among(&mut m, &mut maybe, got, "after the final reopen")?;
            c.nontrivial(hits > 0);
            Ok(())
        },
    );
}
fn s_compact(v: u64) -> bool {
    v % 4 != 0
}
fn rel(p: &Path, d: &Path) -> String {
    p.strip_prefix(d).unwrap_or(p).display().to_string()
}
/// Rows with unknown fate must appear at most once; once seen they may come and go only by never
/// having been acknowledged.
fn among(m: &mut Model, maybe: &mut [Row], got: Vec<Row>, when: &str) -> R {
    let mut want = m.clone();
    for r in maybe.iter() {
        let full: Row = (0..m.fields.len()).map(|i| r.get(i).cloned().unwrap_or(Cell::Null)).collect();
        if got.contains(&full) {
            want.rows.push(r.clone());
        }
    }
    compare(&want, &want.all(), got, when)
}

#[allow(clippy::too_many_arguments)]
fn check_crash(
    s: &mut Src,
    root: &Path,
    at: PathBuf,
    o: &storage::table::Options,
    created: bool,
    mut want: Model,
    inflight: Option<Step>,
    _when: &str,
) -> R {
    let mut sut = Sut::open_at(root, at)?;
    match sut.db().schema(T) {
        Err(e) => {
            ensure!(!created, "the table is gone: {e}");
            sut.db().create_table(T.into(), o.clone()).map_err(|e| format!("create_table after the crash: {e}"))?;
        }
        Ok(schema) => {
            let names: Vec<String> = schema.fields.iter().map(|f| f.name.clone()).collect();
            let mut wn: Vec<String> = want.fields.iter().map(|f| f.name.clone()).collect();
            if names != wn {
                if let Some(Step::Field(f)) = &inflight {
                    want.fields.push(f.clone());
                    wn.push(f.name.clone());
                }
            }
            ensure_eq!(names, wn, "columns");
        }
    }
    while want.fields.len() < want.index_cols {
        let f = want.new_field(s);
        sut.add_field(&f)?;
        want.fields.push(f);
    }
    let rounds = 1 + s.below(3);
    for k in 0..rounds {
        let got = sut.scan(&want.all())?;
        if let Some(Step::Insert(r)) = &inflight {
            let full: Row = (0..want.fields.len()).map(|i| r.get(i).cloned().unwrap_or(Cell::Null)).collect();
            if k == 0 && got.contains(&full) {
                want.rows.push(r.clone());
            }
        }
        compare(&want, &want.all(), got, if k == 0 { "after recovery" } else { "after recovery and more work" })?;
        if k + 1 < rounds {
            // distinct from everything in the history
            let mut r = want.new_row(s, true);
            r[want.index_cols - 1] = Cell::I(5_000_000 + k as i128);
            sut.insert(&want, s, &r)?;
            want.rows.push(r);
            match s.below(3) {
                0 => sut.flush()?,
                1 => sut.reopen()?,
                _ => {
                    sut.flush()?;
                    pause(20);
                }
            }
        }
    }
    Ok(())
}

fn s04(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "projection",
        "random subsets and orders of columns (keys included) over rows spread on memtable, flushed and compacted parts, older parts lacking newer columns; the scan returns exactly those columns in table order; non-trivial: a column added after a flush is projected",
        500,
        15000,
        |s, c| {
            let compact = s_compact(s.u64());
            let (o, mut m) = table_def(s, compact);
            show(c, &o, &m);
            let sut = Sut::new(&root)?;
            sut.create(o, &m)?;
            let mut first_late = usize::MAX;
            for round in 0..s.us(1, 4) {
                for _ in 0..s.us(1, 5) {
                    let r = m.new_row(s, false);
                    sut.insert(&m, s, &r)?;
                    m.rows.push(r);
                }
                if s.chance(3, 4) {
                    sut.flush()?;
                }
                for _ in 0..s.us(0, 2) {
                    first_late = first_late.min(m.fields.len());
                    let f = m.new_field(s);
                    sut.add_field(&f)?;
                    m.fields.push(f);
                }
                let _ = round;
            }
            for _ in 0..4 {
                let pr = projection(s, &m);
                c.note(format!("rows {} fields {} projection {pr:?}", m.rows.len(), m.fields.len()));
                c.nontrivial(pr.iter().any(|x| *x >= first_late));
                sut.check(&m, &pr, &format!("projection {pr:?}"))?;
            }
            Ok(())
        },
    );
}

fn s05(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "rejected-calls",
        "inserts with an unknown column, a value of another type or an unknown table, duplicate columns and tables: each is an error and changes nothing, now and after reopening; non-trivial: at least one rejected insert among accepted ones",
        500,
        15000,
        |s, c| {
            let (o, mut m) = table_def(s, false);
            show(c, &o, &m);
            let mut sut = Sut::new(&root)?;
            sut.create(o.clone(), &m)?;
            let mut bad = 0;
            for i in 0..s.us(2, 20) {
                let r = m.new_row(s, false);
                if s.bool() {
                    sut.insert(&m, s, &r)?;
                    m.rows.push(r);
                    continue;
                }
                bad += 1;
                match s.below(6) {
                    0 => {
                        let mut v = m.named(s, &r);
                        v.push(NamedValue::new("no such column".into(), Value::Int64(Some(1))));
                        ensure!(sut.db().insert(T, v).is_err(), "step {i}: unknown column accepted");
                    }
                    1 if m.fields.len() > m.index_cols => {
                        let k = s.us(m.index_cols, m.fields.len() - 1);
                        let other = TYPES.iter().filter(|t| **t != m.fields[k].ty).nth(s.us(0, 6)).unwrap().clone();
                        let mut v: Vec<NamedValue> =
                            (0..m.index_cols).map(|j| NamedValue::new(m.fields[j].name.clone(), value(&r[j], &m.fields[j].ty))).collect();
                        let x = cell(s, &other);
                        c.note(format!("{i}: {:?} for column of type {:?}", value(&x, &other), m.fields[k].ty));
                        v.push(NamedValue::new(m.fields[k].name.clone(), value(&x, &other)));
                        ensure!(sut.db().insert(T, v).is_err(), "step {i}: {x:?} as {other:?} accepted by {:?}", m.fields[k]);
                    }
                    2 => ensure!(sut.db().insert("nope", m.named(s, &r)).is_err(), "step {i}: unknown table accepted"),
                    3 => {
                        let f = s.pick(&m.fields).clone();
                        ensure!(
                            sut.db().add_field(T, &f.name, s.pick(&TYPES).clone(), true).is_err(),
                            "step {i}: duplicate column accepted"
                        );
                    }
                    4 => ensure!(sut.db().create_table(T.into(), o.clone()).is_err(), "step {i}: duplicate table accepted"),
                    _ => {
                        ensure!(sut.db().scan("nope", vec![0]).is_err(), "scan of an unknown table");
                        ensure!(sut.db().flush("nope").is_err(), "flush of an unknown table");
                        ensure!(sut.db().schema("nope").is_err(), "schema of an unknown table");
                        ensure!(sut.db().add_field("nope", "x", DType::Int64, true).is_err(), "add_field to an unknown table");
                    }
                }
                if s.chance(1, 5) {
                    sut.flush()?;
                }
                if s.chance(1, 8) {
                    sut.reopen()?;
                }
            }
            sut.check(&m, &m.all(), "after rejected calls")?;
            let names: Vec<String> = sut.db().schema(T).unwrap().fields.iter().map(|f| f.name.clone()).collect();
            ensure_eq!(names, m.fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>(), "columns");
            sut.reopen()?;
            sut.check(&m, &m.all(), "after reopening")?;
            c.nontrivial(bad > 0 && !m.rows.is_empty());
            Ok(())
        },
    );
}

fn s06(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "get",
        "unique integer keys spread over memtable, flushed and compacted parts; get of every inserted key returns its row (columns added later are null), get of other keys returns nothing; non-trivial: at least one key found in a part",
        400,
        12000,
        |s, c| {
            let compact = s_compact(s.u64());
            let (mut o, _) = table_def(s, compact);
            let index_cols = s.us(1, 2);
            o.index_cols = index_cols;
            let mut m = Model { index_cols, fields: vec![], rows: vec![] };
            for i in 0..index_cols + s.us(0, 4) {
                let mut f = m.new_field(s);
                if i < index_cols {
                    f.ty = DType::Int64;
                }
                m.fields.push(f);
            }
            show(c, &o, &m);
            let mut sut = Sut::new(&root)?;
            sut.create(o, &m)?;
            let mut flushes = 0;
            for i in 0..s.us(1, 25) {
                match s.weighted(&[10, 3, 1, 1, 1]) {
                    0 => {
                        let r = m.new_row(s, true);
                        c.note(format!("{i}: insert {r:?}"));
                        sut.insert(&m, s, &r)?;
                        m.rows.push(r);
                    }
                    1 => {
                        c.note(format!("{i}: flush"));
                        flushes += !m.rows.is_empty() as u32;
                        sut.flush()?
                    }
                    2 => {
                        let f = m.new_field(s);
                        c.note(format!("{i}: add {f:?}"));
                        sut.add_field(&f)?;
                        m.fields.push(f);
                    }
                    3 => pause(25),
                    _ => sut.reopen()?,
                }
            }
            let ints = |r: &Row| -> Vec<i64> {
                r[..index_cols].iter().map(|x| if let Cell::I(v) = x { *v as i64 } else { unreachable!() }).collect()
            };
            let mut keys: Vec<Vec<i64>> = m.rows.iter().map(ints).collect();
            for _ in 0..6 {
                let r = m.new_row(s, false);
                keys.push(ints(&r));
            }
            for k in keys {
                let want = m.rows.iter().find(|r| ints(r) == k).map(|r| {
                    (0..m.fields.len()).map(|i| r.get(i).cloned().unwrap_or(Cell::Null)).collect::<Row>()
                });
                let got = sut
                    .db()
                    .get(T, k.iter().map(|v| KeyValue::Int64(*v)).collect())
                    .map_err(|e| format!("get {k:?}: {e}"))?
                    .map(|v| v.iter().map(cell_of_value).collect::<Row>());
                ensure_eq!(got, want, "get {k:?}");
            }
            c.nontrivial(flushes > 0);
            Ok(())
        },
    );
}

fn backup(sut: &Sut) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    let last = std::sync::Mutex::new(0usize);
    let bad = AtomicBool::new(false);
    sut.db()
        .full_backup(&mut b, |pct| {
            let mut l = last.lock().unwrap();
            if pct > 100 || pct < *l {
                bad.store(true, Ordering::Relaxed);
            }
            *l = pct;
        })
        .map_err(|e| format!("backup: {e}"))?;
    ensure!(!bad.load(Ordering::Relaxed), "backup progress goes backwards or beyond 100 %");
    Ok(b)
}

fn s08(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "backup-restore",
        "a random database is backed up (raw or compressed file) and restored into a database with other content; rows, columns and options equal the original, and stay so through further inserts, flushes, compaction and reopening; non-trivial: rows both in parts and in the log",
        350,
        8000,
        |s, c| {
            let compact = s_compact(s.u64());
            let (o, mut m) = table_def(s, compact);
            show(c, &o, &m);
            let sut = Sut::new(&root)?;
            sut.create(o.clone(), &m)?;
            let mut flushed = 0;
            for _ in 0..s.us(0, 25) {
                match s.weighted(&[10, 2, 1]) {
                    0 => {
                        let r = m.new_row(s, false);
                        c.note(format!("insert {r:?}"));
                        sut.insert(&m, s, &r)?;
                        m.rows.push(r);
                    }
                    1 => {
                        c.note("flush");
                        sut.flush()?;
                        flushed = m.rows.len();
                    }
                    _ => {
                        let f = m.new_field(s);
                        sut.add_field(&f)?;
                        m.fields.push(f);
                    }
                }
            }
            c.nontrivial(flushed > 0 && flushed < m.rows.len());
            // the target has content of its own
            let mut dst = Sut::new(&root)?;
            if s.chance(3, 4) {
                let (o2, mut m2) = table_def(s, true);
                dst.create(o2, &m2)?;
                for _ in 0..s.us(0, 6) {
                    let r = m2.new_row(s, false);
                    dst.insert(&m2, s, &r)?;
                    m2.rows.push(r);
                    if s.bool() {
                        dst.flush()?;
                    }
                }
            }
            if s.bool() {
                let b = backup(&sut)?;
                dst.db().full_restore(&mut &b[..]).map_err(|e| format!("restore: {e}"))?;
            } else {
                let f = root.join(format!("b{}", fresh(&root).file_name().unwrap().to_string_lossy()));
                sut.db().full_backup_local(&f, |_| ()).map_err(|e| format!("backup: {e}"))?;
                let r = dst.db().full_restore_local(&f).map_err(|e| format!("restore: {e}"));
                let _ = std::fs::remove_file(&f);
                r?;
                c.label("compressed");
            }
            sut.check(&m, &m.all(), "the source after the backup")?;
            dst.check(&m, &m.all(), "the restored database")?;
            ensure_eq!(dst.db().schema(T).unwrap(), sut.db().schema(T).unwrap(), "schema");
            ensure_eq!(dst.db().table_options(T).unwrap(), o, "options");
            for _ in 0..s.us(0, 6) {
                let r = m.new_row(s, false);
                dst.insert(&m, s, &r)?;
                m.rows.push(r);
                if s.bool() {
                    dst.flush()?;
                }
            }
            pause(s.below(30));
            dst.check(&m, &m.all(), "the restored database after more inserts")?;
            dst.reopen()?;
            dst.check(&m, &m.all(), "the restored database after reopening")
        },
    );
    p.suite(
        "truncated-backup",
        "a backup cut at any byte is refused with an error; non-trivial: the database has rows",
        250,
        6000,
        |s, c| {
            let (o, mut m) = table_def(s, false);
            let sut = Sut::new(&root)?;
            sut.create(o, &m)?;
            for _ in 0..s.us(0, 8) {
                let r = m.new_row(s, false);
                sut.insert(&m, s, &r)?;
                m.rows.push(r);
                if s.chance(1, 3) {
                    sut.flush()?;
                }
            }
            let b = backup(&sut)?;
            let cut = if s.bool() { s.us(0, b.len() - 1) } else { b.len() - 1 - s.us(0, 20.min(b.len() - 1)) };
            c.note(format!("{} rows, backup of {} bytes cut to {cut}", m.rows.len(), b.len()));
            c.nontrivial(!m.rows.is_empty());
            let dst = Sut::new(&root)?;
            ensure!(dst.db().full_restore(&mut &b[..cut]).is_err(), "a backup cut to {cut} of {} bytes was restored", b.len());
            let mut x = b.clone();
            let n = x.len();
            x[n - 1 - s.us(0, 7)] ^= 1 << s.below(8);
            let dst = Sut::new(&root)?;
            ensure!(dst.db().full_restore(&mut &x[..]).is_err(), "a backup with a damaged end mark was restored");
            Ok(())
        },
    );
    p.suite(
        "backup-while-writing",
        "backups taken while another thread inserts, flushes and compaction runs: the restored rows are a prefix of the inserts containing everything acknowledged before the backup began and nothing begun after it ended; non-trivial: inserts happened meanwhile",
        60,
        1500,
        |s, c| {
            let mut o = options(s, 1, true);
            o.merge_max_l1_part_size_bytes = 1 << 20;
            let m = Model {
                index_cols: 1,
                fields: vec![
                    Field { name: "k".into(), ty: DType::Int64, nullable: false },
                    Field { name: "v".into(), ty: DType::String, nullable: true },
                ],
                rows: vec![],
            };
            show(c, &o, &m);
            let sut = Sut::new(&root)?;
            sut.create(o, &m)?;
            let acked = AtomicUsize::new(0);
            let begun = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let pad = "x".repeat(s.us(0, 60));
            let every = s.us(2, 9);
            let backups = s.us(1, 4);
            let mut taken = vec![];
            let r: R = std::thread::scope(|sc| {
                let h = sc.spawn(|| -> R {
                    let mut i = 0;
                    while !stop.load(Ordering::SeqCst) && i < 400 {
                        begun.store(i + 1, Ordering::SeqCst);
                        sut.db()
                            .insert(T, vec![
                                NamedValue::new("k".into(), Value::Int64(Some(i as i64))),
                                NamedValue::new("v".into(), Value::String(Some(format!("{i}{pad}")))),
                            ])
                            .map_err(|e| format!("insert: {e}"))?;
                        acked.store(i + 1, Ordering::SeqCst);
                        i += 1;
                        if i % every == 0 {
                            sut.flush()?;
                        }
                    }
                    Ok(())
                });
                let r = (|| -> R {
                    for _ in 0..backups {
                        pause(3);
                        let lo = acked.load(Ordering::SeqCst);
                        let b = guarded(|| backup(&sut)).unwrap_or_else(Err)?;
                        let hi = begun.load(Ordering::SeqCst);
                        taken.push((lo, hi, b));
                    }
                    Ok(())
                })();
                stop.store(true, Ordering::SeqCst);
                h.join().map_err(|_| "the inserting thread panicked".to_string())??;
                r
            });
            r?;
            for (lo, hi, b) in taken {
                c.nontrivial(hi > lo);
                c.note(format!("backup of {} bytes between {lo} and {hi}", b.len()));
                let dst = Sut::new(&root)?;
                dst.db().full_restore(&mut &b[..]).map_err(|e| format!("restore of a backup taken while writing: {e}"))?;
                let got = dst.scan(&[0, 1])?;
                ensure!(got.len() >= lo && got.len() <= hi, "{} rows restored, {lo} acknowledged before and {hi} begun until the end", got.len());
                for (i, r) in got.iter().enumerate() {
                    ensure_eq!(r, &vec![Cell::I(i as i128), Cell::S(format!("{i}{pad}"))], "restored row {i}");
                }
            }
            Ok(())
        },
    );
}

fn s09(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "concurrent",
        "1-3 inserting threads, one flushing and adding columns, one looking up keys and one scanning, with compaction and gc in the background: a looked-up row is found whole if it was acknowledged before, and not before it is begun; every scan sees of each inserter a prefix of its rows, with everything acknowledged before the scan and nothing begun after it, each once and unaltered; the same after the end and after reopening; non-trivial: at least two scans raced with inserts",
        600,
        15000,
        |s, c| {
            let compact = s_compact(s.u64());
            let mut o = options(s, 2, compact);
            o.merge_row_group_values_limit = 1000;
            o.merge_array_page_size = 1000;
            o.merge_max_l1_part_size_bytes = 1 << 20;
            let writers = s.us(1, 3);
            let per = s.us(20, 120);
            let flush_every = s.below(3);
            let max_fields = s.us(0, 6);
            let mut sut = Sut::new(&root)?;
            let k = |n: &str| Field { name: n.into(), ty: DType::Int64, nullable: false };
            let m = Model { index_cols: 2, fields: vec![k("a"), k("b"), k("v0")], rows: vec![] };
            show(c, &o, &m);
            c.note(format!("{writers} writers, {per} rows each, up to {max_fields} columns added"));
            sut.create(o, &m)?;
            let val = |t: usize, i: usize, f: usize| (t * 1_000_003 + i * 97 + f * 13) as i64;
            let fields = AtomicUsize::new(1);
            let acked: Vec<AtomicUsize> = (0..writers).map(|_| AtomicUsize::new(0)).collect();
            let begun: Vec<AtomicUsize> = (0..writers).map(|_| AtomicUsize::new(0)).collect();
            // columns given at each insert
            let given: Vec<std::sync::Mutex<Vec<usize>>> = (0..writers).map(|_| Default::default()).collect();
            let left = AtomicUsize::new(writers);
            let verify = |got: Vec<Row>, lo: &[usize], hi: &[usize], when: &str| -> R {
                for w in got.windows(2) {
                    ensure!(w[0][..2] <= w[1][..2], "{when}: rows out of key order: {:?} {:?}", w[0], w[1]);
                }
                let mut n = vec![0usize; writers];
                for r in &got {
                    let (Cell::I(a), Cell::I(b)) = (&r[0], &r[1]) else { return Err(format!("{when}: null key in {r:?}")) };
                    let (t, i) = (*a as usize, *b as usize);
                    ensure!(t < writers, "{when}: unknown row {r:?}");
                    ensure!(i == n[t], "{when}: row {i} of writer {t} where row {} is due", n[t]);
                    n[t] += 1;
                    let g = given[t].lock().unwrap()[i];
                    for (f, x) in r[2..].iter().enumerate() {
                        let w = if f < g { Cell::I(val(t, i, f) as i128) } else { Cell::Null };
                        ensure_eq!(x, &w, "{when}: column v{f} of row {i} of writer {t}");
                    }
                }
                for t in 0..writers {
                    ensure!(
                        n[t] >= lo[t] && n[t] <= hi[t],
                        "{when}: {} rows of writer {t}, acknowledged before {}, begun until the end {}",
                        n[t],
                        lo[t],
                        hi[t]
                    );
                }
                Ok(())
            };
            let load = |v: &[AtomicUsize]| -> Vec<usize> { v.iter().map(|x| x.load(Ordering::SeqCst)).collect() };
            let mut raced = 0;
            let picks = s.u64();
            let looked = AtomicUsize::new(0);
            let r: R = std::thread::scope(|sc| {
                let mut hs = vec![];
                let db = sut.db();
                for t in 0..writers {
                    let (fields, acked, begun, given, left) = (&fields, &acked, &begun, &given, &left);
                    hs.push(sc.spawn(move || -> R {
                        let r = guarded(|| {
                            for i in 0..per {
                                let n = fields.load(Ordering::SeqCst);
                                given[t].lock().unwrap().push(n);
                                begun[t].store(i + 1, Ordering::SeqCst);
                                let mut v = vec![
                                    NamedValue::new("a".into(), Value::Int64(Some(t as i64))),
                                    NamedValue::new("b".into(), Value::Int64(Some(i as i64))),
                                ];
                                for f in 0..n {
                                    v.push(NamedValue::new(format!("v{f}"), Value::Int64(Some(val(t, i, f)))));
                                }
                                db.insert(T, v).map_err(|e| format!("insert: {e}"))?;
                                acked[t].store(i + 1, Ordering::SeqCst);
                            }
                            Ok(())
                        });
                        left.fetch_sub(1, Ordering::SeqCst);
                        r.unwrap_or_else(Err)
                    }));
                }
                {
                    let (fields, left) = (&fields, &left);
                    hs.push(sc.spawn(move || -> R {
                        guarded(|| {
                            let mut k = 0;
                            while left.load(Ordering::SeqCst) > 0 {
                                if flush_every > 0 {
                                    db.flush(T).map_err(|e| format!("flush: {e}"))?;
                                }
                                let n = fields.load(Ordering::SeqCst);
                                if k % 3 == 0 && n <= max_fields {
                                    db.add_field(T, &format!("v{n}"), DType::Int64, true).map_err(|e| format!("add_field: {e}"))?;
                                    fields.store(n + 1, Ordering::SeqCst);
                                }
                                k += 1;
                                std::thread::sleep(Duration::from_micros(150 * flush_every + 50));
                            }
                            Ok(())
                        })
                        .unwrap_or_else(Err)
                    }));
                }
                {
                    let (acked, begun, given, left, looked) = (&acked, &begun, &given, &left, &looked);
                    let mut x = picks;
                    hs.push(sc.spawn(move || -> R {
                        guarded(|| {
                            while left.load(Ordering::SeqCst) > 0 {
                                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                let t = (x >> 33) as usize % writers;
                                let i = (x >> 40) as usize % per;
                                let lo = acked[t].load(Ordering::SeqCst);
                                let got = db
                                    .get(T, vec![KeyValue::Int64(t as i64), KeyValue::Int64(i as i64)])
                                    .map_err(|e| format!("concurrent get of row {i} of writer {t}: {e}"))?;
                                let hi = begun[t].load(Ordering::SeqCst);
                                let Some(got) = got else {
                                    ensure!(i >= lo, "row {i} of writer {t} is not found, acknowledged were {lo}");
                                    continue;
                                };
                                ensure!(i < hi, "row {i} of writer {t} found before it is inserted ({hi})");
                                looked.fetch_add(1, Ordering::SeqCst);
                                let g = given[t].lock().unwrap()[i];
                                let got = got.iter().map(cell_of_value).collect::<Row>();
                                ensure_eq!(&got[..2], &[Cell::I(t as i128), Cell::I(i as i128)], "key of row {i} of writer {t}");
                                for (f, x) in got[2..].iter().enumerate() {
                                    let w = if f < g { Cell::I(val(t, i, f) as i128) } else { Cell::Null };
                                    ensure_eq!(x, &w, "column v{f} of row {i} of writer {t}, looked up");
                                }
                                ensure!(got.len() >= 2 + g, "row {i} of writer {t} is looked up with {} columns of {}", got.len(), 2 + g);
                            }
                            Ok(())
                        })
                        .unwrap_or_else(Err)
                    }));
                }
                let r = guarded(|| {
                    while left.load(Ordering::SeqCst) > 0 {
                        let lo = load(&acked);
                        let n = fields.load(Ordering::SeqCst) + 2;
                        let st = db.scan(T, (0..n).collect()).map_err(|e| format!("scan: {e}"))?;
                        let got = drain(st, None).map_err(|e| format!("concurrent scan: {e}"))?;
                        let hi = load(&begun);
                        raced += (hi != lo) as u32;
                        verify(got, &lo, &hi, "concurrent scan")?;
                    }
                    Ok(())
                })
                .unwrap_or_else(Err);
                for h in hs {
                    h.join().map_err(|_| "a thread panicked".to_string())??;
                }
                r
            });
            r?;
            c.nontrivial(raced >= 2);
            if looked.load(Ordering::SeqCst) > 0 {
                c.label("rows looked up");
            }
            let all: Vec<usize> = (0..fields.load(Ordering::SeqCst) + 2).collect();
            let full = vec![per; writers];
            verify(sut.scan(&all)?, &full, &full, "after the end")?;
            pause(15);
            sut.reopen()?;
            verify(sut.scan(&all)?, &full, &full, "after reopening")
        },
    );
    p.suite(
        "crash-while-concurrent",
        "two inserting threads and a flushing one, every file-system change recorded, then crash points: what each thread had acknowledged before the crash is there exactly once, at most its insert in flight besides; non-trivial: a crash while inserts are in flight",
        25,
        500,
        |s, c| {
            let compact = s.bool();
            let o = options(s, 2, compact);
            let dir = fresh(&root);
            let rec = crash::arm(&dir);
            let m = Model {
                index_cols: 2,
                fields: ["a", "b"].iter().map(|n| Field { name: n.to_string(), ty: DType::Int64, nullable: false }).collect(),
                rows: vec![],
            };
            show(c, &o, &m);
            let per = s.us(5, 30);
            let r = (|| -> R {
                let sut = Sut::open_at(&root, dir.clone())?;
                sut.create(o, &m)?;
                let left = AtomicUsize::new(2);
                std::thread::scope(|sc| {
                    let mut hs = vec![];
                    for t in 0..2usize {
                        let (sut, rec, left) = (&sut, &rec, &left);
                        hs.push(sc.spawn(move || -> R {
                            let r = guarded(|| {
                                for i in 0..per {
                                    rec.mark(Op::Begin(t * 1000 + i));
                                    sut.db()
                                        .insert(T, vec![
                                            NamedValue::new("a".into(), Value::Int64(Some(t as i64))),
                                            NamedValue::new("b".into(), Value::Int64(Some(i as i64))),
                                        ])
                                        .map_err(|e| format!("insert: {e}"))?;
                                    rec.mark(Op::Done(t * 1000 + i));
                                }
                                Ok(())
                            });
                            left.fetch_sub(1, Ordering::SeqCst);
                            r.unwrap_or_else(Err)
                        }));
                    }
                    while left.load(Ordering::SeqCst) > 0 {
                        sut.flush()?;
                        std::thread::sleep(Duration::from_micros(60));
                    }
                    for h in hs {
                        h.join().map_err(|_| "a thread panicked".to_string())??;
                    }
                    Ok::<(), String>(())
                })?;
                crash::disarm(&rec);
                let _ = std::fs::remove_dir_all(sut.close());
                Ok(())
            })();
            if r.is_err() {
                crash::disarm(&rec);
                return r;
            }
            let ops = std::mem::take(&mut *rec.ops.lock().unwrap());
            let first = ops.iter().position(|o| matches!(o, Op::Begin(_))).unwrap_or(0);
            for _ in 0..12 {
                let n = s.us(first, ops.len());
                let at = fresh(&root);
                crash::materialize(&ops, n, &dir, &at, None).map_err(|e| e.to_string())?;
                let (mut lo, mut hi) = ([0usize; 2], [0usize; 2]);
                for o in &ops[..n] {
                    match o {
                        Op::Begin(i) => hi[i / 1000] = i % 1000 + 1,
                        Op::Done(i) => lo[i / 1000] = i % 1000 + 1,
                        _ => {}
                    }
                }
                if lo != hi {
                    c.nontrivial(true);
                }
                let sut = Sut::open_at(&root, at).map_err(|e| format!("crash after change {n}: {e}"))?;
                let got = sut.scan(&[0, 1]).map_err(|e| format!("crash after change {n}: {e}"))?;
                let mut k = [0usize; 2];
                for r in got {
                    let (Cell::I(a), Cell::I(b)) = (&r[0], &r[1]) else { return Err("null key".into()) };
                    ensure!(*b as usize == k[*a as usize], "crash after change {n}: row {b} of writer {a} where row {} is due", k[*a as usize]);
                    k[*a as usize] += 1;
                }
                for t in 0..2 {
                    ensure!(
                        k[t] >= lo[t] && k[t] <= hi[t],
                        "crash after change {n} of {}: {} rows of writer {t}, {} acknowledged, {} begun",
                        ops.len(),
                        k[t],
                        lo[t],
                        hi[t]
                    );
                }
            }
            Ok(())
        },
    );
}

fn s10(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "damaged-files",
        "one byte of the log or the table metadata changed, or the file cut, or a part cut, then the database is opened and scanned: an error, or exactly a prefix of the acknowledged rows for a log whose end is cut or whose record length is damaged - never other rows; non-trivial: the damaged file holds rows",
        600,
        20000,
        |s, c| {
            let (o, mut m) = table_def(s, false);
            show(c, &o, &m);
            let sut = Sut::new(&root)?;
            let mut o = o;
            o.max_log_length_bytes = 1 << 30;
            sut.create(o, &m)?;
            let flushed = s.us(0, 5);
            for i in 0..flushed + s.us(1, 8) {
                let r = m.new_row(s, true);
                sut.insert(&m, s, &r)?;
                m.rows.push(r);
                if i + 1 == flushed {
                    sut.flush()?;
                }
            }
            let logged = m.rows.split_off(flushed);
            let base = sut.close();
            let at = fresh(&root);
            copy_dir(&base, &at);
            let _ = std::fs::remove_dir_all(&base);
            let t = at.join("tables").join(T);
            let log = std::fs::read_dir(&t).unwrap().flatten().find(|e| e.path().extension().is_some_and(|x| x == "log")).unwrap().path();
            let which = s.below(if flushed > 0 { 3 } else { 2 });
            let file = match which {
                0 => log,
                1 => t.join("metadata"),
                _ => t.join("levels/0/0.parquet"),
            };
            let mut b = std::fs::read(&file).unwrap();
            let cut = which == 2 || s.chance(1, 3);
            let pos = s.us(0, b.len() - 1);
            if cut {
                b.truncate(pos);
            } else {
                b[pos] ^= 1 + s.below(255) as u8;
            }
            std::fs::write(&file, &b).unwrap();
            c.note(format!("{} {} at {pos}", file.strip_prefix(&at).unwrap().display(), if cut { "cut" } else { "changed" }));
            c.nontrivial(which != 0 || !logged.is_empty());
            let r = guarded(|| -> Result<Vec<Row>, String> {
                let sut = Sut::open_at(&root, at.clone())?;
                sut.scan(&m.all())
            });
            let _ = std::fs::remove_dir_all(&at);
            match r {
                Err(p) => Err(format!("{p}")),
                Ok(Err(_)) => {
                    c.label("error");
                    Ok(())
                }
                Ok(Ok(mut got)) => {
                    got.sort();
                    c.label("opened");
                    ensure!(which == 0, "a database with damaged {} opens and scans", file.file_name().unwrap().to_string_lossy());
                    for k in 0..=logged.len() {
                        let mut want = m.clone();
                        want.rows.extend_from_slice(&logged[..k]);
                        if got == want.expect(&want.all()) {
                            ensure!(cut || k < logged.len(), "a changed log byte goes unnoticed");
                            return Ok(());
                        }
                    }
                    Err(format!("rows read back are not a prefix of the inserted ones: {got:?}"))
                }
            }
        },
    );
}

fn s11(p: &mut Prop) {
    let root = p.scratch();
    p.suite(
        "definition",
        "several tables with random options and columns of every type; names, types, nullability, order and options read back equal, also after reopening, and the arrow schema mirrors them; non-trivial: at least three columns",
        300,
        8000,
        |s, c| {
            let mut sut = Sut::new(&root)?;
            let mut defs = vec![];
            for t in 0..s.us(1, 3) {
                let compact = s.bool();
                let (mut o, mut m) = table_def(s, compact);
                o.is_replacing = s.chance(1, 4);
                for _ in 0..s.us(0, 6) {
                    let mut f = m.new_field(s);
                    f.nullable = s.bool();
                    m.fields.push(f);
                }
                let name = format!("t{t}{}", ["", "_x", ".y"][s.us(0, 2)]);
                c.note(format!("{name} {o:?} {:?}", m.fields));
                c.nontrivial(m.fields.len() >= 3);
                sut.db().create_table(name.clone(), o.clone()).map_err(|e| e.to_string())?;
                for f in &m.fields {
                    sut.db().add_field(&name, &f.name, f.ty.clone(), f.nullable).map_err(|e| e.to_string())?;
                }
                defs.push((name, o, m));
            }
            for round in 0..2 {
                for (name, o, m) in &defs {
                    let sch = sut.db().schema(name).map_err(|e| format!("round {round}: {e}"))?;
                    let got: Vec<_> = sch.fields.iter().map(|f| (f.name.clone(), f.data_type.clone(), f.is_nullable)).collect();
                    let want: Vec<_> = m.fields.iter().map(|f| (f.name.clone(), arrow_ty(&f.ty), f.nullable)).collect();
                    ensure_eq!(got, want, "round {round}: columns of {name}");
                    ensure_eq!(&sut.db().table_options(name).unwrap(), o, "round {round}: options of {name}");
                    let s1 = sut.db().schema1(name).unwrap();
                    let got: Vec<_> = s1.fields().iter().map(|f| (f.name().clone(), f.data_type().clone(), f.is_nullable())).collect();
                    let want: Vec<_> = m.fields.iter().map(|f| (f.name.clone(), parts::arrow1_ty(&f.ty), f.nullable)).collect();
                    ensure_eq!(got, want, "round {round}: arrow schema of {name}");
                }
                sut.reopen()?;
            }
            Ok(())
        },
    );
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut p = Prop::new(&id);
    match id.as_str() {
        "S01" => s01(&mut p),
        "S02" => s02(&mut p),
        "S03" => s03(&mut p),
        "S04" => s04(&mut p),
        "S05" => s05(&mut p),
        "S06" => s06(&mut p),
        "S08" => s08(&mut p),
        "S09" => s09(&mut p),
        "S10" => s10(&mut p),
        "S11" => s11(&mut p),
        "S12" => parts::s12(&mut p),
        "S13" => parts::s13(&mut p),
        _ => panic!("unknown property {id}"),
    }
    p.finish()
}
