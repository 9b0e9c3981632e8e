//! The reference model of a table and the wrapper that drives the real database.
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

use arrow2::array::*;
use arrow2::chunk::Chunk;
use arrow2::datatypes::DataType;
use common::types::DType;
use proputil::*;
use storage::db::{OptiDBImpl, Options};
use storage::{table, NamedValue, Value};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cell {
    Null,
    I(i128),
    B(bool),
    S(String),
    L(Vec<Cell>),
}
pub type Row = Vec<Cell>;

pub const TYPES: [DType; 8] = [
    DType::Int64,
    DType::String,
    DType::Int8,
    DType::Int16,
    DType::Int32,
    DType::Decimal,
    DType::Boolean,
    DType::Timestamp,
];

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: DType,
    pub nullable: bool,
}

pub fn cell(s: &mut Src, t: &DType) -> Cell {
    if s.chance(1, 5) {
        return Cell::Null;
    }
    fn i(s: &mut Src, lo: i128, hi: i128) -> Cell {
        Cell::I(match s.below(6) {
            0 => lo,
            1 => hi,
            _ => s.int().max(-100_000_000_000_000).min(100_000_000_000_000) as i128,
        }
        .clamp(lo, hi))
    }
    match t {
        DType::Int8 => i(s, i8::MIN as i128, i8::MAX as i128),
        DType::Int16 => i(s, i16::MIN as i128, i16::MAX as i128),
        DType::Int32 => i(s, i32::MIN as i128, i32::MAX as i128),
        DType::Int64 | DType::Timestamp => i(s, i64::MIN as i128, i64::MAX as i128),
        DType::Decimal => i(s, -(10i128.pow(27)), 10i128.pow(27)),
        DType::Boolean => Cell::B(s.bool()),
        _ => Cell::S(match s.below(4) {
            0 => String::new(),
            1 => "\u{0}é漢🦀".to_string(),
            _ => s.string(12),
        }),
    }
}

pub fn value(c: &Cell, t: &DType) -> Value {
    match (c, t) {
        (Cell::Null, DType::Int8) => Value::Int8(None),
        (Cell::Null, DType::Int16) => Value::Int16(None),
        (Cell::Null, DType::Int32) => Value::Int32(None),
        (Cell::Null, DType::Int64) => Value::Int64(None),
        (Cell::Null, DType::Timestamp) => Value::Timestamp(None),
        (Cell::Null, DType::Decimal) => Value::Decimal(None),
        (Cell::Null, DType::Boolean) => Value::Boolean(None),
        (Cell::Null, _) => Value::String(None),
        (Cell::I(v), DType::Int8) => Value::Int8(Some(*v as i8)),
        (Cell::I(v), DType::Int16) => Value::Int16(Some(*v as i16)),
        (Cell::I(v), DType::Int32) => Value::Int32(Some(*v as i32)),
        (Cell::I(v), DType::Int64) => Value::Int64(Some(*v as i64)),
        (Cell::I(v), DType::Timestamp) => Value::Timestamp(Some(*v as i64)),
        (Cell::I(v), DType::Decimal) => Value::Decimal(Some(*v)),
        (Cell::B(v), DType::Boolean) => Value::Boolean(Some(*v)),
        (Cell::S(v), DType::String) => Value::String(Some(v.clone())),
        x => unreachable!("{x:?}"),
    }
}

pub fn cell_of_value(v: &Value) -> Cell {
    fn i<T: Into<i128> + Copy>(v: &Option<T>) -> Cell {
        v.map(|v| Cell::I(v.into())).unwrap_or(Cell::Null)
    }
    match v {
        Value::Null => Cell::Null,
        Value::Int8(v) => i(v),
        Value::Int16(v) => i(v),
        Value::Int32(v) => i(v),
        Value::Int64(v) | Value::Timestamp(v) => i(v),
        Value::Decimal(v) => i(v),
        Value::Boolean(v) => v.map(Cell::B).unwrap_or(Cell::Null),
        Value::String(v) => v.clone().map(Cell::S).unwrap_or(Cell::Null),
        x => unreachable!("{x:?}"),
    }
}

pub fn arrow_ty(t: &DType) -> DataType {
    t.clone().try_into().unwrap()
}

pub fn cells(a: &dyn Array) -> Vec<Cell> {
    macro_rules! prim {
        ($t:ty) => {
            a.as_any()
                .downcast_ref::<PrimitiveArray<$t>>()
                .unwrap()
                .iter()
                .map(|v| v.map(|v| Cell::I(*v as i128)).unwrap_or(Cell::Null))
                .collect()
        };
    }
    match a.data_type() {
        DataType::Int8 => prim!(i8),
        DataType::Int16 => prim!(i16),
        DataType::Int32 => prim!(i32),
        DataType::Int64 | DataType::Timestamp(_, _) => prim!(i64),
        DataType::Decimal(_, _) => prim!(i128),
        DataType::Boolean => a
            .as_any()
            .downcast_ref::<BooleanArray>()
            .unwrap()
            .iter()
            .map(|v| v.map(Cell::B).unwrap_or(Cell::Null))
            .collect(),
        DataType::Utf8 => a
            .as_any()
            .downcast_ref::<Utf8Array<i32>>()
            .unwrap()
            .iter()
            .map(|v| v.map(|v| Cell::S(v.to_string())).unwrap_or(Cell::Null))
            .collect(),
        DataType::List(_) => a
            .as_any()
            .downcast_ref::<ListArray<i32>>()
            .unwrap()
            .iter()
            .map(|v| v.map(|v| Cell::L(cells(v.as_ref()))).unwrap_or(Cell::Null))
            .collect(),
        t => panic!("unexpected column type {t:?}"),
    }
}

pub fn rows(c: &Chunk<Box<dyn Array>>) -> Vec<Row> {
    let cols: Vec<Vec<Cell>> = c.arrays().iter().map(|a| cells(a.as_ref())).collect();
    (0..c.len()).map(|i| cols.iter().map(|c| c[i].clone()).collect()).collect()
}

#[derive(Clone, Debug)]
pub struct Model {
    pub index_cols: usize,
    pub fields: Vec<Field>,
    pub rows: Vec<Row>,
}

impl Model {
    /// The rows a scan with this projection must return (as a multiset).
    pub fn expect(&self, proj: &[usize]) -> Vec<Row> {
        let mut r: Vec<Row> = self
            .rows
            .iter()
            .map(|r| {
                (0..self.fields.len())
                    .filter(|i| proj.contains(i))
                    .map(|i| r.get(i).cloned().unwrap_or(Cell::Null))
                    .collect()
            })
            .collect();
        r.sort();
        r
    }
    pub fn all(&self) -> Vec<usize> {
        (0..self.fields.len()).collect()
    }
    pub fn new_field(&self, s: &mut Src) -> Field {
        let n = self.fields.len();
        if n < self.index_cols {
            let ty = if n == 1 && s.bool() { DType::Timestamp } else { DType::Int64 };
            return Field { name: format!("k{n}"), ty, nullable: s.chance(1, 4) };
        }
        Field { name: format!("f{n}_{}", s.string(3)), ty: s.pick(&TYPES).clone(), nullable: true }
    }
    pub fn new_row(&self, s: &mut Src, uniq: bool) -> Row {
        let mut r: Row = vec![];
        for (i, f) in self.fields.iter().enumerate() {
            r.push(if i < self.index_cols {
                Cell::I(match s.weighted(&[6, 2, 1]) {
                    0 => s.range(0, 6) as i128,
                    1 => s.range(-1000, 1000) as i128,
                    _ => *s.pick(&[i64::MIN, i64::MAX, -1, 1 << 40]) as i128,
                })
            } else {
                cell(s, &f.ty)
            });
        }
        if uniq {
            // a distinct last key
            if let Cell::I(v) = &mut r[self.index_cols - 1] {
                *v = (*v).clamp(-1000, 1000) * 1000 + self.rows.len() as i128;
            }
        }
        r
    }
    /// The call that inserts the row: keys first, other columns in any order, nulls given or left out.
    pub fn named(&self, s: &mut Src, r: &Row) -> Vec<NamedValue> {
        let mut rest = vec![];
        let mut out = vec![];
        for (i, (c, f)) in r.iter().zip(&self.fields).enumerate() {
            let nv = NamedValue::new(f.name.clone(), value(c, &f.ty));
            if i < self.index_cols {
                out.push(nv);
            } else if *c != Cell::Null || s.bool() {
                rest.push(nv);
            }
        }
        s.shuffle(&mut rest);
        out.extend(rest);
        out
    }
}

pub fn options(s: &mut Src, index_cols: usize, compact: bool) -> table::Options {
    let mut o = table::Options::test(false);
    o.index_cols = index_cols;
    o.levels = s.us(3, 6);
    o.l0_max_parts = if compact { s.us(0, 3) } else { 1_000_000 };
    o.max_log_length_bytes = *s.pick(&[1 << 30, 1, 100, 400, 2000]);
    if compact {
        o.l1_max_size_bytes = *s.pick(&[1 << 20, 100, 1000, 5000]);
        o.level_size_multiplier = s.us(1, 4);
        o.merge_max_l1_part_size_bytes = *s.pick(&[1 << 20, 1, 500, 3000]);
        o.merge_part_size_multiplier = s.us(1, 3);
        o.merge_row_group_values_limit = *s.pick(&[1000, 1, 3, 10]);
        o.merge_array_page_size = *s.pick(&[1000, 1, 3, 10]);
        o.merge_data_page_size_limit_bytes = *s.pick(&[Some(1 << 20), None, Some(100)]);
    }
    o.merge_array_size = *s.pick(&[10000, 1, 2, 7]);
    o.merge_chunk_size = *s.pick(&[65536, 1, 2, 5]);
    o
}

static N: AtomicUsize = AtomicUsize::new(0);

pub fn fresh(root: &Path) -> PathBuf {
    root.join(format!("d{}", N.fetch_add(1, Ordering::Relaxed)))
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    if let Ok(d) = std::fs::read_dir(from) {
        for e in d.flatten() {
            let p = e.path();
            let t = to.join(e.file_name());
            if p.is_dir() {
                copy_dir(&p, &t);
            } else {
                // a garbage-collected file may vanish meanwhile
                let _ = std::fs::copy(&p, &t);
            }
        }
    }
}

/// A real database in a private directory.
pub struct Sut {
    root: PathBuf,
    pub path: PathBuf,
    db: Option<OptiDBImpl>,
}
pub const T: &str = "events";

impl Sut {
    pub fn open_at(root: &Path, path: PathBuf) -> Result<Sut, String> {
        let db = OptiDBImpl::open(path.clone(), Options {}).map_err(|e| format!("open: {e}"))?;
        Ok(Sut { root: root.to_path_buf(), path, db: Some(db) })
    }
    pub fn new(root: &Path) -> Result<Sut, String> {
        let p = fresh(root);
        std::fs::create_dir_all(&p).unwrap();
        Sut::open_at(root, p)
    }
    pub fn db(&self) -> &OptiDBImpl {
        self.db.as_ref().unwrap()
    }
    /// Close and open again. The files move to another directory, so that the background threads
    /// of the closed instance cannot touch them.
    pub fn reopen(&mut self) -> R {
        drop(self.db.take());
        let to = fresh(&self.root);
        copy_dir(&self.path, &to);
        let _ = std::fs::remove_dir_all(&self.path);
        self.path = to;
        self.db = Some(OptiDBImpl::open(self.path.clone(), Options {}).map_err(|e| format!("reopen: {e}"))?);
        Ok(())
    }
    pub fn close(mut self) -> PathBuf {
        drop(self.db.take());
        let p = self.path.clone();
        self.path = PathBuf::new();
        p
    }
    pub fn create(&self, o: table::Options, m: &Model) -> R {
        self.db().create_table(T.into(), o).map_err(|e| format!("create_table: {e}"))?;
        for f in &m.fields {
            self.add_field(f)?;
        }
        Ok(())
    }
    pub fn add_field(&self, f: &Field) -> R {
        self.db().add_field(T, &f.name, f.ty.clone(), f.nullable).map_err(|e| format!("add_field: {e}"))
    }
    pub fn insert(&self, m: &Model, s: &mut Src, r: &Row) -> R {
        self.db().insert(T, m.named(s, r)).map_err(|e| format!("insert of {r:?}: {e}"))
    }
    pub fn flush(&self) -> R {
        self.db().flush(T).map_err(|e| format!("flush: {e}"))
    }
    pub fn scan(&self, proj: &[usize]) -> Result<Vec<Row>, String> {
        scan(self.db(), proj)
    }
    /// Scan and compare with the model: exactly its rows, in key order, with the columns' types.
    pub fn check(&self, m: &Model, proj: &[usize], when: &str) -> R {
        let got = self.scan(proj).map_err(|e| format!("{when}: {e}"))?;
        compare(m, proj, got, when)
    }
    pub fn parts(&self) -> Vec<PathBuf> {
        self.db().parts_path(T).unwrap().into_iter().map(PathBuf::from).collect()
    }
    pub fn level0(&self) -> usize {
        self.parts().iter().filter(|p| p.to_string_lossy().contains("/levels/0/")).count()
    }
    /// Files on disk below the table's directory: (part files, logs).
    pub fn files(&self) -> (HashSet<PathBuf>, Vec<PathBuf>) {
        let t = self.path.join("tables").join(T);
        let mut parts = HashSet::new();
        let mut logs = vec![];
        if let Ok(d) = std::fs::read_dir(&t) {
            for e in d.flatten() {
                if e.path().extension().is_some_and(|x| x == "log") {
                    logs.push(e.path());
                }
            }
        }
        if let Ok(d) = std::fs::read_dir(t.join("levels")) {
            for l in d.flatten() {
                if let Ok(d) = std::fs::read_dir(l.path()) {
                    parts.extend(d.flatten().map(|e| e.path()));
                }
            }
        }
        (parts, logs)
    }
}
impl Drop for Sut {
    fn drop(&mut self) {
        drop(self.db.take());
        if self.path.as_os_str().len() > 0 {
            let _ = std::fs::remove_dir_all(&self.path);
        }
    }
}

pub fn scan(db: &OptiDBImpl, proj: &[usize]) -> Result<Vec<Row>, String> {
    let st = db.scan(T, proj.to_vec()).map_err(|e| format!("scan: {e}"))?;
    let schema = db.schema(T).map_err(|e| format!("schema: {e}"))?;
    let want: Vec<DataType> =
        schema.fields.iter().enumerate().filter(|(i, _)| proj.contains(i)).map(|(_, f)| f.data_type.clone()).collect();
    drain(st, Some(&want))
}
pub fn drain(st: storage::db::ScanStream, want: Option<&[DataType]>) -> Result<Vec<Row>, String> {
    let mut out = vec![];
    for c in futures::executor::block_on_stream(st) {
        let c = c.map_err(|e| format!("scan: {e}"))?;
        if let Some(want) = want {
            let got: Vec<DataType> = c.arrays().iter().map(|a| a.data_type().clone()).collect();
            ensure_eq!(got, want, "column types of a scanned chunk");
        }
        out.extend(rows(&c));
    }
    Ok(out)
}

pub fn compare(m: &Model, proj: &[usize], mut got: Vec<Row>, when: &str) -> R {
    for w in got.windows(2) {
        ensure!(
            w[0][..m.index_cols] <= w[1][..m.index_cols],
            "{when}: rows are not in key order: {:?} before {:?}",
            w[0],
            w[1]
        );
    }
    got.sort();
    let want = m.expect(proj);
    diff(&got, &want, when)
}

pub fn diff(got: &[Row], want: &[Row], when: &str) -> R {
    if got != want {
        let mut g = std::collections::BTreeMap::<&Row, i64>::new();
        got.iter().for_each(|r| *g.entry(r).or_default() += 1);
        want.iter().for_each(|r| *g.entry(r).or_default() -= 1);
        let missing: Vec<_> = g.iter().filter(|x| *x.1 < 0).take(4).collect();
        let extra: Vec<_> = g.iter().filter(|x| *x.1 > 0).take(4).collect();
        return Err(format!(
            "{when}: {} rows instead of {}; missing (row, count) {missing:?}; unexpected {extra:?}",
            got.len(),
            want.len()
        ));
    }
    Ok(())
}

/// A random table definition and an empty model for it.
pub fn table_def(s: &mut Src, compact: bool) -> (table::Options, Model) {
    let index_cols = s.us(1, 2);
    let o = options(s, index_cols, compact);
    let mut m = Model { index_cols, fields: vec![], rows: vec![] };
    for _ in 0..index_cols + s.us(0, 4) {
        let f = m.new_field(s);
        m.fields.push(f);
    }
    (o, m)
}
