//! S12: merging sorted part files; S13: conversion of columns between the two arrow libraries.
use std::fs::File;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use arrow2::array::{Array, BooleanArray, ListArray, MutableArray, MutableBooleanArray, MutableListArray, MutablePrimitiveArray, MutableUtf8Array, PrimitiveArray, TryExtend, Utf8Array};
use arrow2::chunk::Chunk;
use arrow2::datatypes::{DataType, Field as AField};
use arrow2::types::NativeType;
use common::types::DType;
use proputil::*;
use storage::parquet::arrow_merger::{self, MergingIterator};
use storage::parquet::parquet_merger::{merge, Options};
use storage::parquet::ParquetValue;
use storage::test_util::{create_parquet_from_chunk, create_parquet_from_chunks, read_parquet};

use crate::model::*;

/// A column type: a scalar of the table types or a list of one.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    S(DType),
    L(DType),
}
impl T {
    fn arrow(&self) -> DataType {
        match self {
            T::S(t) => arrow_ty(t),
            T::L(t) => DataType::List(Box::new(AField::new("item", arrow_ty(t), true))),
        }
    }
    fn cell(&self, s: &mut Src) -> Cell {
        match self {
            T::S(t) => cell(s, t),
            T::L(t) => {
                if s.chance(1, 6) {
                    return Cell::Null;
                }
                let n = s.below(5);
                Cell::L(
                    (0..n)
                        .map(|_| loop {
                            let v = cell(s, t);
                            if v != Cell::Null || s.chance(1, 2) {
                                return v;
                            }
                        })
                        .collect(),
                )
            }
        }
    }
}
fn int(c: &Cell) -> Option<i128> {
    match c {
        Cell::I(v) => Some(*v),
        _ => None,
    }
}
pub fn array(cs: &[Cell], t: &T) -> Box<dyn Array> {
    fn prim<N: NativeType + TryFrom<i128>>(cs: &[Cell], dt: DataType) -> Box<dyn Array> {
        PrimitiveArray::<N>::from(cs.iter().map(|c| int(c).map(|v| N::try_from(v).ok().unwrap())).collect::<Vec<_>>()).to(dt).boxed()
    }
    fn list<N: NativeType + TryFrom<i128>>(cs: &[Cell], inner: DataType, dt: DataType) -> Box<dyn Array> {
        let mut a = MutableListArray::<i32, MutablePrimitiveArray<N>>::new_from(MutablePrimitiveArray::<N>::new().to(inner), dt, 0);
        a.try_extend(cs.iter().map(|c| match c {
            Cell::L(v) => Some(v.iter().map(|x| int(x).map(|x| N::try_from(x).ok().unwrap())).collect::<Vec<_>>()),
            _ => None,
        }))
        .unwrap();
        a.as_box()
    }
    fn b(c: &Cell) -> Option<bool> {
        match c {
            Cell::B(v) => Some(*v),
            _ => None,
        }
    }
    fn st(c: &Cell) -> Option<String> {
        match c {
            Cell::S(v) => Some(v.clone()),
            _ => None,
        }
    }
    let dt = t.arrow();
    match t {
        T::S(d) => match d {
            DType::Int8 => prim::<i8>(cs, dt),
            DType::Int16 => prim::<i16>(cs, dt),
            DType::Int32 => prim::<i32>(cs, dt),
            DType::Int64 | DType::Timestamp => prim::<i64>(cs, dt),
            DType::Decimal => prim::<i128>(cs, dt),
            DType::Boolean => BooleanArray::from(cs.iter().map(b).collect::<Vec<_>>()).boxed(),
            _ => Utf8Array::<i32>::from(cs.iter().map(st).collect::<Vec<_>>()).boxed(),
        },
        T::L(d) => match d {
            DType::Int8 => list::<i8>(cs, arrow_ty(d), dt),
            DType::Int16 => list::<i16>(cs, arrow_ty(d), dt),
            DType::Int32 => list::<i32>(cs, arrow_ty(d), dt),
            DType::Int64 | DType::Timestamp => list::<i64>(cs, arrow_ty(d), dt),
            DType::Decimal => list::<i128>(cs, arrow_ty(d), dt),
            DType::Boolean => {
                let mut a = MutableListArray::<i32, MutableBooleanArray>::new_from(MutableBooleanArray::new(), dt, 0);
                a.try_extend(cs.iter().map(|c| match c {
                    Cell::L(v) => Some(v.iter().map(b).collect::<Vec<_>>()),
                    _ => None,
                }))
                .unwrap();
                a.as_box()
            }
            _ => {
                let mut a = MutableListArray::<i32, MutableUtf8Array<i32>>::new_from(MutableUtf8Array::<i32>::new(), dt, 0);
                a.try_extend(cs.iter().map(|c| match c {
                    Cell::L(v) => Some(v.iter().map(st).collect::<Vec<_>>()),
                    _ => None,
                }))
                .unwrap();
                a.as_box()
            }
        },
    }
}
fn chunk(rs: &[Row], ts: &[T]) -> Chunk<Box<dyn Array>> {
    Chunk::new((0..ts.len()).map(|i| array(&rs.iter().map(|r| r[i].clone()).collect::<Vec<_>>(), &ts[i])).collect())
}
fn tmp_dir(root: &Path) -> PathBuf {
    let d = fresh(root);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn pv(v: &ParquetValue) -> i128 {
    match v {
        ParquetValue::Int32(v) => *v as i128,
        ParquetValue::Int64(v) => *v as i128,
        v => panic!("unexpected key {v:?}"),
    }
}

fn merge_case(s: &mut Src, c: &mut Case, root: &Path, lists: bool) -> R {
    let keys = s.us(1, 2);
    let mut ts: Vec<T> = vec![T::S(DType::Int64)];
    if keys == 2 {
        ts.push(T::S(if s.bool() { DType::Int64 } else { DType::Timestamp }));
    }
    for _ in 0..s.us(0, 4) {
        let d = s.pick(&TYPES).clone();
        ts.push(if lists && s.chance(1, 2) { T::L(d) } else { T::S(d) });
    }
    let fields: Vec<AField> = ts.iter().enumerate().map(|(i, t)| AField::new(format!("c{i}"), t.arrow(), i >= keys)).collect();
    let k = s.us(1, 5);
    let spread = *s.pick(&[3u64, 12, 60, 1000]);
    let dir = tmp_dir(root);
    let mut all: Vec<Row> = vec![];
    let mut readers = vec![];
    let mut spans = vec![];
    for st in 0..k {
        // a stream of an older schema has the leading columns only
        let w = if s.chance(1, 3) { s.us(keys, ts.len()) } else { ts.len() };
        let big = s.chance(1, 4);
        let n = s.us(1, if big { 200 } else { 25 });
        let base = s.below(spread * 3) as i128;
        let mut rs: Vec<Row> = (0..n)
            .map(|_| {
                (0..w)
                    .map(|i| if i < keys { Cell::I(base + s.below(spread) as i128 - spread as i128) } else { ts[i].cell(s) })
                    .collect()
            })
            .collect();
        rs.sort_by(|a, b| a[..keys].cmp(&b[..keys]));
        spans.push((rs[0][0].clone(), rs[n - 1][0].clone()));
        let per = s.us(1, n + 3);
        c.note(format!("stream {st}: {w} columns, {n} rows, {per} rows per row group: {rs:?}"));
        let p = dir.join(format!("in{st}"));
        let mut f = File::create(&p).unwrap();
        let fs = fields[..w].to_vec();
        if s.bool() {
            create_parquet_from_chunk(chunk(&rs, &ts[..w]), fs, &mut f, None, per).map_err(|e| format!("writing the input: {e:#}"))?;
        } else {
            let chs = rs.chunks(per).map(|r| chunk(r, &ts[..w])).collect();
            let lim = *s.pick(&[None, Some(8), Some(40), Some(1000)]);
            create_parquet_from_chunks(chs, fs, &mut f, lim).map_err(|e| format!("writing the input: {e:#}"))?;
        }
        drop(f);
        readers.push(File::open(&p).unwrap());
        for mut r in rs {
            r.resize(ts.len(), Cell::Null);
            all.push(r);
        }
    }
    // columns no stream has don't exist
    let id = s.us(1, 9);
    let o = Options {
        index_cols: keys,
        is_replacing: false,
        data_page_size_limit_bytes: *s.pick(&[None, Some(16), Some(200), Some(1 << 20)]),
        row_group_values_limit: *s.pick(&[1, 3, 17, 1000]),
        array_page_size: *s.pick(&[1, 2, 7, 1000]),
        out_part_id: id,
        merge_max_page_size: 1 << 20,
        max_part_size_bytes: *s.pick(&[None, Some(1), Some(600), Some(3000)]),
    };
    c.note(format!("row_group_values_limit {} array_page_size {} page limit {:?} part limit {:?}", o.row_group_values_limit, o.array_page_size, o.data_page_size_limit_bytes, o.max_part_size_bytes));
    let res = guarded(|| merge(readers, Arc::new(storage::Fs::new()), dir.clone(), id, "t", 1, o).map_err(|e| e.to_string()));
    let files = match res {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return Err(format!("merging failed: {e}")),
        Err(e) => return Err(format!("merging panicked: {e}")),
    };
    let mut got: Vec<Row> = vec![];
    for (i, f) in files.iter().enumerate() {
        ensure_eq!(f.id, id + i, "ids of the result");
        let mut r = File::open(&f.path).map_err(|e| format!("{:?}: {e}", f.path))?;
        ensure_eq!(f.size_bytes, r.metadata().unwrap().len(), "size of part {}", f.id);
        let mut rs: Vec<Row> = read_parquet(&mut r).iter().flat_map(rows).collect();
        for r in &mut rs {
            r.resize(ts.len(), Cell::Null);
        }
        ensure_eq!(f.values, rs.len(), "values of part {}", f.id);
        ensure!(!rs.is_empty(), "part {} is empty", f.id);
        let k0: Vec<i128> = rs.iter().map(|r| int(&r[0]).unwrap()).collect();
        ensure_eq!(pv(&f.min[0]), *k0.iter().min().unwrap(), "smallest key of part {}", f.id);
        ensure_eq!(pv(&f.max[0]), *k0.iter().max().unwrap(), "largest key of part {}", f.id);
        got.extend(rs);
    }
    for w in got.windows(2) {
        ensure!(w[0][..keys] <= w[1][..keys], "rows out of order: {:?} before {:?}", w[0], w[1]);
    }
    all.sort();
    got.sort();
    diff(&got, &all, "after the merge")?;
    // and as a scan merges them, the rows in memory being one more stream
    let mut mem: Vec<Row> = (0..s.us(0, 20))
        .map(|_| (0..ts.len()).map(|i| if i < keys { Cell::I(s.below(spread * 4) as i128 - spread as i128) } else { ts[i].cell(s) }).collect())
        .collect();
    mem.sort_by(|a, b| a[..keys].cmp(&b[..keys]));
    let so = arrow_merger::Options {
        index_cols: keys,
        is_replacing: false,
        array_size: *s.pick(&[10000, 1, 2, 7]),
        chunk_size: *s.pick(&[65536, 1, 2, 5]),
        fields: fields.iter().map(|f| f.name.clone()).collect(),
    };
    c.note(format!("in memory: {mem:?}, array_size {} chunk_size {}", so.array_size, so.chunk_size));
    let rs = (0..k).map(|i| std::io::BufReader::new(File::open(dir.join(format!("in{i}"))).unwrap())).collect();
    let mc = if mem.is_empty() { None } else { Some(chunk(&mem, &ts)) };
    let got = guarded(|| -> Result<Vec<Row>, String> {
        let it = MergingIterator::new(rs, mc, arrow2::datatypes::Schema::from(fields.clone()), so).map_err(|e| e.to_string())?;
        let mut out = vec![];
        for ch in it {
            out.extend(rows(&ch.map_err(|e| e.to_string())?));
        }
        Ok(out)
    });
    let mut got = match got {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return Err(format!("merging for a scan failed: {e}")),
        Err(e) => return Err(format!("merging for a scan panicked: {e}")),
    };
    for w in got.windows(2) {
        ensure!(w[0][..keys] <= w[1][..keys], "scanned rows out of order: {:?} before {:?}", w[0], w[1]);
    }
    all.extend(mem);
    all.sort();
    got.sort();
    diff(&got, &all, "after the merge for a scan")?;
    let overlap = (0..k).any(|i| (0..i).any(|j| spans[i].0 <= spans[j].1 && spans[j].0 <= spans[i].1));
    if overlap {
        c.label("overlapping streams");
        c.nontrivial(true);
    }
    if files.len() > 1 {
        c.label("several parts");
    }
    std::fs::remove_dir_all(&dir).ok();
    Ok(())
}

pub fn s12(p: &mut Prop) {
    let root = p.scratch();
    p.suite("scalars", "streams whose key ranges overlap", 4000, 40_000, |s, c| merge_case(s, c, &root, false));
    p.suite("lists", "streams whose key ranges overlap", 3000, 30_000, |s, c| merge_case(s, c, &root, true));
}

pub fn arrow1_ty(t: &DType) -> arrow_schema::DataType {
    use arrow_schema::DataType as D;
    match t {
        DType::String => D::Utf8,
        DType::Int8 => D::Int8,
        DType::Int16 => D::Int16,
        DType::Int32 => D::Int32,
        DType::Int64 => D::Int64,
        DType::Boolean => D::Boolean,
        DType::Timestamp => D::Timestamp(arrow_schema::TimeUnit::Millisecond, None),
        DType::Decimal => D::Decimal128(common::DECIMAL_PRECISION, common::DECIMAL_SCALE),
        t => panic!("unexpected type {t:?}"),
    }
}
fn cells1(a: &dyn arrow_array::Array) -> Vec<Cell> {
    use arrow_array::types::*;
    use arrow_array::*;
    use arrow_schema::DataType as D;
    macro_rules! prim {
        ($t:ty) => {
            a.as_any()
                .downcast_ref::<PrimitiveArray<$t>>()
                .unwrap()
                .iter()
                .map(|v| v.map(|v| Cell::I(v as i128)).unwrap_or(Cell::Null))
                .collect()
        };
    }
    match a.data_type() {
        D::Int8 => prim!(Int8Type),
        D::Int16 => prim!(Int16Type),
        D::Int32 => prim!(Int32Type),
        D::Int64 => prim!(Int64Type),
        D::Timestamp(arrow_schema::TimeUnit::Millisecond, None) => prim!(TimestampMillisecondType),
        D::Decimal128(_, _) => prim!(Decimal128Type),
        D::Boolean => a.as_any().downcast_ref::<BooleanArray>().unwrap().iter().map(|v| v.map(Cell::B).unwrap_or(Cell::Null)).collect(),
        D::Utf8 => a.as_any().downcast_ref::<StringArray>().unwrap().iter().map(|v| v.map(|v| Cell::S(v.to_string())).unwrap_or(Cell::Null)).collect(),
        D::List(_) => a.as_any().downcast_ref::<ListArray>().unwrap().iter().map(|v| v.map(|v| Cell::L(cells1(v.as_ref()))).unwrap_or(Cell::Null)).collect(),
        t => panic!("unexpected type {t:?}"),
    }
}

pub fn s13(p: &mut Prop) {
    use storage::arrow_conversion as ac;
    p.suite("to-arrow1", "a sliced column or one with nulls", 3000, 100_000, |s, c| {
        let d = s.pick(&TYPES).clone();
        let t = if s.chance(1, 3) { T::L(d) } else { T::S(d) };
        let n = s.us(0, 40);
        let cs: Vec<Cell> = (0..n).map(|_| t.cell(s)).collect();
        c.note(format!("{t:?} {cs:?}"));
        let mut a = array(&cs, &t);
        let mut want = cs.clone();
        let mut sliced = false;
        for _ in 0..s.below(3) {
            let from = s.us(0, want.len());
            let len = s.us(0, want.len() - from);
            c.note(format!("slice {from}+{len}"));
            sliced |= from > 0 || len < want.len();
            a = a.sliced(from, len);
            want = want[from..from + len].to_vec();
        }
        if (sliced || want.contains(&Cell::Null)) && !want.is_empty() {
            c.nontrivial(true);
        }
        let want_ty = match &t {
            T::S(d) => arrow1_ty(d),
            T::L(d) => arrow_schema::DataType::List(Arc::new(arrow_schema::Field::new("item", arrow1_ty(d), true))),
        };
        let got = guarded(|| ac::arrow2_to_arrow1::convert(a.clone()).map_err(|e| e.to_string()))??;
        ensure_eq!(got.data_type().clone(), want_ty.clone(), "type after conversion");
        ensure_eq!(cells1(got.as_ref()), want, "values after conversion");
        let nullable = s.bool() || want.contains(&Cell::Null);
        let f = AField::new("f\u{e9}", t.arrow(), nullable);
        let (got, f1) = guarded(|| ac::arrow2_to_arrow1(a.clone(), f.clone()).map_err(|e| e.to_string()))??;
        ensure_eq!(cells1(got.as_ref()), want, "values after conversion with a field");
        ensure_eq!(f1, arrow_schema::Field::new("f\u{e9}", want_ty.clone(), nullable), "field after conversion");
        // and back, for the types that can
        if matches!(t, T::S(DType::Int64) | T::L(DType::Int64)) {
            let back = guarded(|| ac::arrow1_to_arrow2::convert(got.clone()).map_err(|e| e.to_string()))??;
            ensure_eq!(cells(back.as_ref()), want, "values after converting there and back");
            let n1 = arrow_array::Array::len(&got);
            let from = s.us(0, n1);
            let len = s.us(0, n1 - from);
            let back = guarded(|| ac::arrow1_to_arrow2::convert(arrow_array::Array::slice(&got, from, len)).map_err(|e| e.to_string()))??;
            ensure_eq!(cells(back.as_ref()), want[from..from + len].to_vec(), "values after converting a slice back");
        }
        Ok(())
    });
    p.suite("schemas", "at least two fields", 500, 10_000, |s, c| {
        let n = s.us(0, 6);
        let fs: Vec<(String, T, bool)> = (0..n)
            .map(|_| {
                let d = s.pick(&TYPES).clone();
                (s.string(5), if s.bool() { T::S(d) } else { T::L(d) }, s.bool())
            })
            .collect();
        c.note(format!("{fs:?}"));
        let sc = arrow2::datatypes::Schema::from(fs.iter().map(|(n, t, b)| AField::new(n, t.arrow(), *b)).collect::<Vec<_>>());
        let want: Vec<arrow_schema::Field> = fs
            .iter()
            .map(|(n, t, b)| {
                let ty = match t {
                    T::S(d) => arrow1_ty(d),
                    T::L(d) => arrow_schema::DataType::List(Arc::new(arrow_schema::Field::new("item", arrow1_ty(d), true))),
                };
                arrow_schema::Field::new(n, ty, *b)
            })
            .collect();
        let got = guarded(|| ac::schema2_to_schema1(sc))?;
        let got: Vec<arrow_schema::Field> = got.fields().iter().map(|f| f.as_ref().clone()).collect();
        if n >= 2 {
            c.nontrivial(true);
        }
        ensure_eq!(got, want, "converted schema");
        Ok(())
    });
    let _ = ListArray::<i32>::default_datatype(DataType::Int64);
}
