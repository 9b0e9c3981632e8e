PRE = r'''
use common::types::DType;
use storage::db::{OptiDBImpl, Options};
use storage::{table, NamedValue, Value, KeyValue};

#[allow(dead_code)]
fn dir() -> std::path::PathBuf {
    let d = std::env::temp_dir().join("db");
    std::fs::create_dir_all(&d).unwrap();
    d
}
#[allow(dead_code)]
fn topts(l0_max_parts: usize) -> table::Options {
    table::Options {
        levels: 7, merge_array_size: 10000, index_cols: 1, l1_max_size_bytes: 1024 * 1024, level_size_multiplier: 10,
        l0_max_parts, max_log_length_bytes: 1024 * 1024, merge_array_page_size: 10000, merge_data_page_size_limit_bytes: Some(1024 * 1024),
        merge_max_l1_part_size_bytes: 1024 * 1024, merge_part_size_multiplier: 10, merge_row_group_values_limit: 1000,
        merge_chunk_size: 1024 * 8 * 8, merge_max_page_size: 1024 * 1024, is_replacing: false,
    }
}
#[allow(dead_code)]
fn row(k: i64, v: i64) -> Vec<NamedValue> {
    vec![NamedValue::new("f1".to_string(), Value::Int64(Some(k))), NamedValue::new("f2".to_string(), Value::Int64(Some(v)))]
}
#[allow(dead_code)]
fn table(db: &OptiDBImpl, o: table::Options) {
    db.create_table("t1".to_string(), o).unwrap();
    db.add_field("t1", "f1", DType::Int64, false).unwrap();
    db.add_field("t1", "f2", DType::Int64, false).unwrap();
}
'''
BUGS = [
 dict(id='s06-largest-key-of-a-part', property='S06', kind='kit:storage',
  edits=[('src/storage/src/db.rs', "&& key <= part.max[..part.max.len()].to_vec()", "&& key < part.max[..part.max.len()].to_vec()")],
  needs='A lookup of the row whose key is the largest of a part that was written out.',
  breaks='get() no longer finds the row with the largest key of a flushed part, although scan() still returns it.',
  demo=PRE + r'''
fn main() {
    let db = OptiDBImpl::open(dir(), Options {}).unwrap();
    table(&db, topts(4));
    for i in 1..=10 {
        db.insert("t1", row(i, i * 10)).unwrap();
    }
    db.flush("t1").unwrap();
    for i in 1..=10 {
        let got = db.get("t1", vec![KeyValue::Int64(i)]).unwrap();
        assert!(got.is_some(), "row {i} is not found");
    }
    std::process::exit(0);
}
'''),

 dict(id='s02-moved-part-number', property='S02', kind='kit:storage',
  edits=[('src/storage/src/compaction.rs', """                    tmp_levels[level_id + 1].part_id += 1;
                    continue;""", """                    continue;""")],
  needs='Two compactions that each move a single part to the next level unmerged (or a move followed by a merge into that level).',
  breaks='The second part put into a level gets the number of the first one, so that two parts name one file and the rows of one of them are gone.',
  demo=PRE + r"""
fn count(db: &OptiDBImpl) -> usize {
    futures::executor::block_on(async {
        use futures::StreamExt;
        let mut s = db.scan("t1", vec![0, 1]).unwrap();
        let mut n = 0;
        while let Some(c) = s.next().await {
            n += c.unwrap().arrays()[0].len();
        }
        n
    })
}
fn main() {
    let db = OptiDBImpl::open(dir(), Options {}).unwrap();
    table(&db, topts(0));
    for i in 0..4 {
        db.insert("t1", row(i * 100, i)).unwrap();
        db.insert("t1", row(i * 100 + 1, i)).unwrap();
        db.flush("t1").unwrap();
        db.compact();
        std::thread::sleep(std::time::Duration::from_millis(600));
    }
    for i in 0..4 {
        let got = db.get("t1", vec![KeyValue::Int64(i * 100)]).unwrap();
        assert!(got.is_some(), "row {} is not found", i * 100);
    }
    assert_eq!(count(&db), 8);
    println!("ok");
    std::process::exit(0);
}
"""),
 dict(id='s12-end-of-the-merge-queue', property='S12', kind='kit:storage',
  edits=[('src/storage/src/parquet/arrow_merger.rs', """    for row in iter {
        if row.min_values <= min_values {""", """    for row in iter.take(1) {
        if row.min_values <= min_values {""")],
  needs='Four or more parts whose key ranges overlap in a chain: the third reaches further than the first two, and the fourth begins within that reach.',
  breaks='Merging takes the end of the first two chunks only, so the fourth part is put out after rows with larger keys: the merged rows are not sorted any more.',
  demo=PRE + r"""
fn keys(db: &OptiDBImpl) -> Vec<i64> {
    futures::executor::block_on(async {
        use futures::StreamExt;
        let mut s = db.scan("t1", vec![0]).unwrap();
        let mut out = vec![];
        while let Some(c) = s.next().await {
            let c = c.unwrap();
            let a = c.arrays()[0].as_any().downcast_ref::<arrow2::array::Int64Array>().unwrap();
            out.extend(a.values_iter().copied());
        }
        out
    })
}
fn main() {
    let db = OptiDBImpl::open(dir(), Options {}).unwrap();
    table(&db, topts(2));
    for (a, b) in [(1, 10), (5, 15), (12, 40), (30, 50)] {
        for k in a..=b {
            db.insert("t1", row(k, a)).unwrap();
        }
        db.flush("t1").unwrap();
    }
    let check = |when: &str| {
        let k = keys(&db);
        assert_eq!(k.len(), 71, "{when}");
        assert!(k.windows(2).all(|w| w[0] <= w[1]), "{when}: not in order: {k:?}");
    };
    check("before");
    db.compact();
    std::thread::sleep(std::time::Duration::from_millis(800));
    check("after");
    println!("ok");
    std::process::exit(0);
}
"""),
]
