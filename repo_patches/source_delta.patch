From e03faacfbe855937f07a9235472a12693620ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 001/130] fix: keep the unit of Time32Millisecond values when
 storing query definitions

---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0


From 3fa9e27228ded6c18def630a0a05b47bd5b8f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 002/130] fix: time_columns of a reversed range is empty
 instead of never ending

---
 src/common/src/query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/src/query.rs b/src/common/src/query.rs
index 0a24735..e8569f6 100644
--- a/src/common/src/query.rs
+++ b/src/common/src/query.rs
@@ -468,6 +468,10 @@ pub fn time_columns(
 ) -> Vec<String> {
     let from = date_trunc(granularity, from).unwrap();
     let to = date_trunc(granularity, to).unwrap();
+    if from > to {
+        // a date rule whose end precedes its start never ends
+        return vec![];
+    }
     let rule = match granularity {
         TimeIntervalUnit::Hour => DateRule::hourly(from),
         TimeIntervalUnit::Day => DateRule::daily(from),
-- 
2.43.0


From 89b18aa9f56d3fab0ec4212b07d07600ac42a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:50 +0000
Subject: [PATCH 003/130] fix: pad recovered log records with nulls for columns
 added later

---
 src/storage/src/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..2dcb5ac 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -268,7 +268,9 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     match op {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
-            let vv = [kv, v].concat();
+            // columns may have been added after the operation was logged
+            let mut vv = [kv, v].concat();
+            vv.resize(memtable.cols_len(), Value::Null);
             for (idx, val) in vv.into_iter().enumerate() {
                 memtable.push_value(idx, val);
             }
-- 
2.43.0


From c865a236b8b3104e1be134875f10ac79d72fc17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:45 +0000
Subject: [PATCH 004/130] fix: recover a table from the log its metadata names

---
 src/storage/src/db.rs | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 2dcb5ac..a5dd5a1 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -323,28 +321,12 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
-
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
+    // other logs may survive a crash: rows of the older ones are already in a part, newer ones are
+    // not in use yet
+    let log_path = path.join(log_name(md.log_id));
+    if !log_path.exists() {
         return Err(StoreError::Internal("no logs found".to_string()));
     }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
     // todo make a buffered read. Currently something odd happens with reading the length of the record
     let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
 
@@ -533,8 +515,14 @@ fn flush_log_(
 
     fs.close(&ppath)?;
 
-    // create new log
+    // create new log before the metadata that refers to it
     trace!("creating new log file {:?}", log_name(metadata.log_id));
+    let log = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .read(true)
+        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
 
     let mut manifest = OpenOptions::new()
         .write(true)
@@ -548,11 +536,6 @@ fn flush_log_(
         log_name(metadata.log_id - 1)
     );
     fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
-    let log = OpenOptions::new()
-        .create_new(true)
-        .write(true)
-        .read(true)
-        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
     histogram!(METRIC_STORE_FLUSH_TIME_SECONDS,"table"=>metadata.table_name.clone())
         .record(start_time.elapsed());
     counter!(METRIC_STORE_FLUSHES_TOTAL,"table"=>metadata.table_name.clone()).increment(1);
-- 
2.43.0


From a263c9c1a5f0e8fe7988918ee24cc37fd8aaaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 005/130] fix: flush over a part file left by a crash

---
 src/storage/src/db.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index a5dd5a1..0b64aa1 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -459,7 +459,12 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
         metadata.levels[0].part_id,
     );
     // !@#trace!("creating part file {:?}", p);
-    let w = OpenOptions::new().create_new(true).write(true).open(path)?;
+    // a crash may have left an unregistered part with the same id
+    let w = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .open(path)?;
     let mut writer =
         parquet::write::FileWriter::try_new(BufWriter::new(w), metadata.schema.clone(), popts)?;
     // Write the part
-- 
2.43.0


From 20ef5206498a04bc20d1a11fa6e768f31900ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 006/130] fix: drop an incomplete last log record instead of
 failing to open

---
 src/storage/src/db.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 0b64aa1..65c0744 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -6,6 +6,7 @@ use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
 use std::io::Seek;
+use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -255,7 +256,13 @@ fn log_op(op: LogOp, log: &mut File) -> Result<usize> {
     let vv = (data.len() as u64).to_le_bytes();
     a.push(vv.as_slice());
     a.push(&data);
-    log.write_all(a.concat().as_slice())?;
+    let pos = log.stream_position()?;
+    if let Err(err) = log.write_all(a.concat().as_slice()) {
+        // don't leave a part of the record before the records to come
+        log.set_len(pos)?;
+        log.seek(SeekFrom::Start(pos))?;
+        return Err(err.into());
+    }
     let logged_size = 8 + 4 + data.len();
     // !@#trace!("logged size: {}", logged_size);
     // log.flush()?;
@@ -335,21 +342,24 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
-    loop {
+    let log_len = log.metadata()?.len();
+    let header_len = (mem::size_of::<u32>() + mem::size_of::<u64>()) as u64;
+    let mut pos = 0;
+    while pos + header_len <= log_len {
         let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
-        if read_bytes == 0 {
-            break;
-        }
+        log.read_exact(&mut crc_b)?;
         let crc32 = u32::from_le_bytes(crc_b);
         // !@#trace!("crc32: {}", crc32);
 
         let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
+        log.read_exact(&mut len_b)?;
         let len = u64::from_le_bytes(len_b);
         // !@#trace!("len: {}", len);
+        if len > log_len - pos - header_len {
+            break;
+        }
         let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
+        log.read_exact(&mut data_b)?;
         // todo recover from this case
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
@@ -361,7 +371,13 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         let op = deserialize::<LogOp>(&data_b)?;
 
         recover_op(op, &mut memtable)?;
+        pos += header_len + len;
+    }
+    // the last record was not written completely, so its insert was never acknowledged
+    if pos < log_len {
+        log.set_len(pos)?;
     }
+    log.seek(SeekFrom::Start(pos))?;
     // !@#trace!("operations recovered: {}", ops);
 
     md.stats.logged_bytes = log_path.metadata().unwrap().len();
-- 
2.43.0


From 02853cb916a5fc376213772669e56d695426f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 007/130] fix: report corrupted metadata length instead of
 allocating it

---
 src/storage/src/db.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 65c0744..518c7dc 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -317,6 +317,12 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let mut len_b = [0u8; mem::size_of::<u64>()];
     _ = mdf.read(&mut len_b)?;
     let len = u64::from_le_bytes(len_b);
+    if len > mdf.metadata()?.len() {
+        return Err(StoreError::Internal(format!(
+            "corrupted metadata. length is: {}",
+            len
+        )));
+    }
     let mut data_b = vec![0u8; len as usize];
     _ = mdf.read(&mut data_b)?;
     let cur_crc32 = hash_crc32(&data_b);
-- 
2.43.0


From cd92e94ffa4032182823d553227b503f6db2678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 008/130] fix: scan memtable and parts as of one moment

---
 src/storage/src/db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 518c7dc..24c34d8 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -638,9 +638,10 @@ impl OptiDBImpl {
         };
 
         drop(tables);
+        // hold the metadata until parts are opened: a flush in between would move the memtable rows
+        // to a part this scan doesn't know of, and a compaction would remove the parts
         let md = tbl.metadata.lock();
         let metadata = md.clone();
-        drop(md);
 
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
@@ -677,6 +678,8 @@ impl OptiDBImpl {
                 rdrs.push(rdr);
             }
         }
+        drop(memtable);
+        drop(md);
         gauge!(METRIC_STORE_SCAN_PARTS, "table"=>tbl_name.to_string()).set(rdrs.len() as f64);
         let iter = if rdrs.is_empty() {
             Box::new(MemChunkIterator::new(maybe_chunk))
-- 
2.43.0


From c7ed578366810cd1f661f0f2ff35bd1d51fd0c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 009/130] fix: log and insert a row under one lock

---
 src/storage/src/db.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 24c34d8..81e7c1c 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -724,9 +724,9 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // hold the metadata for the whole insert: the schema must not change before the row gets into
+        // the memtable, and a flush must not remove the log of a row the memtable doesn't have yet
+        let mut metadata = tbl.metadata.lock();
         for v in values.iter() {
             match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                 None => {
@@ -784,7 +784,6 @@ impl OptiDBImpl {
             log.get_mut(),
         )?;
         drop(log);
-        let mut metadata = tbl.metadata.lock();
         metadata.stats.logged_bytes += logged as u64;
         let mut memtable = tbl.memtable.lock();
         for (idx, val) in pk_values.iter().enumerate() {
-- 
2.43.0


From ba13b55f21f78b107145357c3be43326403732ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 010/130] fix: keep memtable and metadata when a flush fails

---
 src/storage/src/db.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 81e7c1c..ddeef62 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -512,16 +512,10 @@ fn flush_log_(
     path: &Path,
 ) -> Result<File> {
     let start_time = Instant::now();
-    // swap memtable
-    // !@#trace!("swapping memtable");
-
     // write to parquet
     // !@#trace!("writing to parquet");
     // !@#trace!("part id: {}", md.levels[0].part_id);
 
-    let empty_memtable = memtable.create_empty();
-    let memtable = mem::replace(memtable, empty_memtable);
-
     let ppath = part_path(
         path,
         metadata.table_name.as_str(),
@@ -530,39 +524,49 @@ fn flush_log_(
     );
     fs.open(&ppath)?;
 
-    let part = write_level0(metadata, &memtable, path)?;
-    metadata.levels[0].parts.push(part.clone());
+    let part = write_level0(metadata, memtable, path)?;
+    // neither the metadata nor the memtable change unless the whole flush succeeds
+    let mut new_metadata = metadata.clone();
+    new_metadata.levels[0].parts.push(part.clone());
     // increment table id
-    metadata.levels[0].part_id += 1;
-    metadata.stats.written_bytes += part.size_bytes;
+    new_metadata.levels[0].part_id += 1;
+    new_metadata.stats.written_bytes += part.size_bytes;
 
-    metadata.stats.logged_bytes = 0;
+    new_metadata.stats.logged_bytes = 0;
     // increment log id
-    metadata.log_id += 1;
+    new_metadata.log_id += 1;
 
     fs.close(&ppath)?;
 
     // create new log before the metadata that refers to it
-    trace!("creating new log file {:?}", log_name(metadata.log_id));
+    trace!("creating new log file {:?}", log_name(new_metadata.log_id));
     let log = OpenOptions::new()
         .create(true)
         .truncate(true)
         .write(true)
         .read(true)
-        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
+        .open(log_path(path, &metadata.table_name, new_metadata.log_id))?;
 
     let mut manifest = OpenOptions::new()
         .write(true)
         .read(true)
         .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
 
-    write_metadata(&mut manifest, metadata)?;
+    write_metadata(&mut manifest, &mut new_metadata)?;
+    *metadata = new_metadata;
+    // swap memtable
+    // !@#trace!("swapping memtable");
+    *memtable = memtable.create_empty();
 
     trace!(
         "removing previous log file {:?}",
         log_name(metadata.log_id - 1)
     );
-    fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
+    // gc will retry
+    if let Err(err) = fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))
+    {
+        error!("remove failed: {}", err);
+    }
     histogram!(METRIC_STORE_FLUSH_TIME_SECONDS,"table"=>metadata.table_name.clone())
         .record(start_time.elapsed());
     counter!(METRIC_STORE_FLUSHES_TOTAL,"table"=>metadata.table_name.clone()).increment(1);
-- 
2.43.0


From 26795212fb444b29fc954498711fb78b2c7dccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 011/130] fix: merge a part only once in a compaction

---
 src/storage/src/compaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index ff012df..e87f74b 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -228,6 +228,9 @@ pub(crate) fn determine_compaction(
                 to_compact.push(ToCompact::new(level_id, part.id));
             }
         }
+        // a part must be merged only once
+        to_compact.sort_by_key(|tc| tc.part);
+        to_compact.dedup_by_key(|tc| tc.part);
     } else {
         return Ok(None);
     }
-- 
2.43.0


From f18c9b84f2a61634bf739cd1a17350ffdc41b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 012/130] fix: put moved parts in place before the metadata
 refers to them and release merged parts

---
 src/storage/src/compaction.rs             | 26 +++++++++++++++--------
 src/storage/src/lib.rs                    |  9 +++++++-
 src/storage/src/parquet/parquet_merger.rs |  1 +
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index e87f74b..216203f 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -58,6 +58,8 @@ pub struct CompactResult {
     l0_remove: Vec<usize>,
     levels: Vec<Level>,
     fs_ops: Vec<FsOp>,
+    // files of new parts, protected from removal until metadata is written
+    opened: Vec<PathBuf>,
 }
 
 pub struct Compactor {
@@ -157,15 +159,12 @@ impl Compactor {
                             write_metadata(manifest.get_mut(), &mut metadata).unwrap();
                             drop(metadata);
                             // drop because next fs operation is with locking
+                            // new parts are in the metadata now, gc won't remove them
+                            for path in res.opened {
+                                self.fs.close(&path).expect("close failed");
+                            }
                             for op in res.fs_ops {
                                 match op {
-                                    FsOp::Rename(from, to) => {
-                                        trace!("renaming {from:?} to {to:?}");
-                                        // todo handle error
-                                        self.fs.rename(&from, &to).expect("rename failed");
-                                        self.fs.close(&from).expect("close failed");
-                                        self.fs.close(&to).expect("close failed");
-                                    }
                                     FsOp::Delete(path) => {
                                         trace!("deleting {:?}", &path);
                                         self.fs.close(&path).expect("close failed");
@@ -264,6 +263,7 @@ fn compact(
 ) -> Result<Option<CompactResult>> {
     let init_time = Instant::now();
     let mut fs_ops = vec![];
+    let mut opened = vec![];
     let mut l0_rem: Vec<usize> = Vec::new();
     let mut tmp_levels = levels.clone();
     let mut compacted = false;
@@ -297,11 +297,17 @@ fn compact(
                     tmp_levels[level_id].parts.remove(idx);
                     part.id = tmp_levels[level_id + 1].part_id + 1;
 
+                    if level_id == 0 {
+                        l0_rem.push(to_compact[0].part);
+                    }
                     let from = part_path(path, tbl_name, level_id, to_compact[0].part);
                     let to = part_path(path, tbl_name, level_id + 1, part.id);
                     fs.open(&from)?;
                     fs.open(&to)?;
-                    fs_ops.push(FsOp::Rename(from, to));
+                    // the part must be in place before the metadata refers to it
+                    fs.link(&from, &to)?;
+                    opened.push(to);
+                    fs_ops.push(FsOp::Delete(from));
 
                     tmp_levels[level_id + 1].parts.push(part.clone());
                     tmp_levels[level_id + 1].part_id += 1;
@@ -354,7 +360,8 @@ fn compact(
                 counter!(METRIC_STORE_MERGES_TOTAL,"table"=>tbl_name.to_string()).increment(1);
                 histogram!(METRIC_STORE_MERGE_TIME_SECONDS,"table"=>tbl_name.to_string(),"level"=>level_id.to_string()).record(start_time.elapsed());
                 for f in merge_result {
-                    fs.open(&f.path)?;
+                    // opened by merger
+                    opened.push(f.path.clone());
                     let final_part = {
                         Part {
                             id: tmp_levels[level_id + 1].part_id + 1,
@@ -399,6 +406,7 @@ fn compact(
         l0_remove: l0_rem,
         levels: tmp_levels,
         fs_ops,
+        opened,
     }))
 }
 
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e869265..8b86072 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -192,10 +192,17 @@ impl Fs {
     pub fn rename<P: AsRef<Path>>(&self, from: P, to: P) -> Result<()> {
         Ok(fs::rename(from, to)?)
     }
+
+    pub fn link<P: AsRef<Path>>(&self, from: P, to: P) -> Result<()> {
+        // may be left by a crash
+        if to.as_ref().exists() {
+            fs::remove_file(&to)?;
+        }
+        Ok(fs::hard_link(from, to)?)
+    }
 }
 
 #[derive(Debug, Clone)]
 pub(crate) enum FsOp {
-    Rename(PathBuf, PathBuf),
     Delete(PathBuf),
 }
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index f7ab56c..fe6d945 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -1022,6 +1022,7 @@ where R: Read + Seek
             } else {
                 // delete empty file. We can do this safely because we write to temp file and then rename it
                 fs::remove_file(path)?;
+                self.fs.close(path)?;
             }
             break;
         }
-- 
2.43.0


From 78ec962fe16b86179ec147e00c0957336a22bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 013/130] fix: a scan reports read errors instead of ending
 early

---
 src/storage/src/parquet/arrow_merger.rs | 29 +++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index fbcf022..87f8a2b 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -426,9 +426,11 @@ impl Iterator for MergingIterator {
         }
         let mut merge_queue: Vec<ArrowChunk> = vec![];
         if let Some(chunk) = self.sorter.pop() {
-            if let Some(chunk) = self.next_stream_chunk(chunk.stream).ok()? {
+            match self.next_stream_chunk(chunk.stream) {
                 // return Some(Ok(chunk.chunk.clone()));
-                self.sorter.push(chunk);
+                Ok(Some(chunk)) => self.sorter.push(chunk),
+                Ok(None) => {}
+                Err(err) => return Some(Err(err)),
             }
             merge_queue.push(chunk);
         } else {
@@ -444,8 +446,10 @@ impl Iterator for MergingIterator {
             // in case of intersection, take chunk and add it to merge queue
             let next = self.sorter.pop().unwrap();
             // try to take next chunk of stream and add it to sorter
-            if let Some(chunk) = self.next_stream_chunk(next.stream).ok()? {
-                self.sorter.push(chunk);
+            match self.next_stream_chunk(next.stream) {
+                Ok(Some(chunk)) => self.sorter.push(chunk),
+                Ok(None) => {}
+                Err(err) => return Some(Err(err)),
             }
             // push chunk to merge queue
             merge_queue.push(next);
@@ -453,14 +457,15 @@ impl Iterator for MergingIterator {
         // check queue len. Queue len may be 1 if there is no intersection
         if merge_queue.len() > 1 {
             // in case of intersection, merge queue
-            let res = self
-                .merge_queue(
-                    &merge_queue
-                        .iter()
-                        .map(|chunk| &chunk.chunk)
-                        .collect::<Vec<_>>(),
-                )
-                .ok()?;
+            let res = match self.merge_queue(
+                &merge_queue
+                    .iter()
+                    .map(|chunk| &chunk.chunk)
+                    .collect::<Vec<_>>(),
+            ) {
+                Ok(res) => res,
+                Err(err) => return Some(Err(err)),
+            };
             // todo split arrays
             self.merge_result_buffer = VecDeque::from(res);
 
-- 
2.43.0


From 6bca2e9dd2ffbc07dceaeabea2cbb269e364c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 014/130] fix: restoring a backup doesn't start another gc that
 ignores files in use

---
 src/storage/src/db.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index ddeef62..b5c02a7 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -403,9 +403,7 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     })
 }
 
-// #[instrument(level = "trace")]
-fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
-    let path = path.as_ref();
+fn recover_tables(path: &Path) -> Result<Vec<Table>> {
     fs::create_dir_all(path.join("tables"))?;
     let mut tables = vec![];
     let dir = fs::read_dir(path.join("tables"))?;
@@ -416,6 +414,14 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
             f.file_name().to_os_string().into_string().unwrap(),
         )?);
     }
+
+    Ok(tables)
+}
+
+// #[instrument(level = "trace")]
+fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
+    let path = path.as_ref();
+    let tables = recover_tables(path)?;
     // let trigger_compact = if metadata.partitions[0].parts.len() > 0
     //     && metadata.partitions[0].parts.len() > opts.l0_max_parts
     // {
@@ -1515,9 +1521,7 @@ impl OptiDBImpl {
             return Err(StoreError::InvalidBackupMagicNumber);
         }
 
-        let db = recover(path, Options {})?;
-        // todo prevent the start of gc/compaction before tables are copied
-        let from = db.tables.read().clone();
+        let from = recover_tables(&path)?;
         let mut to = self.tables.write();
         *to = from;
         Ok(())
-- 
2.43.0


From 7c78df48dc4d3ebd7bbc064bcdc58cf82d9ea051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 015/130] fix: back up the metadata snapshot whose files are
 protected

---
 src/storage/src/db.rs    | 16 ++++++++++------
 src/storage/src/table.rs |  7 -------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index b5c02a7..cf60276 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1376,10 +1376,11 @@ impl OptiDBImpl {
         let tables = self.tables.read();
         let mut mds = vec![];
         for tbl in tables.iter() {
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.lock().log_id);
-            self.fs.open(&log_path)?;
             // md snapshot here prevents metadata changes during backup
-            let md = tbl.metadata.lock().clone();
+            let md_mx = tbl.metadata.lock();
+            let md = md_mx.clone();
+            let log_path = log_path(&self.path, &tbl.name, md.log_id);
+            self.fs.open(&log_path)?;
             for (lid, lvl) in md.levels.iter().enumerate() {
                 for part in &lvl.parts {
                     let path = part_path(&self.path, &md.table_name, lid, part.id);
@@ -1389,15 +1390,18 @@ impl OptiDBImpl {
             }
             mds.push(md);
         }
-        let tables = tables.clone();
+        drop(tables);
         drop(lock);
         // version
         writer.write_all(VERSION.to_le_bytes().as_slice())?;
 
         // tables
-        let tbls = tables
+        let tbls = mds
             .iter()
-            .map(table::serialize_table)
+            .map(|md| SerializableTable {
+                name: md.table_name.clone(),
+                metadata: md.clone(),
+            })
             .collect::<Vec<_>>();
         let parts_size = tbls
             .iter()
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 21c86c0..11a15b0 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -133,13 +133,6 @@ pub(crate) struct SerializableTable {
     pub(crate) metadata: Metadata,
 }
 
-pub(crate) fn serialize_table(tbl: &Table) -> SerializableTable {
-    SerializableTable {
-        name: tbl.name.clone(),
-        metadata: tbl.metadata.lock().clone(),
-    }
-}
-
 pub(crate) fn serialize_md(md: &Metadata) -> Result<Vec<u8>> {
     let schema = metadata::Schema {
         fields: md
-- 
2.43.0


From fe5171840b11668316a78f78347d5cfa4ba5cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 016/130] fix: gc doesn't remove files of a backup being
 restored

---
 src/storage/src/db.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index cf60276..c0b5eb1 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -159,9 +159,11 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
     }
 }
 
-fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
+fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>, lock: Arc<RwLock<()>>) {
     loop {
         thread::sleep(Duration::from_secs(1));
+        // files of a backup being restored don't belong to the current tables
+        let _g = lock.read();
         let tbl = tables.read().clone();
         for tbl in tbl {
             let md = tbl.metadata.lock();
@@ -441,7 +443,8 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let tables_cloned = tables.clone();
     let fs_cloned = fs.clone();
     let path_cloned = path.to_owned();
-    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned));
+    let lock_cloned = lock.clone();
+    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned, lock_cloned));
     Ok(OptiDBImpl {
         opts,
         tables,
-- 
2.43.0


From 23f4919f00de8b354e8529e07dd3db1b428ca329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 017/130] fix: a crash while creating a table doesn't prevent
 opening

---
 src/storage/src/db.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index c0b5eb1..9a356a3 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -411,6 +411,10 @@ fn recover_tables(path: &Path) -> Result<Vec<Table>> {
     let dir = fs::read_dir(path.join("tables"))?;
     for f in dir {
         let f = f?;
+        // creation of the table was not completed
+        if !f.path().join("metadata").exists() {
+            continue;
+        }
         tables.push(try_recover_table(
             f.path(),
             f.file_name().to_os_string().into_string().unwrap(),
@@ -1301,14 +1305,13 @@ impl OptiDBImpl {
 
     pub fn create_table(&self, table_name: String, opts: table::Options) -> Result<()> {
         let _g = self.global_lock.read();
-        let tbl = self.tables.read();
-        if tbl.iter().any(|t| t.name == table_name) {
+        let mut tables = self.tables.write();
+        if tables.iter().any(|t| t.name == table_name) {
             return Err(StoreError::AlreadyExists(format!(
                 "Table with name {} already exists",
                 table_name
             )));
         }
-        drop(tbl);
         let path = self.path.join("tables").join(table_name.clone());
         fs::create_dir_all(&path)?;
         for lid in 0..opts.levels {
@@ -1326,17 +1329,22 @@ impl OptiDBImpl {
         };
 
         let memtable = Memtable::new();
+        // a crash may have left a table without metadata
         let log = OpenOptions::new()
-            .create_new(true)
+            .create(true)
+            .truncate(true)
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
         let mut mdf = OpenOptions::new()
-            .create_new(true)
+            .create(true)
+            .truncate(true)
             .write(true)
             .read(true)
-            .open(path.join("metadata"))?;
+            .open(path.join("metadata.new"))?;
         write_metadata(&mut mdf, &mut metadata)?;
+        // the table exists as soon as it has complete metadata
+        fs::rename(path.join("metadata.new"), path.join("metadata"))?;
         let tbl = Table {
             name: table_name.clone(),
             memtable: Arc::new(Mutex::new(memtable)),
@@ -1346,7 +1354,6 @@ impl OptiDBImpl {
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
 
-        let mut tables = self.tables.write();
         tables.push(tbl);
         Ok(())
     }
-- 
2.43.0


From 5767405339ef4730027e563e599c88d05d603eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 018/130] fix: get reads every column type and every candidate
 part

---
 src/storage/src/db.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 9a356a3..980bd42 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -32,6 +32,7 @@ use arrow2::array::Int32Array;
 use arrow2::array::Int64Array;
 use arrow2::array::Int8Array;
 use arrow2::array::ListArray;
+use arrow2::array::Utf8Array;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Field;
@@ -39,8 +40,6 @@ use arrow2::datatypes::Schema;
 use arrow2::io::parquet;
 use arrow2::io::parquet::read;
 use arrow2::io::parquet::write::transverse;
-use arrow_array::StringArray;
-use arrow_array::TimestampNanosecondArray;
 use bincode::deserialize;
 use bincode::serialize;
 use common::types::DType;
@@ -922,7 +921,7 @@ impl OptiDBImpl {
                     let parquet_md = read::read_metadata(&mut rdr)?;
                     let schema = read::infer_schema(&parquet_md)?;
 
-                    let mut found = None;
+                    let mut found = vec![];
                     'g: for row_group_id in 0..parquet_md.row_groups.len() {
                         #[allow(clippy::needless_range_loop)]
                         for field_id in 0..key.len() {
@@ -953,17 +952,16 @@ impl OptiDBImpl {
                                 unreachable!();
                             }
                         }
-                        found = Some(row_group_id);
-                        break;
+                        found.push(parquet_md.row_groups[row_group_id].clone());
                     }
 
-                    if found.is_none() {
-                        return Ok(None);
+                    if found.is_empty() {
+                        continue;
                     }
 
                     let chunks = read::FileReader::new(
                         rdr,
-                        vec![parquet_md.row_groups[found.unwrap()].clone()],
+                        found,
                         schema.clone(),
                         Some(1024 * 8 * 8), // todo make configurable?
                         None,
@@ -1083,14 +1081,14 @@ impl OptiDBImpl {
                                         DataType::Timestamp(_, _) => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<TimestampNanosecondArray>()
+                                                .downcast_ref::<Int64Array>()
                                                 .unwrap();
                                             vals.push(Value::Timestamp(Some(arr.value(row_id))));
                                         }
                                         DataType::Utf8 => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<StringArray>()
+                                                .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
                                             vals.push(Value::String(Some(
                                                 arr.value(row_id).to_string(),
@@ -1158,7 +1156,7 @@ impl OptiDBImpl {
                                                 DataType::Timestamp(_, _) => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<TimestampNanosecondArray>()
+                                                        .downcast_ref::<Int64Array>()
                                                         .unwrap();
                                                     vals.push(Value::Timestamp(Some(
                                                         arr.value(row_id),
@@ -1167,7 +1165,7 @@ impl OptiDBImpl {
                                                 DataType::Utf8 => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<StringArray>()
+                                                        .downcast_ref::<Utf8Array<i32>>()
                                                         .unwrap();
                                                     vals.push(Value::String(Some(
                                                         arr.value(row_id).to_string(),
@@ -1184,7 +1182,6 @@ impl OptiDBImpl {
                             return Ok(Some(vals));
                         }
                     }
-                    return Ok(None);
                 }
             }
         }
-- 
2.43.0


From 0500d2954dc56bed18099dbf093f7a9829fba764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 019/130] fix: a scan that isn't read to the end releases its
 parts

---
 src/storage/src/db.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 980bd42..6bbbc56 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -593,6 +593,7 @@ pub struct ScanStream {
     md: Metadata,
     table_name: String, // for metrics
     fs: Arc<Fs>,
+    closed: bool,
 }
 
 impl ScanStream {
@@ -610,6 +611,31 @@ impl ScanStream {
             md,
             table_name,
             fs,
+            closed: false,
+        }
+    }
+
+    // let the parts be removed when they are compacted
+    fn close(&mut self) -> Result<()> {
+        if self.closed {
+            return Ok(());
+        }
+        self.closed = true;
+        for (level_id, level) in self.md.levels.iter().enumerate() {
+            for part in &level.parts {
+                let path = part_path(&self.path, &self.table_name, level_id, part.id);
+                self.fs.close(&path)?;
+            }
+        }
+
+        Ok(())
+    }
+}
+
+impl Drop for ScanStream {
+    fn drop(&mut self) {
+        if let Err(err) = self.close() {
+            error!("close failed: {}", err);
         }
     }
 }
@@ -620,12 +646,7 @@ impl Stream for ScanStream {
     fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         match self.iter.next() {
             None => {
-                for (level_id, level) in self.md.levels.iter().enumerate() {
-                    for part in &level.parts {
-                        let path = part_path(&self.path, &self.table_name, level_id, part.id);
-                        self.fs.close(&path)?;
-                    }
-                }
+                self.close()?;
 
                 histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                     .record(self.start_time.elapsed());
-- 
2.43.0


From c80fa829ad17ea6155f96603ef6ebeaff1efb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 020/130] fix: gc and compaction removing the same file doesn't
 stop either

---
 src/storage/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index 8b86072..e1d679b 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -18,6 +18,7 @@ pub mod test_util;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs;
+use std::io;
 use std::path::Path;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -172,7 +173,11 @@ impl Fs {
     }
     pub fn try_remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         if !self.is_opened(&path) {
-            return Ok(fs::remove_file(path)?);
+            match fs::remove_file(path) {
+                // gc and compaction may be removing the same file
+                Err(err) if err.kind() == io::ErrorKind::NotFound => {}
+                res => res?,
+            }
         }
         Ok(())
     }
-- 
2.43.0


From e57b209147e7d19568a082388bbbfd7ab27d8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 021/130] fix: concurrent metadata calls hand out the same id
 or lose an update

---
 src/metadata/src/dictionaries.rs |  7 ++-----
 src/metadata/src/events.rs       | 22 +++++++++++++++++++---
 src/metadata/src/groups.rs       | 10 +++++-----
 src/metadata/src/index.rs        |  8 ++++----
 src/metadata/src/projects.rs     |  2 ++
 src/metadata/src/properties.rs   | 10 +++++++++-
 src/metadata/src/sessions.rs     |  2 +-
 7 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index f78749e..18df486 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -66,11 +66,8 @@ impl Dictionaries {
         dict: &str,
         value: &str,
     ) -> Result<u64> {
-        let res = match tx.get(make_value_key(
-            project_id,
-            tbl_dict(table, dict).as_str(),
-            value,
-        ))? {
+        let value_key = make_value_key(project_id, tbl_dict(table, dict).as_str(), value);
+        let res = match tx.get_for_update(value_key, true)? {
             None => {
                 let key = make_id_seq_key(
                     project_ns(
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..516a8e3 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -64,7 +64,7 @@ macro_rules! attach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
 
-        let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
+        let mut event = $self.get_by_id_for_update_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => Some(vec![$prop_id]),
             Some(props) => match props.iter().find(|x| $prop_id == **x) {
@@ -89,7 +89,7 @@ macro_rules! attach_property {
 macro_rules! detach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
-        let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
+        let mut event = $self.get_by_id_for_update_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => {
                 return Err(MetadataError::NotFound(
@@ -141,6 +141,20 @@ impl Events {
         }
     }
 
+    // keeps the event from being changed by others until the transaction ends
+    fn get_by_id_for_update_(
+        &self,
+        tx: &Transaction<TransactionDB>,
+        project_id: u64,
+        id: u64,
+    ) -> Result<Event> {
+        tx.get_for_update(
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+            true,
+        )?;
+        self.get_by_id_(tx, project_id, id)
+    }
+
     fn create_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -216,6 +230,8 @@ impl Events {
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
+        // concurrent calls for the same name take turns
+        tx.get_for_update(index_name_key(project_id, req.name.as_str()).unwrap(), true)?;
         match self.get_by_name_(&tx, project_id, req.name.as_str()) {
             Ok(event) => return Ok(event),
             Err(MetadataError::NotFound(_)) => {}
@@ -324,7 +340,7 @@ impl Events {
     ) -> Result<()> {
         let tx = self.db.transaction();
 
-        let mut event = self.get_by_id_(&tx, project_id, event_id)?;
+        let mut event = self.get_by_id_for_update_(&tx, project_id, event_id)?;
         for prop in event_props {
             match &event.event_properties {
                 None => {}
diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..0d49ca4 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -36,7 +36,7 @@ impl Groups {
         anon_key: &str,
     ) -> Result<u64> {
         let key = format!("projects/{project_id}/groups/{group_id}/anonymous/keys/{anon_key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -77,7 +77,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let user_key = format!("projects/{project_id}/groups/{group_id}/real/keys/{id}");
-        let res = match tx.get(user_key.as_bytes())? {
+        let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
                     self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
@@ -109,7 +109,7 @@ impl Groups {
         values: Vec<PropertyValue>,
     ) -> Result<GroupValues> {
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -148,7 +148,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -216,7 +216,7 @@ impl Groups {
     ) -> Result<Group> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/names/{name}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let id = next_zero_seq(
                     &tx,
diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index 53b7b1c..d8a636a 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -9,7 +9,7 @@ pub fn check_insert_constraints(
     keys: &[Option<Vec<u8>>],
 ) -> Result<()> {
     for key in keys.iter().flatten() {
-        if tx.get(key)?.is_some() {
+        if tx.get_for_update(key, true)?.is_some() {
             return Err(MetadataError::AlreadyExists(String::from_utf8(
                 key.to_owned(),
             )?));
@@ -36,7 +36,7 @@ pub fn check_update_constraints(
 ) -> Result<()> {
     for (key, prev_key) in keys.iter().zip(prev_keys) {
         if let Some(key_v) = key {
-            if key != prev_key && (tx.get(key_v)?).is_some() {
+            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key_v.to_owned(),
                 )?));
@@ -90,7 +90,7 @@ where
 }
 
 pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 1,
@@ -101,7 +101,7 @@ pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Resu
 }
 
 pub fn next_zero_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 0,
diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 99fc5ed..b7a40c3 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -176,6 +176,8 @@ impl Projects {
     pub fn increment_events_counter(&self, project_id: u64) -> Result<()> {
         let tx = self.db.transaction();
 
+        // concurrent increments take turns
+        tx.get_for_update(make_data_value_key(NAMESPACE, project_id), true)?;
         let mut project = self.get_by_id_(&tx, project_id)?;
         project.events_count += 1;
         let data = serialize(&project)?;
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..cf44f87 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -225,7 +225,7 @@ impl Properties {
         let mut idx_keys = index_keys(project_id, &self.typ, &req.name, req.display_name.clone());
 
         for key in idx_keys.iter().flatten() {
-            if tx.get(key)?.is_some() {
+            if tx.get_for_update(key, true)?.is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key.to_owned(),
                 )?));
@@ -356,7 +356,15 @@ impl Properties {
     }
 
     pub fn get_or_create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
+        if let Ok(prop) = self.get_by_name(project_id, req.name.as_str()) {
+            return Ok(prop);
+        }
         let tx = self.db.transaction();
+        // concurrent calls for the same name take turns
+        tx.get_for_update(
+            index_name_key(project_id, &self.typ, req.name.as_str()).unwrap(),
+            true,
+        )?;
         match self.get_by_name_(&tx, project_id, req.name.as_str()) {
             Ok(event) => return Ok(event),
             Err(MetadataError::NotFound(_)) => {}
diff --git a/src/metadata/src/sessions.rs b/src/metadata/src/sessions.rs
index a04bd52..3d1b16a 100644
--- a/src/metadata/src/sessions.rs
+++ b/src/metadata/src/sessions.rs
@@ -81,7 +81,7 @@ impl Sessions {
         let tx = self.db.transaction();
         let key = make_data_key(project_id, user_id);
         let mut is_new = false;
-        let mut session = match tx.get(key)? {
+        let mut session = match tx.get_for_update(key, true)? {
             None => {
                 is_new = true;
                 Session {
-- 
2.43.0


From 5d94aa2b48addf3dd6afcf310e1c8f0a79304cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 022/130] fix: a property that was refused is served from the
 cache

---
 src/metadata/src/properties.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index cf44f87..810819e 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -216,6 +216,18 @@ impl Properties {
         }
     }
 
+    // only what is committed may be cached: a transaction can still be refused
+    fn put_to_cache(&self, prop: &Property) {
+        self.name_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.name.to_string()), prop.clone());
+        self.id_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.id), prop.clone());
+    }
+
     fn create_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -276,16 +288,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -351,6 +353,7 @@ impl Properties {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
+        self.put_to_cache(&ret);
 
         Ok(ret)
     }
@@ -373,6 +376,7 @@ impl Properties {
         let ret = self.create_(&tx, project_id, req)?;
 
         tx.commit()?;
+        self.put_to_cache(&ret);
 
         Ok(ret)
     }
@@ -506,20 +510,12 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
         tx.commit()?;
+        self.put_to_cache(&prop);
         Ok(prop)
     }
 
-- 
2.43.0


From 6665aee45d541c8a56cd9a60053a51bfb26aa2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 023/130] fix: merging a user with an anonymous id damages the
 id sequence

---
 src/metadata/src/groups.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index 0d49ca4..0a69e7a 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -80,11 +80,7 @@ impl Groups {
         let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From 735d5ee77f32cd271a3a7abf95b443a29416153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 024/130] fix: properties attached to an event are not stored

---
 src/metadata/src/events.rs      | 13 ++++++++++---
 src/metadata/src/pb/event.proto |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 516a8e3..2600c64 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -505,11 +505,18 @@ fn serialize(v: &Event) -> Result<Vec<u8>> {
             Status::Disabled => 2,
         },
         is_system: v.is_system,
+        event_properties: v.event_properties.clone().unwrap_or_default(),
+        user_properties: v.user_properties.clone().unwrap_or_default(),
+        custom_properties: v.custom_properties.clone().unwrap_or_default(),
     };
 
     Ok(d.encode_to_vec())
 }
 
+fn none_if_empty(ids: Vec<u64>) -> Option<Vec<u64>> {
+    if ids.is_empty() { None } else { Some(ids) }
+}
+
 fn deserialize(data: &[u8]) -> Result<Event> {
     let from = event::Event::decode(data)?;
 
@@ -536,9 +543,9 @@ fn deserialize(data: &[u8]) -> Result<Event> {
             _ => unreachable!(),
         },
         is_system: from.is_system,
-        event_properties: None,
-        user_properties: None,
-        custom_properties: None,
+        event_properties: none_if_empty(from.event_properties),
+        user_properties: none_if_empty(from.user_properties),
+        custom_properties: none_if_empty(from.custom_properties),
     })
 }
 
diff --git a/src/metadata/src/pb/event.proto b/src/metadata/src/pb/event.proto
index 1ac389e..feddf0c 100644
--- a/src/metadata/src/pb/event.proto
+++ b/src/metadata/src/pb/event.proto
@@ -14,6 +14,9 @@ message Event {
   optional string description = 10;
   Status status = 11;
   bool is_system = 12;
+  repeated uint64 event_properties = 13;
+  repeated uint64 user_properties = 14;
+  repeated uint64 custom_properties = 15;
 }
 
 enum Status {
-- 
2.43.0


From 01265c285dfceaeafccccdfcfa83893c52ba01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 025/130] fix: updating an account ignores the role

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..707c462 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -145,6 +145,9 @@ impl Accounts {
         if let OptionalProperty::Some(force_update_password) = req.force_update_password {
             account.force_update_password = force_update_password;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(organizations) = req.organizations {
             account.organizations = organizations;
         }
-- 
2.43.0


From dde3bb430f9d199ef7b415f0d7663f683ec41bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 026/130] fix: updating a report ignores its type

---
 src/metadata/src/reports.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index c86d381..d2fed42 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -137,6 +137,9 @@ impl Reports {
         if let OptionalProperty::Some(tags) = req.tags {
             report.tags = tags;
         }
+        if let OptionalProperty::Some(typ) = req.typ {
+            report.typ = typ;
+        }
         if let OptionalProperty::Some(query) = req.query {
             report.query = query;
         }
-- 
2.43.0


From b8850535faeaecae81b357a9ad724c5107ce3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 027/130] fix: the start hour of the backup schedule is not
 stored

---
 src/metadata/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index b97d03b..2ebc261 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -183,7 +183,7 @@ fn serialize(v: &Settings) -> Result<Vec<u8>> {
             BackupScheduleInterval::Monthly => pbconfig::BackupScheduleInterval::Monthly as i32,
             BackupScheduleInterval::Yearly => pbconfig::BackupScheduleInterval::Yearly as i32,
         },
-        backup_schedule_start_hour: 0,
+        backup_schedule_start_hour: v.backup_schedule_start_hour as u32,
     };
 
     Ok(backup.encode_to_vec())
-- 
2.43.0


From 1feb7c817d9677947d94754bce446b8a285ccba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 028/130] fix: only the first team of an organization is listed

---
 src/metadata/src/teams.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..f3ab54a 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -121,7 +121,6 @@ impl Teams {
                 continue;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From dd1aa5d6bb00a40f0902affae5524a90b6b48333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 029/130] fix: a custom event is stored outside of the
 transaction that creates it

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
-- 
2.43.0


From 867a8a4595412ad78d7b92f0237937a5f87b7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 030/130] fix: a custom event filter without a value is read
 back with an empty list of values

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 8a897d5..66db593 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -600,7 +600,7 @@ fn deserialize(data: &[u8]) -> Result<CustomEvent> {
             filters.push(PropValueFilter::Property {
                 property: prop_ref.clone(),
                 operation: op,
-                value: Some(vals),
+                value: if vals.is_empty() { None } else { Some(vals) },
             });
         }
         let event = Event {
-- 
2.43.0


From 0eede41b9f15e8383faf7cdb4de9704239242067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 031/130] fix: accounts stay members of a deleted organization

---
 src/metadata/src/organizations.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 9ae7758..daa6ced 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -221,6 +221,12 @@ impl Organizations {
 
         let org = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
+        for (member_id, _) in org.members.iter() {
+            match self.accs.remove_organization_(&tx, *member_id, id) {
+                Ok(_) | Err(MetadataError::NotFound(_)) => {}
+                Err(err) => return Err(err),
+            }
+        }
 
         delete_index(&tx, index_keys(&org.name).as_ref())?;
         tx.commit()?;
-- 
2.43.0


From 0e43b78c34aa4b437bdcdfe6d82e8b9df98a51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 032/130] fix: the name of a project is accepted as its token

---
 src/metadata/src/projects.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index b7a40c3..804d0f0 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -105,7 +105,14 @@ impl Projects {
             index_token_key(token).unwrap(),
             "project can't be found by token",
         )?;
-        self.get_by_id_(&tx, id)
+        let project = self.get_by_id_(&tx, id)?;
+        // names are in the same index
+        if project.token != token {
+            return Err(MetadataError::NotFound(
+                "project can't be found by token".to_string(),
+            ));
+        }
+        Ok(project)
     }
 
     pub fn list(&self) -> Result<ListResponse<Project>> {
-- 
2.43.0


From c27c11e8281884b0d6b6283c4eef30f8aa3f2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 033/130] fix: rows of a renamed or recreated event are shown
 under another event's name

---
 src/metadata/src/dictionaries.rs | 17 +++++++++++++++--
 src/metadata/src/events.rs       | 12 +++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index 18df486..2ef5629 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -94,15 +94,15 @@ impl Dictionaries {
         res
     }
 
-    pub fn create_key(
+    pub fn _create_key(
         &self,
+        tx: &Transaction<TransactionDB>,
         project_id: u64,
         table: &str,
         dict: &str,
         key: u64,
         value: &str,
     ) -> Result<()> {
-        let tx = self.db.transaction();
         tx.put(
             make_key_key(project_id, tbl_dict(table, dict).as_str(), key),
             value.as_bytes(),
@@ -111,6 +111,19 @@ impl Dictionaries {
             make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
             key.to_le_bytes(),
         )?;
+        Ok(())
+    }
+
+    pub fn create_key(
+        &self,
+        project_id: u64,
+        table: &str,
+        dict: &str,
+        key: u64,
+        value: &str,
+    ) -> Result<()> {
+        let tx = self.db.transaction();
+        self._create_key(&tx, project_id, table, dict, key, value)?;
         tx.commit()?;
         Ok(())
     }
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 2600c64..5944fe1 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -196,11 +196,13 @@ impl Events {
 
         insert_index(tx, idx_keys.as_ref(), event.id)?;
 
-        self.dicts._get_key_or_create(
+        // rows hold the id of the event
+        self.dicts._create_key(
             tx,
             project_id,
             TABLE_EVENTS,
             COLUMN_EVENT,
+            event.id,
             event.name.as_str(),
         )?;
         Ok(event)
@@ -290,6 +292,14 @@ impl Events {
             idx_keys.push(index_name_key(project_id, name.as_str()));
             idx_prev_keys.push(index_name_key(project_id, prev_event.name.as_str()));
             event.name.clone_from(name);
+            self.dicts._create_key(
+                &tx,
+                project_id,
+                TABLE_EVENTS,
+                COLUMN_EVENT,
+                event.id,
+                event.name.as_str(),
+            )?;
         }
         if let OptionalProperty::Some(display_name) = &req.display_name {
             idx_keys.push(index_display_name_key(project_id, display_name.to_owned()));
-- 
2.43.0


From 54ed4690c9354d434408340c6f71467f905b8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 034/130] fix: filter by a string no event has yet instead of
 failing the query

---
 src/query/src/expr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..3931416 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -24,6 +24,7 @@ use datafusion_expr::Expr;
 use datafusion_expr::ExprSchemable;
 use datafusion_expr::Operator;
 use metadata::dictionaries::Dictionaries;
+use metadata::error::MetadataError;
 use metadata::properties::DictionaryType;
 use metadata::MetadataProvider;
 
@@ -34,6 +35,9 @@ use crate::logical_plan::expr::multi_or;
 use crate::Context;
 use crate::Result;
 
+/// dictionary keys start from 1, so this one never matches
+const UNKNOWN_DICT_KEY: i64 = -1;
+
 /// builds expression on timestamp
 pub fn time_expression<S: ExprSchema>(
     ts_col_name: &str,
@@ -178,13 +182,18 @@ pub fn encode_property_dict_values(
         if let ScalarValue::Utf8(inner) = value {
             if let Some(str_value) = inner {
                 let key =
-                    dictionaries.get_key(ctx.project_id, tbl, col_name, str_value.as_str())?;
+                    match dictionaries.get_key(ctx.project_id, tbl, col_name, str_value.as_str()) {
+                        Ok(key) => key as i64,
+                        // no row holds a value that is absent from the dictionary
+                        Err(MetadataError::NotFound(_)) => UNKNOWN_DICT_KEY,
+                        Err(err) => return Err(err.into()),
+                    };
 
                 let scalar_value = match dict_type {
                     DictionaryType::Int8 => ScalarValue::Int8(Some(key as i8)),
                     DictionaryType::Int16 => ScalarValue::Int16(Some(key as i16)),
                     DictionaryType::Int32 => ScalarValue::Int32(Some(key as i32)),
-                    DictionaryType::Int64 => ScalarValue::Int64(Some(key as i64)),
+                    DictionaryType::Int64 => ScalarValue::Int64(Some(key)),
                 };
 
                 ret.push(scalar_value);
-- 
2.43.0


From 983d707ae64a95e1d1f442b41ab56c071ec79b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 035/130] fix: leave other aggregates' columns null in partial
 results, so a minimum is not a made-up zero

---
 src/query/src/logical_plan/unpivot.rs         |  2 +-
 .../src/physical_plan/segmented_aggregate.rs  | 21 ++-----------------
 src/query/src/physical_plan/unpivot.rs        |  2 +-
 3 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/query/src/logical_plan/unpivot.rs b/src/query/src/logical_plan/unpivot.rs
index 706273a..e9cabd1 100644
--- a/src/query/src/logical_plan/unpivot.rs
+++ b/src/query/src/logical_plan/unpivot.rs
@@ -49,7 +49,7 @@ impl UnpivotNode {
 
             let name_field = Arc::new(Field::new(name_col.as_str(), DataType::Utf8, false));
             fields.push(name_field);
-            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, false));
+            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, true));
             fields.push(value_field);
 
             Arc::new(DFSchema::from_unqualifed_fields(
diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index d505d7d..a834540 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -24,8 +24,6 @@ use arrow::record_batch::RecordBatch;
 use arrow_row::SortField;
 use axum::async_trait;
 use common::types::COLUMN_PROJECT_ID;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::expressions::col;
 use datafusion::physical_expr::expressions::Column;
@@ -483,23 +481,8 @@ impl Stream for PartialAggregateStream {
                         |field| match batch.schema().index_of(field.name().as_str()) {
                             Ok(col_idx) => Ok(batch.column(col_idx).clone()),
                             Err(_) => {
-                                let v = match field.data_type() {
-                                    DataType::Int8 => ScalarValue::Int8(Some(0)),
-                                    DataType::Int16 => ScalarValue::Int16(Some(0)),
-                                    DataType::Int32 => ScalarValue::Int32(Some(0)),
-                                    DataType::Int64 => ScalarValue::Int64(Some(0)),
-                                    DataType::UInt8 => ScalarValue::UInt8(Some(0)),
-                                    DataType::UInt16 => ScalarValue::UInt16(Some(0)),
-                                    DataType::UInt32 => ScalarValue::UInt32(Some(0)),
-                                    DataType::UInt64 => ScalarValue::UInt64(Some(0)),
-                                    DataType::Decimal128(_, _) => ScalarValue::Decimal128(
-                                        Some(0),
-                                        DECIMAL_PRECISION,
-                                        DECIMAL_SCALE,
-                                    ),
-                                    DataType::Float64 => ScalarValue::Float64(Some(0.)),
-                                    _ => unimplemented!("{:?}", field.data_type()),
-                                };
+                                // the column belongs to another aggregate
+                                let v = ScalarValue::try_from(field.data_type())?;
                                 Ok(v.to_array_of_size(batch.column(0).len())?)
                             }
                         },
diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 490af00..0b4477c 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -111,7 +111,7 @@ impl UnpivotExec {
 
             let name_field = Field::new(name_col.as_str(), DataType::Utf8, false);
             fields.push(FieldRef::new(name_field));
-            let value_field = Field::new(value_col.as_str(), value_type, false);
+            let value_field = Field::new(value_col.as_str(), value_type, true);
             fields.push(FieldRef::new(value_field));
 
             Arc::new(Schema::new(fields))
-- 
2.43.0


From 82a4f33a6af27905ec616be23a96730d115f0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 036/130] fix: break down by boolean, timestamp and narrow
 integer properties instead of panicking

---
 src/query/src/physical_plan/limit_groups.rs | 46 +++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/query/src/physical_plan/limit_groups.rs b/src/query/src/physical_plan/limit_groups.rs
index deba152..37526ec 100644
--- a/src/query/src/physical_plan/limit_groups.rs
+++ b/src/query/src/physical_plan/limit_groups.rs
@@ -8,14 +8,20 @@ use std::task::Poll;
 
 use arrow::array::Array;
 use arrow::array::ArrayRef;
+use arrow::array::BooleanArray;
 use arrow::array::Decimal128Array;
+use arrow::array::Int16Array;
+use arrow::array::Int32Array;
 use arrow::array::Int64Array;
 use arrow::array::Int64Builder;
+use arrow::array::Int8Array;
 use arrow::array::RecordBatch;
 use arrow::array::StringArray;
+use arrow::array::TimestampMillisecondArray;
 use arrow::compute::take;
 use arrow::datatypes::DataType;
 use arrow::datatypes::SchemaRef;
+use arrow::datatypes::TimeUnit;
 use async_trait::async_trait;
 use datafusion::execution::RecordBatchStream;
 use datafusion::execution::SendableRecordBatchStream;
@@ -35,6 +41,11 @@ use crate::Result;
 
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 enum Value {
+    Int8(Option<i8>),
+    Int16(Option<i16>),
+    Int32(Option<i32>),
+    Boolean(Option<bool>),
+    Timestamp(Option<i64>),
     Int64(Option<i64>),
     Decimal(Option<i128>),
     String(Option<String>),
@@ -150,6 +161,41 @@ impl Stream for AggregateAndSortColumnsStream {
                     .take(self.groups) // get all groups, ignore agg_name
                     .zip(batch.schema().fields().iter().skip(self.skip))
                     .map(|(col, f)| match f.data_type() {
+                        DataType::Int8 => col
+                            .as_any()
+                            .downcast_ref::<Int8Array>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Int8)
+                            .collect::<Vec<_>>(),
+                        DataType::Int16 => col
+                            .as_any()
+                            .downcast_ref::<Int16Array>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Int16)
+                            .collect::<Vec<_>>(),
+                        DataType::Int32 => col
+                            .as_any()
+                            .downcast_ref::<Int32Array>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Int32)
+                            .collect::<Vec<_>>(),
+                        DataType::Boolean => col
+                            .as_any()
+                            .downcast_ref::<BooleanArray>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Boolean)
+                            .collect::<Vec<_>>(),
+                        DataType::Timestamp(TimeUnit::Millisecond, _) => col
+                            .as_any()
+                            .downcast_ref::<TimestampMillisecondArray>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Timestamp)
+                            .collect::<Vec<_>>(),
                         DataType::Int64 => col
                             .as_any()
                             .downcast_ref::<Int64Array>()
-- 
2.43.0


From 9aadfb3cfef6611e753e09d7987172edbf0d071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 037/130] fix: leave only the project's rows before decoding a
 query's columns, and in funnels at all

---
 src/query/src/event_records.rs      |  2 ++
 src/query/src/event_segmentation.rs |  2 ++
 src/query/src/funnel.rs             |  2 ++
 src/query/src/group_records.rs      |  2 ++
 src/query/src/lib.rs                | 19 +++++++++++++++++++
 5 files changed, 27 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..7d80d7e 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -65,6 +65,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
+use crate::project_plan;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -258,6 +259,7 @@ pub fn build_search_plan(
     };
 
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
+    let input = project_plan(&ctx, COLUMN_PROJECT_ID, input)?;
     let input = decode_filter_dictionaries(
         &ctx,
         &metadata,
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 127c8ea..c3f6d5a 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -75,6 +75,7 @@ use crate::logical_plan::segment::SegmentExpr;
 use crate::logical_plan::segment::SegmentNode;
 use crate::logical_plan::unpivot::UnpivotNode;
 use crate::logical_plan::SortField;
+use crate::project_plan;
 use crate::segment_plan;
 use crate::segment_projection;
 use crate::ColumnType;
@@ -250,6 +251,7 @@ impl LogicalPlanBuilder {
         input: LogicalPlan,
         es: EventSegmentationRequest,
     ) -> Result<LogicalPlan> {
+        let input = project_plan(&ctx, COLUMN_PROJECT_ID, input)?;
         let events = es.events.clone();
         let builder = LogicalPlanBuilder {
             ctx: ctx.clone(),
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..02763a0 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -63,6 +63,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::funnel::FunnelNode;
 use crate::logical_plan::SortField;
+use crate::project_plan;
 use crate::Context;
 
 pub struct FunnelProvider {
@@ -255,6 +256,7 @@ pub fn build(
     req: Funnel,
 ) -> Result<LogicalPlan> {
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
+    let input = project_plan(&ctx, COLUMN_PROJECT_ID, input)?;
     let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..e2cd03d 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -61,6 +61,7 @@ use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
+use crate::project_plan;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -251,6 +252,7 @@ pub fn build_search_plan(
         }
     };
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
+    let input = project_plan(&ctx, GROUP_COLUMN_PROJECT_ID, input)?;
     let input =
         decode_filter_dictionaries(&ctx, &metadata, req.filters.as_ref(), input, &mut cols_hash)?;
     let mut filter_exprs = vec![binary_expr(
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..96674d3 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -69,8 +69,13 @@ use datafusion::physical_plan::display::DisplayableExecutionPlan;
 use datafusion::prelude::SessionConfig;
 use datafusion::prelude::SessionContext;
 use datafusion_common::ScalarValue;
+use datafusion_expr::binary_expr;
+use datafusion_expr::col;
+use datafusion_expr::lit;
 use datafusion_expr::Extension;
+use datafusion_expr::Filter;
 use datafusion_expr::LogicalPlan;
+use datafusion_expr::Operator;
 pub use error::Result;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
@@ -414,6 +419,20 @@ pub fn initial_plan(
     Ok((exec_ctx, state, plan))
 }
 
+/// leaves only the rows of the project. Dictionaries belong to a project, so this goes before any decoding
+pub fn project_plan(ctx: &Context, project_col: &str, input: LogicalPlan) -> Result<LogicalPlan> {
+    let expr = binary_expr(
+        col(project_col),
+        Operator::Eq,
+        lit(ScalarValue::from(ctx.project_id as i64)),
+    );
+
+    Ok(LogicalPlan::Filter(Filter::try_new(
+        expr,
+        Arc::new(input),
+    )?))
+}
+
 fn segment_plan(
     db: &Arc<OptiDBImpl>,
     table: String,
-- 
2.43.0


From 0bf45ccb94420f04f0d92914175f4fcd14f0638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 038/130] fix: apply the filters of an event records search

---
 src/query/src/event_records.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 7d80d7e..3bd3063 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -300,6 +300,12 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
-- 
2.43.0


From c9392f40445e478f3c52a757be6464c56c342d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 039/130] fix: keep the time range of a group records search
 that has filters

---
 src/query/src/group_records.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index e2cd03d..b217692 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -27,7 +27,6 @@ use common::DECIMAL_PRECISION;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
-use datafusion_expr::and;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr;
@@ -267,8 +266,7 @@ pub fn build_search_plan(
     }
 
     if let Some(filters) = &req.filters {
-        let expr = event_filters_expression(&ctx, &metadata, filters)?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
-- 
2.43.0


From bf35164e357cc97158d88e90aa5571b322205161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 040/130] fix: skip null values and rows without a group record
 in per-group aggregates

---
 .../aggregate/partitioned/aggregate.rs        | 21 ++++++++++++-------
 .../aggregate/partitioned/count.rs            | 10 +++++++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..c2bb7b8 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -205,7 +205,10 @@ macro_rules! agg {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
+                    // the row belongs to no group record
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
@@ -220,6 +223,16 @@ macro_rules! agg {
                         }
                     }
 
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
+
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
+                            continue;
+                        }
+                    }
+
                     let bucket = if let Some(groups) = &mut self.groups {
                         groups
                             .groups
@@ -238,12 +251,6 @@ macro_rules! agg {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.inner_fn.result();
                         // for float multiply will be 1., which will be optimized in release mode
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index 675796f..6b8fa61 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -159,7 +159,10 @@ macro_rules! count {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
+                    // the row belongs to no group record
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
@@ -354,7 +357,10 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             .clone();
 
         for (row_id, partition) in partitions.into_iter().enumerate() {
-            let partition = partition.unwrap();
+            // the row belongs to no group record
+            let Some(partition) = partition else {
+                continue;
+            };
             if self.skip {
                 if self.skip_partition != partition {
                     self.skip = false;
-- 
2.43.0


From cc8a52c5e7a84a736e0a8ea451129fd04ee3f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 041/130] fix: a filter for none of several values holds only
 when every value differs

---
 src/query/src/expr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 3931416..f148d4f 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -345,7 +345,11 @@ pub fn named_property_expression(
                         })
                         .collect();
 
-                    multi_or(exprs)
+                    match operation {
+                        // none of the values
+                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
+                        _ => multi_or(exprs),
+                    }
                 }
             })
         }
@@ -387,7 +391,8 @@ pub fn named_property_expression(
                         .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
                         .collect();
 
-                    multi_or(exprs)
+                    // like none of the values
+                    multi_and(exprs)
                 }
             })
         }
-- 
2.43.0


From 592c6bc14049614cce68a10ba8b206151a88e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 042/130] fix: an event given by its id is found when the id is
 over 65535

---
 src/query/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index f148d4f..6ad0706 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -79,7 +79,7 @@ pub fn event_expression(
         EventRef::Regular(id) => binary_expr(
             col(COLUMN_EVENT),
             Operator::Eq,
-            lit(ScalarValue::from(*id as u16)),
+            lit(ScalarValue::from(*id as i64)),
         ),
 
         EventRef::Custom(id) => {
-- 
2.43.0


From 072a48c7258cf9a98db945aea30732e92197c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 043/130] fix: an empty list of filters or values no longer
 panics

---
 src/query/src/logical_plan/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/query/src/logical_plan/expr.rs b/src/query/src/logical_plan/expr.rs
index 30f1ae0..b8342e9 100644
--- a/src/query/src/logical_plan/expr.rs
+++ b/src/query/src/logical_plan/expr.rs
@@ -13,6 +13,10 @@ use crate::error::QueryError;
 use crate::Result;
 
 pub fn multi_or(exprs: Vec<Expr>) -> Expr {
+    // none of no alternatives holds
+    if exprs.is_empty() {
+        return lit(false);
+    }
     if exprs.len() == 1 {
         return exprs[0].clone();
     }
@@ -29,6 +33,10 @@ pub fn multi_or(exprs: Vec<Expr>) -> Expr {
 }
 
 pub fn multi_and(exprs: Vec<Expr>) -> Expr {
+    // every one of no conditions holds
+    if exprs.is_empty() {
+        return lit(true);
+    }
     if exprs.len() == 1 {
         return exprs[0].clone();
     }
-- 
2.43.0


From 9d767d9d02bfc4f16f07b9dbe395fe3b50853ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 044/130] fix: pivot lines by the values of their dimensions,
 not a hash that nulls leave unchanged

---
 src/query/src/physical_plan/pivot.rs | 35 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/query/src/physical_plan/pivot.rs b/src/query/src/physical_plan/pivot.rs
index 2a2b363..e79a041 100644
--- a/src/query/src/physical_plan/pivot.rs
+++ b/src/query/src/physical_plan/pivot.rs
@@ -5,7 +5,6 @@ use std::sync::Arc;
 use std::task::Context;
 use std::task::Poll;
 
-use ahash::RandomState;
 use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::StringArray;
@@ -19,7 +18,6 @@ use axum::async_trait;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::EquivalenceProperties;
 use datafusion::physical_plan::expressions::Column;
-use datafusion::physical_plan::hash_utils::create_hashes;
 use datafusion::physical_plan::metrics::BaselineMetrics;
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::metrics::MetricsSet;
@@ -205,8 +203,8 @@ struct PivotStream {
     name_col: Column,
     value_col: Column,
     value_type: DataType,
-    group_map: FnvHashMap<u64, u32>,
-    unique_groups: Vec<(u64, Vec<ScalarValue>)>,
+    group_map: FnvHashMap<Vec<ScalarValue>, u32>,
+    unique_groups: Vec<Vec<ScalarValue>>,
     result_map: FnvHashMap<String, Vec<ScalarValue>>,
     finished: bool,
     baseline_metrics: BaselineMetrics,
@@ -247,9 +245,6 @@ impl RecordBatchStream for PivotStream {
 
 impl PivotStream {
     fn pivot_batch(&mut self, batch: &RecordBatch) -> ArrowResult<()> {
-        let random_state = RandomState::with_seeds(0, 0, 0, 0);
-        let mut batch_hashes = vec![0; batch.num_rows()];
-
         let c = arrow::compute::cast(batch.column(self.name_col.index()), &DataType::Utf8)?;
         let name_arr = c
             .as_any()
@@ -262,17 +257,21 @@ impl PivotStream {
             .iter()
             .map(|col| batch.column(col.index()).clone())
             .collect();
-        create_hashes(&group_arrs, &random_state, &mut batch_hashes)?;
 
-        for (row, hash) in batch_hashes.into_iter().enumerate() {
-            let group_idx = *self.group_map.entry(hash).or_insert_with(|| {
-                let group_values = group_arrs
-                    .iter()
-                    .map(|arr| ScalarValue::try_from_array(arr, row).unwrap())
-                    .collect();
-                self.unique_groups.push((hash, group_values));
-                self.unique_groups.len() as u32 - 1
-            });
+        for row in 0..batch.num_rows() {
+            let group_values: Vec<ScalarValue> = group_arrs
+                .iter()
+                .map(|arr| ScalarValue::try_from_array(arr, row))
+                .collect::<DFResult<_>>()?;
+            let group_idx = match self.group_map.get(&group_values) {
+                Some(idx) => *idx,
+                None => {
+                    let idx = self.unique_groups.len() as u32;
+                    self.unique_groups.push(group_values.clone());
+                    self.group_map.insert(group_values, idx);
+                    idx
+                }
+            };
 
             let group_idx = group_idx as usize;
             let col_name = name_arr.value(row);
@@ -312,7 +311,7 @@ impl PivotStream {
                 let scalars: Vec<ScalarValue> = self
                     .unique_groups
                     .iter()
-                    .map(|(_, values)| values[idx].to_owned())
+                    .map(|values| values[idx].to_owned())
                     .collect();
                 ScalarValue::iter_to_array(scalars)
             })
-- 
2.43.0


From 948dfdae1703771f9ddb0e2a77b33705378a2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 045/130] fix: compare decoded columns with strings when
 another filter needs the column decoded

---
 src/query/src/event_records.rs      |  6 +++---
 src/query/src/event_segmentation.rs | 19 +++++++++++------
 src/query/src/expr.rs               | 32 +++++++++++++++++++++++------
 src/query/src/funnel.rs             | 10 ++++-----
 src/query/src/group_records.rs      |  2 +-
 src/query/src/properties.rs         |  3 ++-
 6 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 3bd3063..b0e915d 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -284,14 +284,14 @@ pub fn build_search_plan(
         let mut exprs = vec![];
         for event in events {
             // event expression
-            let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema(), &event.event)?;
             // apply event filters
             if let Some(filters) = &event.filters
                 && !filters.is_empty()
             {
                 expr = and(
                     expr.clone(),
-                    event_filters_expression(&ctx, &metadata, filters)?,
+                    event_filters_expression(&ctx, &metadata, input.schema(), filters)?,
                 )
             }
 
@@ -303,7 +303,7 @@ pub fn build_search_plan(
     if let Some(filters) = &req.filters
         && !filters.is_empty()
     {
-        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index c3f6d5a..d78a6b1 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -21,6 +21,7 @@ use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
 use datafusion::functions::datetime::date_trunc::DateTruncFunc;
 use datafusion_common::Column;
+use datafusion_common::DFSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
@@ -266,7 +267,11 @@ impl LogicalPlanBuilder {
                 for conditions in segment.conditions {
                     let mut and: Option<SegmentExpr> = None;
                     for condition in conditions {
-                        let expr = builder.build_segment_condition(&condition, es.group_id)?;
+                        let expr = builder.build_segment_condition(
+                            input.schema(),
+                            &condition,
+                            es.group_id,
+                        )?;
                         and = match and {
                             None => Some(expr),
                             Some(e) => Some(SegmentExpr::And(Box::new(e), Box::new(expr))),
@@ -457,6 +462,7 @@ impl LogicalPlanBuilder {
 
     fn build_segment_condition(
         &self,
+        schema: &DFSchema,
         condition: &SegmentCondition,
         group_id: usize,
     ) -> Result<SegmentExpr> {
@@ -471,6 +477,7 @@ impl LogicalPlanBuilder {
                 let filter = property_expression(
                     &self.ctx,
                     &self.metadata,
+                    schema,
                     TABLE_EVENTS,
                     property,
                     operation,
@@ -493,12 +500,12 @@ impl LogicalPlanBuilder {
                 aggregate,
             } => {
                 // event expression
-                let mut event_expr = event_expression(&self.ctx, &self.metadata, event)?;
+                let mut event_expr = event_expression(&self.ctx, &self.metadata, schema, event)?;
                 // apply event filters
                 if let Some(filters) = &filters {
                     event_expr = and(
                         event_expr.clone(),
-                        event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                        event_filters_expression(&self.ctx, &self.metadata, schema, filters)?,
                     )
                 }
                 match aggregate {
@@ -750,13 +757,13 @@ impl LogicalPlanBuilder {
         // event expression
         expr = and(
             expr,
-            event_expression(&self.ctx, &self.metadata, &event.event)?,
+            event_expression(&self.ctx, &self.metadata, input.schema(), &event.event)?,
         );
         // apply event filters
         if let Some(filters) = &event.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
             )
         }
 
@@ -764,7 +771,7 @@ impl LogicalPlanBuilder {
         if let Some(filters) = &self.es.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
             );
         }
 
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 6ad0706..89209c8 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -13,6 +13,7 @@ use common::query::QueryTime;
 use common::types::COLUMN_EVENT;
 use common::types::TABLE_EVENTS;
 use datafusion_common::Column;
+use datafusion_common::DFSchema;
 use datafusion_common::ExprSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::col;
@@ -64,6 +65,7 @@ pub fn time_expression<S: ExprSchema>(
 pub fn event_expression(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &DFSchema,
     event: &EventRef,
 ) -> Result<Expr> {
     Ok(match &event {
@@ -88,20 +90,20 @@ pub fn event_expression(
             for event in e.events.iter() {
                 let mut expr = match &event.event {
                     EventRef::RegularName(name) => {
-                        event_expression(ctx, metadata, &EventRef::RegularName(name.to_owned()))?
+                        event_expression(ctx, metadata, schema, &EventRef::RegularName(name.to_owned()))?
                     }
                     EventRef::Regular(id) => {
-                        event_expression(ctx, metadata, &EventRef::Regular(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Regular(*id))?
                     }
                     EventRef::Custom(id) => {
-                        event_expression(ctx, metadata, &EventRef::Custom(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Custom(*id))?
                     }
                 };
 
                 if let Some(filters) = &event.filters {
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, filters)?,
+                        event_filters_expression(ctx, metadata, schema, filters)?,
                     );
                 }
 
@@ -122,6 +124,7 @@ pub fn event_expression(
 pub fn event_filters_expression(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &DFSchema,
     filters: &[PropValueFilter],
 ) -> Result<Expr> {
     // iterate over filters
@@ -140,7 +143,15 @@ pub fn event_filters_expression(
                         PropertyRef::Event(_) => TABLE_EVENTS.to_string(),
                         PropertyRef::Custom(_) => unimplemented!(),
                     };
-                    property_expression(ctx, metadata, &tbl, property, operation, value.clone())
+                    property_expression(
+                        ctx,
+                        metadata,
+                        schema,
+                        &tbl,
+                        property,
+                        operation,
+                        value.clone(),
+                    )
                 }
             }
         })
@@ -214,6 +225,7 @@ pub fn encode_property_dict_values(
 
 fn prop_expression(
     ctx: &Context,
+    schema: &DFSchema,
     tbl: &str,
     prop: &Arc<metadata::properties::Properties>,
     dicts: &Arc<metadata::dictionaries::Dictionaries>,
@@ -239,7 +251,12 @@ fn prop_expression(
         _ => {}
     }
 
-    if let Some(dict_type) = prop.dictionary_type {
+    // the column may hold strings already: filters by a pattern decode it for all filters
+    let decoded = schema
+        .field_with_unqualified_name(&col_name)
+        .is_ok_and(|f| f.data_type() == &DataType::Utf8);
+
+    if let Some(dict_type) = prop.dictionary_type.filter(|_| !decoded) {
         let dict_values = encode_property_dict_values(
             ctx,
             tbl,
@@ -258,6 +275,7 @@ fn prop_expression(
 pub fn property_expression(
     ctx: &Context,
     md: &Arc<MetadataProvider>,
+    schema: &DFSchema,
     tbl: &str,
     property: &PropertyRef,
     operation: &PropValueOperation,
@@ -266,6 +284,7 @@ pub fn property_expression(
     match property {
         PropertyRef::Group(prop_name, group) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.group_properties[*group],
             &md.dictionaries,
@@ -275,6 +294,7 @@ pub fn property_expression(
         ),
         PropertyRef::Event(prop_name) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.event_properties,
             &md.dictionaries,
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 02763a0..e145882 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -261,7 +261,7 @@ pub fn build(
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
     if let Some(filters) = &req.filters {
-        expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
+        expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?)
     }
     let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
 
@@ -275,9 +275,9 @@ pub fn build(
         for step in req.steps.iter() {
             let mut exprs = vec![];
             for event in step.events.iter() {
-                let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+                let mut expr = event_expression(&ctx, &metadata, input.schema(), &event.event)?;
                 if let Some(filters) = &event.filters {
-                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                    expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
                 }
                 exprs.push(expr)
             }
@@ -295,9 +295,9 @@ pub fn build(
     let exclude = if let Some(excludes) = &req.exclude {
         let mut out = vec![];
         for exclude in excludes {
-            let mut expr = event_expression(&ctx, &metadata, &exclude.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema(), &exclude.event)?;
             if let Some(filters) = &exclude.filters {
-                expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
             }
             let steps = if let Some(steps) = &exclude.steps {
                 let steps = match steps {
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index b217692..2ad3c1c 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -266,7 +266,7 @@ pub fn build_search_plan(
     }
 
     if let Some(filters) = &req.filters {
-        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..5f6404d 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -129,7 +129,7 @@ impl LogicalPlanBuilder {
         );
 
         if let Some(event) = &req.event {
-            expr = and(expr, event_expression(&ctx, &metadata, event)?);
+            expr = and(expr, event_expression(&ctx, &metadata, input.schema(), event)?);
         }
 
         let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
@@ -166,6 +166,7 @@ impl LogicalPlanBuilder {
                 property_expression(
                     &ctx,
                     &metadata,
+                    input.schema(),
                     TABLE_EVENTS,
                     &req.property,
                     &filter.operation,
-- 
2.43.0


From 2232800a2e8cd1ce574574729453ac0839fb9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 046/130] fix: LIKE '%' leaves out rows without a value

---
 src/query/src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 89209c8..6195f33 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -381,7 +381,9 @@ pub fn named_property_expression(
                 ))
             })?;
 
-            Ok(match values_vec.len() {
+            // the optimizer replaces LIKE '%' by true, for rows without a value as well
+            let exists = prop_col.clone().is_not_null();
+            let like = match values_vec.len() {
                 1 => prop_col.like(lit(values_vec[0].to_owned())),
                 _ => {
                     // iterate over all possible values
@@ -392,7 +394,8 @@ pub fn named_property_expression(
 
                     multi_or(exprs)
                 }
-            })
+            };
+            Ok(and(exists, like))
         }
         PropValueOperation::NotLike => {
             // expressions for OR
-- 
2.43.0


From bc4fda4e7337239348956e5f813f687b43af4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 047/130] fix: read and decode the columns that filters inside
 custom events and excluded events need

---
 src/query/src/event_records.rs      | 23 +++++++++--------
 src/query/src/event_segmentation.rs | 23 ++++++-----------
 src/query/src/funnel.rs             | 39 +++++++++++++----------------
 src/query/src/lib.rs                | 23 +++++++++++++++++
 4 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index b0e915d..255e383 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -53,6 +53,7 @@ use tracing::debug;
 
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -511,16 +512,8 @@ fn decode_filter_dictionaries(
 
     if let Some(events) = events {
         for event in events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in &event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
             }
         }
     }
@@ -550,6 +543,16 @@ fn projection(
         COLUMN_CREATED_AT.to_string(),
         COLUMN_EVENT_ID.to_string(),
     ];
+    for event in req.events.iter().flatten() {
+        for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
+                }
+            }
+        }
+    }
+
     if let Some(filters) = &req.filters {
         for filter in filters {
             match filter {
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index d78a6b1..2c55cf7 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -47,6 +47,7 @@ use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::context::Format;
 use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -178,12 +179,10 @@ fn projection(
     ];
 
     for event in &req.events {
-        if let Some(filters) = &event.filters {
-            for filter in filters {
-                match filter {
-                    PropValueFilter::Property { property, .. } => {
-                        fields.push(col_name(ctx, property, md)?)
-                    }
+        for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
                 }
             }
         }
@@ -561,16 +560,8 @@ impl LogicalPlanBuilder {
         let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
         for event in &self.es.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        &self.ctx,
-                        &self.metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in &event_filters(&self.ctx, &self.metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(&self.ctx, &self.metadata, cols_hash, &mut decode_cols, filter)?;
             }
         }
 
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index e145882..d23aa15 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -49,6 +49,7 @@ use tracing::debug;
 use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -438,20 +439,18 @@ fn decode_filter_dictionaries(
 
     for step in &funnel.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in &event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
             }
         }
     }
 
+    for event in funnel.exclude.iter().flatten() {
+        for filter in &event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
+        }
+    }
+
     if let Some(filters) = &funnel.filters {
         for filter in filters {
             decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
@@ -501,12 +500,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     for step in &req.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+                match filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, &property, md)?)
                     }
                 }
             }
@@ -521,12 +518,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     if let Some(exclude) = &req.exclude {
         for e in exclude {
-            if let Some(filters) = &e.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in event_filters(ctx, md, &e.event, e.filters.as_ref())? {
+                match filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, &property, md)?)
                     }
                 }
             }
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 96674d3..803ee30 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -51,6 +51,7 @@ use arrow::datatypes::SchemaRef;
 use arrow::datatypes::TimeUnit;
 use arrow2::array::Int128Array;
 use common::group_col;
+use common::query::EventRef;
 use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
@@ -464,6 +465,28 @@ pub async fn execute(
     Ok(res)
 }
 
+/// filters of an event together with the ones of the events it consists of, if it is a custom event
+pub fn event_filters(
+    ctx: &Context,
+    md: &Arc<MetadataProvider>,
+    event: &EventRef,
+    filters: Option<&Vec<PropValueFilter>>,
+) -> Result<Vec<PropValueFilter>> {
+    let mut out = filters.cloned().unwrap_or_default();
+    if let EventRef::Custom(id) = event {
+        for event in &md.custom_events.get_by_id(ctx.project_id, *id)?.events {
+            out.extend(event_filters(
+                ctx,
+                md,
+                &event.event,
+                event.filters.as_ref(),
+            )?);
+        }
+    }
+
+    Ok(out)
+}
+
 pub fn decode_filter_single_dictionary(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
-- 
2.43.0


From c2232570491b94e5f2b7c37701b495fb059c1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 048/130] fix: a user's funnel ends before the next user's row
 is checked, so it is counted

---
 .../aggregate/partitioned/funnel/funnel.rs    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 5385def..6a712b8 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -541,6 +541,20 @@ impl Funnel {
 
             let batch = self.buf.get(&batch_id).unwrap();
             let cur_ts = batch.ts.value(row_id);
+            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
+                group.push_result(&self.filter, &self.time_interval);
+                #[cfg(test)]
+                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
+                group.cur_partition = partitions.value(row_id);
+                self.cur_partition = partitions.value(row_id);
+                group.partition_start = Row {
+                    row_id: 0,
+                    _batch_id: self.batch_id,
+                };
+                group.cur_step = 0;
+                group.skip = false;
+                group.steps_completed = 0;
+            }
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
@@ -590,20 +604,6 @@ impl Funnel {
                 }
             }
 
-            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
-                group.push_result(&self.filter, &self.time_interval);
-                #[cfg(test)]
-                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
-                group.cur_partition = partitions.value(row_id);
-                self.cur_partition = partitions.value(row_id);
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_step = 0;
-                group.skip = false;
-                group.steps_completed = 0;
-            }
             let mut matched = false;
             match &self.steps_orders[group.cur_step] {
                 StepOrder::Exact => {
-- 
2.43.0


From be4fcf3f51ec1de89a4de04055cddbd7b6dd8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 049/130] fix: a unique funnel counts a user once also across
 batches, and per group

---
 .../aggregate/partitioned/funnel/funnel.rs    | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 6a712b8..fb95552 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -279,7 +279,6 @@ pub struct Funnel {
     // groups when group by
     groups: Option<Groups<Group>>,
     cur_partition: i64,
-    skip_partition: bool,
     first: bool,
     // special case for non-group
     single_group: Group,
@@ -356,7 +355,6 @@ impl Funnel {
             time_interval: opts.time_interval.clone(),
             groups: Groups::maybe_from(opts.groups)?,
             cur_partition: 0,
-            skip_partition: false,
             first: true,
             single_group: Group::new(opts.steps.len(), &buckets),
             steps_len: opts.steps.len(),
@@ -503,14 +501,6 @@ impl Funnel {
         let mut row_id = 0;
         let mut batch_id = self.batch_id;
         loop {
-            if self.skip_partition {
-                while self.cur_partition == partitions.value(row_id)
-                    && row_id < batch.num_rows() - 1
-                {
-                    row_id += 1;
-                }
-                self.skip_partition = false;
-            }
             if let Some(exists) = partition_exist {
                 while !exists.contains_key(&partitions.value(row_id))
                     && row_id < batch.num_rows() - 1
@@ -555,6 +545,14 @@ impl Funnel {
                 group.skip = false;
                 group.steps_completed = 0;
             }
+            // the group already counted this partition
+            if group.skip {
+                row_id += 1;
+                if row_id >= batch.len() {
+                    break;
+                }
+                continue;
+            }
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
@@ -636,7 +634,7 @@ impl Funnel {
 
                     let is_completed = group.push_result(&self.filter, &self.time_interval);
                     if is_completed && self.count == Count::Unique {
-                        self.skip_partition = true;
+                        group.skip = true;
                     }
                     group.cur_step = 0;
                     group.steps_completed = 0;
@@ -687,7 +685,6 @@ impl Funnel {
             time_interval: self.time_interval.clone(),
             groups,
             cur_partition: 0,
-            skip_partition: false,
             first: true,
             single_group: Group::new(self.steps_len, &self.buckets),
             steps_len: self.steps_len,
-- 
2.43.0


From f61d048cbcc0a95b501536c72b6f3a5db53f246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 050/130] fix: events excluded between steps are excluded

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs           | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index fb95552..f70057f 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -149,7 +149,6 @@ impl Group {
             if let Some(steps) = &excl.steps {
                 if steps.from <= self.cur_step && steps.to >= self.cur_step {
                     to_check = true;
-                    break;
                 }
             } else {
                 // check anyway
-- 
2.43.0


From 8aeae08149d6878b8673d168042c93f5d9d2ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 051/130] fix: compare held constants with the row that began
 the funnel when it is in an earlier batch

---
 .../aggregate/partitioned/funnel/funnel.rs       | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index f70057f..561696b 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -89,7 +89,7 @@ struct Group {
     _cur_row_id: i64,
     partition_start: Row,
     _partition_len: i64,
-    const_row: Option<Row>,
+    const_row: Option<(Vec<StaticArray>, usize)>,
     cur_step: usize,
     steps: Vec<Step>,
     buckets: HashMap<i64, BucketResult, RandomState>,
@@ -164,11 +164,11 @@ impl Group {
     }
 
     fn check_constants(&self, constants: &[StaticArray], cur_row_id: usize) -> bool {
-        let const_row = self.const_row.as_ref().unwrap();
-        for (const_idx, first_const) in constants.iter().enumerate() {
+        let (first_constants, first_row_id) = self.const_row.as_ref().unwrap();
+        for (const_idx, first_const) in first_constants.iter().enumerate() {
             // compare the const values of current row and first row
             let cur_const = &constants[const_idx];
-            if !first_const.eq_values(const_row.row_id, cur_const, cur_row_id) {
+            if !first_const.eq_values(*first_row_id, cur_const, cur_row_id) {
                 return false;
             }
         }
@@ -578,11 +578,9 @@ impl Funnel {
                 }
             }
             if group.cur_step == 0 {
-                if batch.constants.is_some() {
-                    group.const_row = Some(Row {
-                        row_id,
-                        _batch_id: batch_id,
-                    })
+                if let Some(constants) = &batch.constants {
+                    // the first row may be in an earlier batch than the row compared with it
+                    group.const_row = Some((constants.clone(), row_id))
                 }
             } else {
                 // compare current value with constant
-- 
2.43.0


From 8399690f93c382a899f8f7f3f3f19f8acdf8fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 052/130] fix: hold constants of decimal properties and ones
 without a value

---
 src/query/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 803ee30..80ae796 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -162,7 +162,10 @@ macro_rules! impl_into_static_array {
         impl StaticArray {
     fn eq_values(&self, left_row_id: usize, right:&StaticArray,right_row_id: usize) -> bool {
         match (self,right) {
-             $((StaticArray::$ident(a),StaticArray::$ident(b))=>a.value(left_row_id) == b.value(right_row_id)),+,
+             $((StaticArray::$ident(a),StaticArray::$ident(b))=>match (a.is_null(left_row_id),b.is_null(right_row_id)) {
+                (false,false)=>a.value(left_row_id) == b.value(right_row_id),
+                (left,right)=>left==right,
+             }),+,
             _=>unreachable!()
         }
         }
@@ -170,9 +173,9 @@ macro_rules! impl_into_static_array {
     }
 }
 
-impl_into_static_array!( Int8 Int16 Int32 Int64 Int128 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
+impl_into_static_array!( Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
     TimestampNanosecond TimestampMicrosecond TimestampMillisecond  Time32Second Time32Millisecond  Time64Microsecond Time64Nanosecond DurationSecond DurationMillisecond DurationMicrosecond IntervalYearMonth IntervalDayTime IntervalMonthDayNano Date32 Date64 DurationNanosecond
-    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString);
+    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString Decimal128 Decimal256);
 
 impl From<ArrayRef> for StaticArray {
     fn from(arr: ArrayRef) -> Self {
-- 
2.43.0


From 900a39e9346bf3488679facb29129568cfcd89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 053/130] fix: a funnel step in any order matches a step of any
 of its ranges

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs       | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 561696b..ec36d95 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -607,10 +607,7 @@ impl Funnel {
                 StepOrder::Any(pairs) => {
                     for (from, to) in pairs {
                         for step in *from..=*to {
-                            matched = batch.steps[step].value(row_id);
-                            if matched {
-                                break;
-                            }
+                            matched |= batch.steps[step].value(row_id);
                         }
                     }
                 }
-- 
2.43.0


From d25b969f1f922ce371193c2553bad3f0d29eb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 054/130] fix: months and years of a funnel over time begin
 where its events are counted

---
 .../aggregate/partitioned/funnel/funnel.rs    | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index ec36d95..62fa6d6 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -304,18 +304,16 @@ pub struct Options {
 
 impl Funnel {
     pub fn try_new(opts: Options) -> crate::error::Result<Self> {
-        let buckets = if opts.time_interval.is_some() {
-            let from = date_trunc(&opts.time_interval.clone().unwrap(), opts.from)?;
-            let to = date_trunc(&opts.time_interval.clone().unwrap(), opts.to)?;
-            let mut buckets = (from.timestamp_millis()..=to.timestamp_millis())
-                .step_by(
-                    opts.time_interval
-                        .clone()
-                        .unwrap()
-                        .duration(1)
-                        .num_milliseconds() as usize,
-                )
-                .collect::<Vec<i64>>();
+        let buckets = if let Some(interval) = &opts.time_interval {
+            let from = date_trunc(interval, opts.from)?;
+            let to = date_trunc(interval, opts.to)?;
+            // months and years differ in length
+            let mut buckets = vec![];
+            let mut bucket = from;
+            while bucket <= to {
+                buckets.push(bucket.timestamp_millis());
+                bucket = bucket + interval.relative_duration(1);
+            }
             // case where bucket size is bigger than time range
             if buckets.is_empty() {
                 buckets.push(from.timestamp_millis());
-- 
2.43.0


From 7f7bd4a4a0f55264f1e59aa5859f2c1b2b736095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 055/130] fix: a funnel step whose filter has no value to
 compare is not taken

---
 .../aggregate/partitioned/funnel/mod.rs        | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
index 6d00086..a888bd8 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
@@ -1,8 +1,10 @@
 use std::sync::Arc;
 
+use arrow::array::Array;
 use arrow::array::BooleanArray;
 use arrow::array::Int64Array;
 use arrow::array::TimestampMillisecondArray;
+use arrow::compute::prep_null_mask_filter;
 use arrow::datatypes::Schema;
 use arrow::record_batch::RecordBatch;
 use chrono::Duration;
@@ -111,6 +113,15 @@ impl Batch {
     }
 }
 
+// an expression over a missing value doesn't hold
+fn nulls_to_false(arr: BooleanArray) -> BooleanArray {
+    if arr.null_count() > 0 {
+        prep_null_mask_filter(&arr)
+    } else {
+        arr
+    }
+}
+
 // calculate expressions
 fn evaluate_batch(
     batch: RecordBatch,
@@ -126,13 +137,13 @@ fn evaluate_batch(
         // evaluate expr to bool result
         let arr = expr
             .evaluate(&batch)?
-            .into_array(0)?
+            .into_array(batch.num_rows())?
             .as_any()
             .downcast_ref::<BooleanArray>()
             .unwrap()
             .clone();
         // add steps to state
-        steps.push(arr);
+        steps.push(nulls_to_false(arr));
     }
     // evaluate exclude
     let mut exclude = Some(vec![]);
@@ -141,11 +152,12 @@ fn evaluate_batch(
             let arr = expr
                 .expr
                 .evaluate(&batch)?
-                .into_array(0)?
+                .into_array(batch.num_rows())?
                 .as_any()
                 .downcast_ref::<BooleanArray>()
                 .unwrap()
                 .clone();
+            let arr = nulls_to_false(arr);
             if let Some(exclude) = &mut exclude {
                 let excl = Exclude {
                     exists: arr,
-- 
2.43.0


From f8dfd9236460e8d2eaede182dc4b9df36607cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 056/130] fix: rows without a group record take no part in a
 funnel

---
 .../aggregate/partitioned/funnel/funnel.rs           | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 62fa6d6..3184483 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -3,6 +3,7 @@ use std::result;
 use std::sync::Arc;
 
 use ahash::RandomState;
+use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::Decimal128Builder;
 use arrow::array::Int64Array;
@@ -454,6 +455,9 @@ impl Funnel {
         batch: &RecordBatch,
         partition_exist: Option<&HashMap<i64, (), RandomState>>,
     ) -> crate::Result<()> {
+        if batch.num_rows() == 0 {
+            return Ok(());
+        }
         let funnel_batch = evaluate_batch(
             batch.to_owned(),
             &self.steps_expr,
@@ -498,6 +502,14 @@ impl Funnel {
         let mut row_id = 0;
         let mut batch_id = self.batch_id;
         loop {
+            // rows without a group record belong to no one
+            if partitions.is_null(row_id) {
+                row_id += 1;
+                if row_id >= batch.num_rows() {
+                    break;
+                }
+                continue;
+            }
             if let Some(exists) = partition_exist {
                 while !exists.contains_key(&partitions.value(row_id))
                     && row_id < batch.num_rows() - 1
-- 
2.43.0


From 1776eb4682abb64bc222bc317ef8baddbdf3890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 057/130] fix: the last row of a batch takes part in a funnel
 only if it is in the segment

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 3184483..b2d9aba 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -511,10 +511,12 @@ impl Funnel {
                 continue;
             }
             if let Some(exists) = partition_exist {
-                while !exists.contains_key(&partitions.value(row_id))
-                    && row_id < batch.num_rows() - 1
-                {
+                if !exists.contains_key(&partitions.value(row_id)) {
                     row_id += 1;
+                    if row_id >= batch.num_rows() {
+                        break;
+                    }
+                    continue;
                 }
             }
             let group = if let Some(groups) = &mut self.groups {
-- 
2.43.0


From 1b9b7dc89f0e6c11183741a1c2f52a04b7546e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 058/130] fix: the average time to convert is not a percentage

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index b2d9aba..42b490d 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -794,7 +794,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert as f64 / step.total as f64
                         } else {
                             0.
                         })
@@ -807,7 +807,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert_from_start as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert_from_start as f64 / step.total as f64
                         } else {
                             0.
                         })
-- 
2.43.0


From cf13bfbaad35271265ef2d72b751ef06b2af57de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 059/130] fix: ratios and averages of a funnel follow from the
 totals of all partitions

---
 .../aggregate/partitioned/funnel/funnel.rs    | 106 +++++++++---------
 src/query/src/physical_plan/funnel.rs         |  86 ++++++++------
 2 files changed, 103 insertions(+), 89 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 42b490d..deeedfe 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -69,11 +69,50 @@ struct Row {
 }
 
 #[derive(Debug, Clone, Eq, PartialEq)]
-struct StepResult {
-    total: i64,
-    dropped_off: i64,
-    total_time_to_convert: i64,
-    total_time_to_convert_from_start: i64,
+pub(crate) struct StepResult {
+    pub(crate) total: i64,
+    pub(crate) dropped_off: i64,
+    pub(crate) total_time_to_convert: i64,
+    pub(crate) total_time_to_convert_from_start: i64,
+}
+
+// what follows from the totals of a step, as decimal mantissas
+pub(crate) struct StepRatios {
+    pub(crate) conversion: i128,
+    pub(crate) drop_off: i128,
+    pub(crate) avg_time_to_convert: i128,
+    pub(crate) avg_time_to_convert_from_start: i128,
+}
+
+impl StepResult {
+    pub(crate) fn ratios(&self, step_id: usize, first_total: i64) -> StepRatios {
+        let decimal = |v: f64| {
+            let mut v = Decimal::from_f64(v).unwrap();
+            v.rescale(DECIMAL_SCALE as u32);
+            v
+        };
+        // the first step has no step to convert from
+        let avg = |total_time: i64| {
+            if step_id == 0 || self.total == 0 {
+                decimal(0.)
+            } else {
+                decimal(total_time as f64 / self.total as f64)
+            }
+        };
+        let conversion = if step_id == 0 {
+            decimal(100.)
+        } else if self.total > 0 {
+            decimal(self.total as f64 / first_total as f64 * 100.)
+        } else {
+            decimal(0.)
+        };
+        StepRatios {
+            conversion: conversion.mantissa(),
+            drop_off: decimal(100. - conversion.to_f64().unwrap()).mantissa(),
+            avg_time_to_convert: avg(self.total_time_to_convert).mantissa(),
+            avg_time_to_convert_from_start: avg(self.total_time_to_convert_from_start).mantissa(),
+        }
+    }
 }
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -763,58 +802,13 @@ impl Funnel {
             for bucket in buckets.values() {
                 for (step_id, step) in bucket.steps.iter().enumerate() {
                     step_total[step_id].append_value(step.total);
-                    let mut scr = if step_id == 0 {
-                        Decimal::from_f64(100.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.total as f64 / bucket.steps[0].total as f64 * 100.
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    scr.rescale(DECIMAL_SCALE as u32);
-                    step_conversion_ratio[step_id].append_value(scr.mantissa());
+                    let ratios = step.ratios(step_id, bucket.steps[0].total);
+                    step_conversion_ratio[step_id].append_value(ratios.conversion);
                     step_dropped_off[step_id].append_value(step.dropped_off);
-                    let mut v = if step_id == 0 {
-                        Decimal::from_f64(0.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.dropped_off as f64 / step.total as f64 * 100.
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    v.rescale(DECIMAL_SCALE as u32);
-                    let mut dor = Decimal::from_f64(100. - scr.to_f64().unwrap()).unwrap();
-                    dor.rescale(DECIMAL_SCALE as u32);
-                    step_drop_off_ratio[step_id].append_value(dor.mantissa());
-                    let mut v = if step_id == 0 {
-                        Decimal::from_f64(0.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert as f64 / step.total as f64
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    v.rescale(DECIMAL_SCALE as u32);
-                    step_avg_time_to_convert[step_id].append_value(v.mantissa());
-
-                    let mut v = if step_id == 0 {
-                        Decimal::from_f64(0.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert_from_start as f64 / step.total as f64
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    v.rescale(DECIMAL_SCALE as u32);
-                    step_avg_time_to_convert_from_start[step_id].append_value(v.mantissa());
+                    step_drop_off_ratio[step_id].append_value(ratios.drop_off);
+                    step_avg_time_to_convert[step_id].append_value(ratios.avg_time_to_convert);
+                    step_avg_time_to_convert_from_start[step_id]
+                        .append_value(ratios.avg_time_to_convert_from_start);
 
                     step_time_to_convert[step_id].append_value(step.total_time_to_convert);
                     step_time_to_convert_from_start[step_id]
diff --git a/src/query/src/physical_plan/funnel.rs b/src/query/src/physical_plan/funnel.rs
index 0db852a..cdca3c6 100644
--- a/src/query/src/physical_plan/funnel.rs
+++ b/src/query/src/physical_plan/funnel.rs
@@ -57,18 +57,63 @@ use futures::StreamExt;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::funnel::Funnel;
+use crate::physical_plan::expressions::aggregate::partitioned::funnel::funnel::StepResult;
+
+// columns of a step that add up over partitions
+const TOTALS: [&str; 4] = [
+    "total",
+    "dropped_off",
+    "time_to_convert",
+    "time_to_convert_from_start",
+];
+
+// complete the totals of each step with the ratios and averages that follow from them
+fn step_columns(arrs: Vec<ArrayRef>, groups: usize, steps: usize) -> Vec<ArrayRef> {
+    let totals = arrs[groups..]
+        .iter()
+        .map(|arr| arr.as_any().downcast_ref::<Int64Array>().unwrap())
+        .collect::<Vec<_>>();
+    let decimals = |ratio: &dyn Fn(usize) -> i128| {
+        Arc::new(
+            Decimal128Array::from_iter_values((0..totals[0].len()).map(ratio))
+                .with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE)
+                .unwrap(),
+        ) as ArrayRef
+    };
+    let mut out = arrs[..groups].to_vec();
+    for step in 0..steps {
+        let step_totals = &totals[step * TOTALS.len()..(step + 1) * TOTALS.len()];
+        let ratios = |row: usize| {
+            StepResult {
+                total: step_totals[0].value(row),
+                dropped_off: step_totals[1].value(row),
+                total_time_to_convert: step_totals[2].value(row),
+                total_time_to_convert_from_start: step_totals[3].value(row),
+            }
+            .ratios(step, totals[0].value(row))
+        };
+        let step_arrs = &arrs[groups + step * TOTALS.len()..];
+        out.push(step_arrs[0].clone());
+        out.push(decimals(&|row| ratios(row).conversion));
+        out.push(decimals(&|row| ratios(row).avg_time_to_convert));
+        out.push(decimals(&|row| ratios(row).avg_time_to_convert_from_start));
+        out.push(step_arrs[1].clone());
+        out.push(decimals(&|row| ratios(row).drop_off));
+        out.push(step_arrs[2].clone());
+        out.push(step_arrs[3].clone());
+    }
+    out
+}
 
 #[derive(Debug, Clone)]
 enum Agg {
     Sum(i128),
-    Avg(i128, i128),
 }
 
 impl Agg {
     pub fn result(&self) -> i128 {
         match self {
             Agg::Sum(sum) => *sum,
-            Agg::Avg(sum, count) => *sum / *count,
         }
     }
 }
@@ -188,19 +233,11 @@ fn aggregate(
                     Agg::Sum(sum) => {
                         *sum += arr.value(row_id) as i128;
                     }
-                    Agg::Avg(sum, count) => {
-                        *sum += arr.value(row_id) as i128;
-                        *count += 1;
-                    }
                 },
                 StaticArray::Decimal(arr) => match agg {
                     Agg::Sum(sum) => {
                         *sum += arr.value(row_id);
                     }
-                    Agg::Avg(sum, count) => {
-                        *sum += arr.value(row_id);
-                        *count += 1;
-                    }
                 },
             }
         }
@@ -687,28 +724,10 @@ impl Stream for FinalFunnelStream {
 
         let mut aggs = vec![];
         for i in 0..self.steps {
-            let cname = format!("step{}_total", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
-
-            let cname = format!("step{}_conversion_ratio", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_avg_time_to_convert", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_avg_time_to_convert_from_start", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_dropped_off", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
-
-            let cname = format!("step{}_drop_off_ratio", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_time_to_convert", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
-            let cname = format!("step{}_time_to_convert_from_start", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
+            for total in TOTALS {
+                let cname = format!("step{i}_{total}");
+                aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
+            }
         }
         let groups = self
             .schema
@@ -726,7 +745,8 @@ impl Stream for FinalFunnelStream {
         let final_batch = concat_batches(&self.schema, &self.final_batches.borrow().to_vec())?;
         let agg_arrs = aggregate(&final_batch, groups, aggs)
             .map_err(QueryError::into_datafusion_execution_error)?;
-        let result = RecordBatch::try_new(self.schema.clone(), agg_arrs)?;
+        let arrs = step_columns(agg_arrs, self.groups + 2, self.steps);
+        let result = RecordBatch::try_new(self.schema.clone(), arrs)?;
         self.finished = true;
         Poll::Ready(Some(Ok(result)))
     }
-- 
2.43.0


From 64a884ef16f6a5f7688233da8e99d15ab03acacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 060/130] fix: a funnel with a custom event as a step is named
 after it instead of panicking

---
 src/query/src/funnel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index d23aa15..fe91564 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -196,7 +196,9 @@ impl FunnelProvider {
             let name = match &step.events[0].event {
                 EventRef::RegularName(n) => n.clone(),
                 EventRef::Regular(id) => self.metadata.events.get_by_id(ctx.project_id, *id)?.name,
-                EventRef::Custom(_) => unimplemented!(),
+                EventRef::Custom(id) => {
+                    self.metadata.custom_events.get_by_id(ctx.project_id, *id)?.name
+                }
             };
             let mut step = Step {
                 step: name.clone(),
-- 
2.43.0


From 5dcc0adfb746d1e6393edacd5535a23646ff5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 061/130] fix: break a funnel down by a decoded column or one
 with narrow keys

---
 src/query/src/funnel.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index fe91564..2711df6 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -34,6 +34,7 @@ use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_expr::and;
 use datafusion_expr::col;
+use datafusion_expr::ExprSchemable;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter as PlanFilter;
 use datafusion_expr::LogicalPlan;
@@ -366,9 +367,9 @@ pub fn build(
                 relation: None,
                 name: prop.column_name(),
             });
-            out.push((expr, prop.column_name(), SortField {
-                data_type: prop.data_type(),
-            }))
+            // the column may be decoded already, or hold keys of any width
+            let data_type = expr.get_type(input.schema())?;
+            out.push((expr, prop.column_name(), SortField { data_type }))
         }
         Some(out)
     } else {
-- 
2.43.0


From 9fcfaf2b81a6bf8bd7f27b2bee41206877cd31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 062/130] fix: a funnel shows no number where a decimal
 dimension has no value

---
 src/query/src/funnel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 2711df6..f3218b4 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -142,6 +142,10 @@ impl FunnelProvider {
                             .unwrap();
                         let mut builder = StringBuilder::new();
                         for i in 0..arr.len() {
+                            if arr.is_null(i) {
+                                builder.append_null();
+                                continue;
+                            }
                             let v = arr.value(i);
                             let vv = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
                                 .round_dp(ROUND_DIGITS.into());
-- 
2.43.0


From fa45bc35db85af6e3b314ff268068f43146232e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 063/130] fix: a record shows null for a property without value

---
 src/query/src/event_records.rs | 51 +---------------------------------
 src/query/src/group_records.rs | 51 +---------------------------------
 2 files changed, 2 insertions(+), 100 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 255e383..aeb2e2d 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::EventRef;
 use common::query::PropValueFilter;
@@ -24,8 +14,6 @@ use common::types::COLUMN_PROJECT_ID;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use common::GROUPS_COUNT;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
@@ -121,44 +109,7 @@ impl EventRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
+                let value = ScalarValue::try_from_array(col, 0)?;
 
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 2ad3c1c..4f9e48f 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::PropValueFilter;
 use common::query::PropertyRef;
@@ -23,8 +13,6 @@ use common::types::GROUP_COLUMN_PROJECT_ID;
 use common::types::GROUP_COLUMN_VERSION;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
@@ -112,44 +100,7 @@ impl GroupRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
+                let value = ScalarValue::try_from_array(col, 0)?;
 
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
-- 
2.43.0


From 70317d179a338a4dbc895878239de1e0b23fffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 064/130] fix: a record which does not exist is not found
 instead of a panic

---
 src/query/src/event_records.rs | 4 ++++
 src/query/src/group_records.rs | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index aeb2e2d..fd6be79 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -31,6 +31,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::properties::Type;
 use metadata::MetadataProvider;
@@ -86,6 +87,9 @@ impl EventRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"event_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        if result.num_rows() == 0 {
+            return Err(MetadataError::NotFound(format!("event record {id} not found")).into());
+        }
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 4f9e48f..93cb714 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -28,6 +28,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -75,7 +76,7 @@ impl GroupRecordsProvider {
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
         let (session_ctx, state, plan) = initial_plan(&self.db, group_col(group_id), projection)?;
-        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
+        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id.clone())?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
@@ -85,6 +86,9 @@ impl GroupRecordsProvider {
             .record(elapsed);
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"group_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
+        if result.num_rows() == 0 {
+            return Err(MetadataError::NotFound(format!("group record {id} not found")).into());
+        }
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
-- 
2.43.0


From 64e14737031f02d7338562ebada97730d59c5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 065/130] fix: columns of event records are described by their
 own properties when the event id is added

---
 src/query/src/event_records.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index fd6be79..f25dd5b 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -282,6 +282,10 @@ pub fn build_search_plan(
                 exprs.to_vec(),
             ]
             .concat();
+            let event_id = metadata
+                .event_properties
+                .get_by_column_name(ctx.project_id, COLUMN_EVENT_ID)?;
+            properties.insert(0, event_id);
         }
         LogicalPlan::Projection(Projection::try_new(exprs.clone(), Arc::new(input))?)
     };
-- 
2.43.0


From 24b8db802818b3386b9e86ec07cad05ea3f0eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 066/130] fix: records without chosen properties show the
 columns of the project, each with its property

---
 src/query/src/event_records.rs | 24 +++++++++++++++---------
 src/query/src/group_records.rs | 20 ++++++++++++++------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index f25dd5b..2d6e67c 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -212,6 +212,21 @@ pub fn build_search_plan(
                 name: p.column_name(),
             }));
         }
+    } else {
+        // all the columns of the project, the table has columns of other projects as well
+        let mut list = metadata.event_properties.list(ctx.project_id)?.data;
+        for g in 0..GROUPS_COUNT {
+            list.append(&mut metadata.group_properties[g].list(ctx.project_id)?.data);
+        }
+        for field in input.schema().fields() {
+            if let Some(p) = list.iter().find(|p| p.column_name() == *field.name()) {
+                properties.push(p.clone());
+                exprs.push(col(Column {
+                    relation: None,
+                    name: p.column_name(),
+                }));
+            }
+        }
     };
 
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
@@ -315,15 +330,6 @@ pub fn build_search_plan(
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.event_properties.list(ctx.project_id)?.data;
-        properties.append(&mut (l));
-        for g in 0..GROUPS_COUNT {
-            let mut l = metadata.group_properties[g].list(ctx.project_id)?.data;
-            properties.append(&mut (l));
-        }
-    }
-
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 93cb714..8c7878c 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -204,6 +204,20 @@ pub fn build_search_plan(
                 name: p.column_name(),
             }));
         }
+    } else {
+        // all the columns of the project, the table has columns of other projects as well
+        let list = metadata.group_properties[req.group_id]
+            .list(ctx.project_id)?
+            .data;
+        for field in input.schema().fields() {
+            if let Some(p) = list.iter().find(|p| p.column_name() == *field.name()) {
+                properties.push(p.clone());
+                exprs.push(col(Column {
+                    relation: None,
+                    name: p.column_name(),
+                }));
+            }
+        }
     };
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = project_plan(&ctx, GROUP_COLUMN_PROJECT_ID, input)?;
@@ -257,12 +271,6 @@ pub fn build_search_plan(
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.group_properties[req.group_id]
-            .list(ctx.project_id)?
-            .data;
-        properties.append(&mut (l));
-    }
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
-- 
2.43.0


From cf7e589edbe0c2cdef68443bad025c1ef66341e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 067/130] fix: group records are sorted by a property which is
 not shown

---
 src/query/src/group_records.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 8c7878c..c287436 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -243,12 +243,6 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
-    };
-
     let input = if let Some((prop, sort)) = &req.sort {
         let s = Expr::Sort(expr::Sort {
             expr: Box::new(property_col(&ctx, &metadata, prop)?),
@@ -265,6 +259,12 @@ pub fn build_search_plan(
         input
     };
 
+    let input = if exprs.is_empty() {
+        input
+    } else {
+        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
+    };
+
     let input = LogicalPlan::Limit(Limit {
         skip: 0,
         fetch: Some(100),
@@ -444,6 +444,9 @@ fn projection(
     for prop in req.properties.clone().unwrap() {
         fields.push(col_name(ctx, &prop, md)?);
     }
+    if let Some((prop, _)) = &req.sort {
+        fields.push(col_name(ctx, prop, md)?);
+    }
 
     Ok(fields)
 }
-- 
2.43.0


From 0ad7cfa43fa6779af7d88fd1deab201e42eebb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 068/130] fix: values of a property of a custom event with
 filters

---
 src/query/src/properties.rs | 47 ++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 5f6404d..002cdf5 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 use arrow::array::ArrayRef;
 use common::group_col;
 use common::query::EventRef;
+use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
 use common::types::COLUMN_EVENT;
@@ -37,13 +38,16 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
+use crate::event_filters;
 use crate::execute;
 use crate::expr::event_expression;
 use crate::expr::property_expression;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
+use crate::project_plan;
 use crate::Context;
 
 pub struct PropertiesProvider {
@@ -60,10 +64,12 @@ impl PropertiesProvider {
         let start = Instant::now();
         let schema = self.db.schema1(TABLE_EVENTS)?;
         let projection = projection(&ctx, &req, &self.metadata)?;
-        let projection = projection
+        let mut projection = projection
             .iter()
             .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .collect::<Vec<_>>();
+        projection.sort();
+        projection.dedup();
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = LogicalPlanBuilder::build(ctx, self.metadata.clone(), plan, req.clone())?;
@@ -84,7 +90,7 @@ impl PropertiesProvider {
 pub struct LogicalPlanBuilder {}
 
 macro_rules! property_col {
-    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr) => {{
+    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr,$decoded:expr) => {{
         let col_name = $prop.column_name();
         let expr = col(col_name.as_str());
         let _aggr_schema = DFSchema::new_with_metadata(
@@ -95,7 +101,7 @@ macro_rules! property_col {
         let input = LogicalPlan::Aggregate(agg_fn);
 
         match $prop.dictionary_type {
-            Some(_) => {
+            Some(_) if !$decoded.contains_key(&col_name) => {
                 let dict = SingleDictionaryProvider::new(
                     $ctx.project_id,
                     $tbl,
@@ -110,7 +116,7 @@ macro_rules! property_col {
                     )])?),
                 })
             }
-            None => input,
+            _ => input,
         }
     }};
 }
@@ -128,7 +134,24 @@ impl LogicalPlanBuilder {
             lit(ScalarValue::from(ctx.project_id as i64)),
         );
 
+        let mut cols_hash: HashMap<String, ()> = HashMap::new();
+        let mut input = project_plan(&ctx, COLUMN_PROJECT_ID, input)?;
         if let Some(event) = &req.event {
+            let mut decode_cols = vec![];
+            for filter in &event_filters(&ctx, &metadata, event, None)? {
+                decode_filter_single_dictionary(
+                    &ctx,
+                    &metadata,
+                    &mut cols_hash,
+                    &mut decode_cols,
+                    filter,
+                )?;
+            }
+            if !decode_cols.is_empty() {
+                input = LogicalPlan::Extension(Extension {
+                    node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols)?),
+                });
+            }
             expr = and(expr, event_expression(&ctx, &metadata, input.schema(), event)?);
         }
 
@@ -140,7 +163,7 @@ impl LogicalPlanBuilder {
                     metadata.group_properties[*group].get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, group_col(*group), input, prop),
+                    property_col!(ctx, metadata, group_col(*group), input, prop, cols_hash),
                     col_name,
                 )
             }
@@ -150,7 +173,7 @@ impl LogicalPlanBuilder {
                     .get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop),
+                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop, cols_hash),
                     col_name,
                 )
             }
@@ -216,6 +239,14 @@ fn projection(
 ) -> Result<Vec<String>> {
     let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
     fields.push(col_name(ctx, &req.property, md)?);
-    fields.dedup();
+    if let Some(event) = &req.event {
+        for filter in event_filters(ctx, md, event, None)? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
+                }
+            }
+        }
+    }
     Ok(fields)
 }
-- 
2.43.0


From a215eb15b4daf7f4f27471a68dbafbc6839e47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 069/130] fix: asking for a compaction does not end the
 compactor

---
 src/storage/src/compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 216203f..b7d1c4e 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -96,7 +96,7 @@ impl Compactor {
                             drop(dropper);
                             break;
                         }
-                        _ => unreachable!(),
+                        CompactorMessage::Compact => {}
                     },
                     Err(TryRecvError::Disconnected) => {
                         break;
-- 
2.43.0


From 68f8ea97ebb2b0332c5c650ab724011b6ce32352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 070/130] fix: an event with a user and an anonymous id belongs
 to the user

---
 src/ingester/src/executor.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..8d1677a 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,15 +167,23 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(user_id), Some(anonymous_id)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
-                    aid.as_str(),
-                    uid.as_str(),
+                    anonymous_id.as_str(),
+                    user_id.as_str(),
                     vec![],
                 )?;
-                (group.id, None)
+                self.md.dictionaries.create_key(
+                    ctx.project_id.unwrap(),
+                    TABLE_EVENTS,
+                    group_col(GROUP_USER_ID).as_str(),
+                    group.id,
+                    user_id.as_str(),
+                )?;
+
+                (group.id, Some(group))
             }
             _ => {
                 return Err(IngesterError::BadRequest(
-- 
2.43.0


From 5fdcf1a8df832f22f4e9454ccc17ed76536c30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 071/130] fix: the properties of a user are attached to events
 without other groups

---
 src/ingester/src/executor.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 8d1677a..d458f4d 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -194,13 +194,12 @@ impl Executor<Track> {
 
         req.resolved_user_id = Some(user_id as i64);
 
+        let mut resolved_groups = vec![];
+        // add user as a first group
+        if let Some(user_group) = user_group {
+            resolved_groups.push((0, user_group));
+        }
         if let Some(groups) = &req.group_values {
-            let mut resolved_groups = vec![];
-            // add user as a first group
-            if let Some(user_group) = user_group {
-                resolved_groups.push((0, user_group));
-            }
-
             for (group_name, group_val) in groups {
                 let group = self.md.groups.get_or_create_group(
                     ctx.project_id.unwrap(),
@@ -222,6 +221,8 @@ impl Executor<Track> {
                 )?;
                 resolved_groups.push((group.id as usize, resolved_group_values));
             }
+        }
+        if !resolved_groups.is_empty() {
             req.resolved_group_values = Some(resolved_groups);
         }
         let event_req = CreateEventRequest {
-- 
2.43.0


From 8c20cfc594b397bc47bd6f0d5abd3c4dc79acc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 072/130] fix: dictionary values of a group property are kept
 with its own table

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index d458f4d..c34df82 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -316,7 +316,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From c533963a49d4bff406846ce2b197395f303a65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 073/130] fix: session events are dated in milliseconds like
 all others

---
 src/cmd/src/lib.rs                           | 2 +-
 src/ingester/src/destinations/local/track.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 1ada380..2ebe804 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -397,7 +397,7 @@ fn init_session_cleaner(
                             vec![
                                 NamedValue::new(
                                     COLUMN_CREATED_AT.to_string(),
-                                    Value::Timestamp(Some(now.timestamp())),
+                                    Value::Timestamp(Some(now.timestamp_millis())),
                                 ),
                                 NamedValue::new(
                                     COLUMN_EVENT_ID.to_string(),
diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From 6e377474f0acaae4d67252979f342ba90f1fd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 074/130] fix: a rejected event does not start a session

---
 src/ingester/src/destinations/local/track.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index 9641450..a040684 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -43,13 +43,6 @@ impl Local {
 
 impl Destination<Track> for Local {
     fn send(&self, ctx: &RequestContext, req: Track) -> Result<()> {
-        let ts = Utc::now();
-        let is_new_session = self.md.sessions.set_current_time(
-            ctx.project_id.unwrap(),
-            req.resolved_user_id.unwrap() as u64,
-            ts,
-        )?;
-
         // fill group id for each of GROUPS_COUNT groups
         let groups = if let Some(groups) = &req.resolved_group_values {
             let mut found = HashMap::new();
@@ -210,6 +203,13 @@ impl Destination<Track> for Local {
         } else {
             vec![]
         };
+        // the session starts only once the event is known to be valid
+        let ts = Utc::now();
+        let is_new_session = self.md.sessions.set_current_time(
+            ctx.project_id.unwrap(),
+            req.resolved_user_id.unwrap() as u64,
+            ts,
+        )?;
         if is_new_session {
             let record_id = self
                 .md
-- 
2.43.0


From 9860f181d5f40d81ac850053a0d4dc2daaca37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 075/130] fix: events and groups may have properties which are
 dates

---
 src/ingester/src/executor.rs | 2 +-
 src/ingester/src/lib.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index c34df82..f11efcc 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..879a7e2 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -125,7 +125,7 @@ fn property_to_value(
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
                 return Err(IngesterError::Internal(
                     "property should be a string".to_string(),
-- 
2.43.0


From 4f2ff8dbed3c1d6bf1cfb5ad3c3d25feee093f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 076/130] fix: a number out of range is rejected, not a panic
 that ends ingestion

---
 src/ingester/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 879a7e2..19d6071 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -91,6 +91,10 @@ pub enum PropValue {
     Bool(bool),
 }
 
+fn out_of_range(v: &Decimal) -> IngesterError {
+    IngesterError::BadRequest(format!("number {v} is out of range"))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -119,10 +123,18 @@ fn property_to_value(
     } else {
         match (&prop.property.data_type, &prop.value) {
             (DType::String, PropValue::String(v)) => Value::String(Some(v.to_owned())),
-            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().unwrap())), /* todo change to mantissa */
-            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
-            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
-            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
+            (DType::Int8, PropValue::Number(v)) => {
+                Value::Int8(Some(v.to_i8().ok_or_else(|| out_of_range(v))?))
+            } /* todo change to mantissa */
+            (DType::Int16, PropValue::Number(v)) => {
+                Value::Int16(Some(v.to_i16().ok_or_else(|| out_of_range(v))?))
+            }
+            (DType::Int32, PropValue::Number(v)) => {
+                Value::Int32(Some(v.to_i32().ok_or_else(|| out_of_range(v))?))
+            }
+            (DType::Int64, PropValue::Number(v)) => {
+                Value::Int64(Some(v.to_i64().ok_or_else(|| out_of_range(v))?))
+            }
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
-- 
2.43.0


From 5bffa7a46d517eab74c1a549e755b823ddb4bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 077/130] fix: numbers are stored with the scale of their
 column

---
 src/ingester/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 19d6071..b7a3928 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::DECIMAL_PRECISION;
+use common::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -95,6 +97,15 @@ fn out_of_range(v: &Decimal) -> IngesterError {
     IngesterError::BadRequest(format!("number {v} is out of range"))
 }
 
+// decimals are stored with DECIMAL_SCALE digits after the point
+fn decimal_to_i128(v: &Decimal) -> Result<i128> {
+    let v = v.round_dp(DECIMAL_SCALE as u32);
+    v.mantissa()
+        .checked_mul(10i128.pow(DECIMAL_SCALE as u32 - v.scale()))
+        .filter(|m| m.unsigned_abs() < 10u128.pow(DECIMAL_PRECISION as u32))
+        .ok_or_else(|| out_of_range(&v))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -135,7 +146,7 @@ fn property_to_value(
             (DType::Int64, PropValue::Number(v)) => {
                 Value::Int64(Some(v.to_i64().ok_or_else(|| out_of_range(v))?))
             }
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(decimal_to_i128(v)?)),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
-- 
2.43.0


From 240eb74c2702d45dedcdda8427d568aad6d349ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 078/130] fix: an organization's owner reaches only the
 projects of that organization

---
 src/platform/src/context.rs  | 28 +++++++++++++++++++++++-----
 src/platform/src/http/mod.rs |  1 +
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/context.rs b/src/platform/src/context.rs
index 7ca36ff..9680169 100644
--- a/src/platform/src/context.rs
+++ b/src/platform/src/context.rs
@@ -31,6 +31,8 @@ pub struct Context {
     pub force_update_email: bool,
     pub role: Option<Role>,
     pub organizations: Option<Vec<(u64, OrganizationRole)>>,
+    // projects that belong to the organization of the request
+    pub organization_projects: Vec<u64>,
     pub projects: Option<Vec<(u64, ProjectRole)>>,
     pub teams: Option<Vec<(u64, Role)>>,
 }
@@ -102,11 +104,14 @@ impl Context {
         if self.check_permission(Permission::ManageProjects).is_ok() {
             return Ok(());
         }
-        if let Ok(role) = self.get_organization_role(org_id) {
-            match role {
-                OrganizationRole::Owner => return Ok(()),
-                OrganizationRole::Admin => return Ok(()),
-                OrganizationRole::Member => {}
+        // a role in an organization says nothing about projects of another one
+        if org_id == self.organization_id && self.organization_projects.contains(&project_id) {
+            if let Ok(role) = self.get_organization_role(org_id) {
+                match role {
+                    OrganizationRole::Owner => return Ok(()),
+                    OrganizationRole::Admin => return Ok(()),
+                    OrganizationRole::Member => {}
+                }
             }
         }
 
@@ -179,7 +184,19 @@ where S: Send + Sync
                 .await
                 .map_err(|err| PlatformError::Internal(err.to_string()))?;
 
+        let Extension(md_proj_prov) =
+            Extension::<Arc<metadata::projects::Projects>>::from_request_parts(parts, state)
+                .await
+                .map_err(|err| PlatformError::Internal(err.to_string()))?;
+
         let acc = md_acc_prov.get_by_id(claims.account_id)?;
+        let organization_projects = md_proj_prov
+            .list()?
+            .data
+            .iter()
+            .filter(|project| project.organization_id == claims.organization_id)
+            .map(|project| project.id)
+            .collect();
         let ctx = Context {
             account_id: acc.id,
             organization_id: claims.organization_id,
@@ -187,6 +204,7 @@ where S: Send + Sync
             force_update_email: acc.force_update_email,
             role: acc.role,
             organizations: acc.organizations,
+            organization_projects,
             projects: acc.projects,
             teams: acc.teams,
         };
diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 101ac02..0e768a4 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -79,6 +79,7 @@ pub fn attach_routes(
         .layer(Extension(platform.backups.clone()))
         .layer(Extension(platform.settings.clone()))
         .layer(Extension(md.accounts.clone()))
+        .layer(Extension(md.projects.clone()))
         .layer(Extension(md.settings.clone()))
         .layer(Extension(platform.accounts.clone()))
         .layer(Extension(platform.auth.clone()))
-- 
2.43.0


From af98ff36c9096bdaf1997b1bb985337ad9a80e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 079/130] fix: an event can be asked for by its name

---
 src/platform/src/http/events.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/platform/src/http/events.rs b/src/platform/src/http/events.rs
index 0837c3c..064b794 100644
--- a/src/platform/src/http/events.rs
+++ b/src/platform/src/http/events.rs
@@ -38,8 +38,7 @@ async fn get_by_id(
 async fn get_by_name(
     ctx: Context,
     Extension(provider): Extension<Arc<Events>>,
-    Path(project_id): Path<u64>,
-    Path(event_name): Path<String>,
+    Path((project_id, event_name)): Path<(u64, String)>,
 ) -> Result<Json<Event>> {
     Ok(Json(
         provider.get_by_name(ctx, project_id, &event_name).await?,
-- 
2.43.0


From c531d79a5ffcf7a0236763dd83c5d83cb830a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 080/130] fix: a group's property is the one of the group in
 the path

---
 src/platform/src/http/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index c906d5e..8ad8c1e 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -29,7 +29,7 @@ async fn get_event_by_id(
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
-    Path((project_id, property_id, group_id)): Path<(u64, u64, usize)>,
+    Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
         provider.groups[group_id]
-- 
2.43.0


From 6cae433a3b27f989a8ce06cc21039984ccd5d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 081/130] fix: a group that does not exist is no panic

---
 src/platform/src/http/mod.rs        |  9 +++++++++
 src/platform/src/http/properties.rs | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 0e768a4..5e0bb7d 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -32,6 +32,7 @@ use tower_http::services::ServeFile;
 use tower_http::trace::TraceLayer;
 
 use crate::properties::Properties;
+use crate::PlatformError;
 use crate::PlatformProvider;
 
 pub struct Service {}
@@ -42,6 +43,14 @@ pub struct PropertiesLayer {
     groups: Vec<Arc<Properties>>,
 }
 
+impl PropertiesLayer {
+    pub fn group(&self, group_id: usize) -> crate::Result<&Arc<Properties>> {
+        self.groups
+            .get(group_id)
+            .ok_or_else(|| PlatformError::NotFound(format!("group {group_id} not found")))
+    }
+}
+
 pub fn attach_routes(
     mut router: Router,
     md: &Arc<MetadataProvider>,
diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index 8ad8c1e..f4685cc 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -32,7 +32,8 @@ async fn get_group_by_id(
     Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider
+            .group(group_id)?
             .get_by_id(ctx, project_id, property_id)
             .await?,
     ))
@@ -57,7 +58,8 @@ async fn get_group_by_name(
     Path((project_id, group_id, prop_name)): Path<(u64, usize, String)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider
+            .group(group_id)?
             .get_by_name(ctx, project_id, &prop_name)
             .await?,
     ))
@@ -76,7 +78,9 @@ async fn list_group(
     Extension(provider): Extension<PropertiesLayer>,
     Path((project_id, group_id)): Path<(u64, usize)>,
 ) -> Result<Json<ListResponse<Property>>> {
-    Ok(Json(provider.groups[group_id].list(ctx, project_id).await?))
+    Ok(Json(
+        provider.group(group_id)?.list(ctx, project_id).await?,
+    ))
 }
 
 async fn update_event(
@@ -100,7 +104,8 @@ async fn update_group(
     Json(request): Json<UpdatePropertyRequest>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider
+            .group(group_id)?
             .update(ctx, project_id, prop_id, request)
             .await?,
     ))
@@ -122,7 +127,8 @@ async fn delete_group(
     Path((project_id, group_id, prop_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider
+            .group(group_id)?
             .delete(ctx, project_id, prop_id)
             .await?,
     ))
-- 
2.43.0


From a6c996e1e585233f9ce5a015f27380e95ba520a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 082/130] fix: an account is updated by the fields that are
 given

---
 src/platform/src/accounts.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..9e83618 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -162,13 +162,22 @@ pub struct CreateAccountRequest {
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub struct UpdateAccountRequest {
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub salt: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub password: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub email: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub name: OptionalProperty<Option<String>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub force_update_password: OptionalProperty<bool>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub role: OptionalProperty<Option<Role>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub organizations: OptionalProperty<Option<Vec<(u64, OrganizationRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub projects: OptionalProperty<Option<Vec<(u64, ProjectRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub teams: OptionalProperty<Option<Vec<(u64, Role)>>>,
 }
-- 
2.43.0


From 6e526c862b42c0892e6a868d8cf95d531d08633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 083/130] fix: an account can be told to change its password

---
 src/platform/src/accounts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 9e83618..c99b44e 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -75,6 +75,7 @@ impl Accounts {
             organizations: req.organizations,
             projects: req.projects,
             teams: req.teams,
+            force_update_password: req.force_update_password,
             ..Default::default()
         };
         if let OptionalProperty::Some(password) = req.password {
-- 
2.43.0


From 32f345117d3b51d19e560c7abbc608ef361ab91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 084/130] fix: a password repeated wrongly is not signed up
 with

---
 src/platform/src/auth/provider.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 7055321..4757750 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -60,6 +60,13 @@ impl Auth {
             return Err(PlatformError::invalid_field("email", "invalid email"));
         }
 
+        if req.password != req.password_repeat {
+            return Err(PlatformError::invalid_field(
+                "password_repeat",
+                "passwords do not match",
+            ));
+        }
+
         check_password_complexity(&req.password, &[req.email.as_str()])?;
 
         let password_hash = make_password_hash(req.password.as_str())
-- 
2.43.0


From 8ccb8e7cbb9acd872e5136fdeda8d77d6709650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 085/130] fix: the email that is set is a valid one

---
 src/platform/src/auth/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 4757750..56c6928 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -306,6 +306,9 @@ impl Auth {
         if !account.force_update_email {
             return Err(PlatformError::Forbidden("forbidden".to_string()));
         }
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
         let md_req = UpdateAccountRequest {
             updated_by: ctx.account_id,
             name: OptionalProperty::None,
-- 
2.43.0


From 42c9916e04e7c946e1dfc16188fc36d4a0d3bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 086/130] fix: an organization that is gone does not keep its
 accounts from logging in

---
 src/platform/src/auth/provider.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 56c6928..8f107c8 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -119,11 +119,10 @@ impl Auth {
 
         // if org_id is provided, check if the account is a member of the org
         let org_id = if let Some(org_id) = org_id {
-            let org = self.md.organizations.get_by_id(org_id)?;
-            if !org.is_member(account.id) {
-                0
-            } else {
-                org.id
+            match self.md.organizations.get_by_id(org_id) {
+                Ok(org) if org.is_member(account.id) => org.id,
+                Ok(_) | Err(MetadataError::NotFound(_)) => 0,
+                Err(err) => return Err(err.into()),
             }
         } else {
             // find first organization
-- 
2.43.0


From 2081be45929846c2166c7b8e081db97a18d2f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 087/130] fix: a log in finds the organization the account was
 given a role in

---
 src/platform/src/auth/provider.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 8f107c8..44dc45d 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -7,6 +7,7 @@ use common::ADMIN_ID;
 use metadata::accounts::CreateAccountRequest;
 use metadata::accounts::UpdateAccountRequest;
 use metadata::error::MetadataError;
+use metadata::organizations::Organization;
 use metadata::MetadataProvider;
 use password_hash::PasswordHash;
 use serde::Deserialize;
@@ -117,17 +118,27 @@ impl Auth {
         )
         .map_err(|_err| AuthError::InvalidCredentials)?;
 
+        // a role in an organization may be recorded on either side
+        let is_member = |org: &Organization| {
+            org.is_member(account.id)
+                || account
+                    .organizations
+                    .iter()
+                    .flatten()
+                    .any(|(org_id, _)| *org_id == org.id)
+        };
+
         // if org_id is provided, check if the account is a member of the org
         let org_id = if let Some(org_id) = org_id {
             match self.md.organizations.get_by_id(org_id) {
-                Ok(org) if org.is_member(account.id) => org.id,
+                Ok(org) if is_member(&org) => org.id,
                 Ok(_) | Err(MetadataError::NotFound(_)) => 0,
                 Err(err) => return Err(err.into()),
             }
         } else {
             // find first organization
             let orgs = self.md.organizations.list()?;
-            let org = orgs.data.iter().find(|org| org.is_member(account.id));
+            let org = orgs.data.iter().find(|org| is_member(org));
             if let Some(org) = org { org.id } else { 0 }
         };
 
-- 
2.43.0


From ce9a4d3127dcca620c4cd78371b2091f2a7421c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 088/130] fix: a filter's value that is no scalar is refused,
 not a panic

---
 src/platform/src/lib.rs        | 53 ++++++++++++++++++++++++++++++++--
 src/platform/src/properties.rs |  1 +
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index d5e934b..531e00d 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -332,6 +332,40 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
     }
 }
 
+fn check_scalar<E: serde::de::Error>(v: &Value) -> std::result::Result<(), E> {
+    match v {
+        Value::Bool(_) | Value::String(_) => Ok(()),
+        Value::Number(n) => match n.as_f64().map(Decimal::try_from) {
+            Some(Ok(_)) => Ok(()),
+            _ => Err(E::custom(format!("number {n} is out of range"))),
+        },
+        _ => Err(E::custom(
+            "value has to be a boolean, a number or a string",
+        )),
+    }
+}
+
+/// values of filters: what has no scalar counterpart is rejected with the request
+pub fn deserialize_scalars<'de, D>(
+    deserializer: D,
+) -> std::result::Result<Option<Vec<Value>>, D::Error>
+where D: serde::Deserializer<'de> {
+    let values = Option::<Vec<Value>>::deserialize(deserializer)?;
+    for v in values.iter().flatten() {
+        check_scalar(v)?;
+    }
+    Ok(values)
+}
+
+pub fn deserialize_scalar<'de, D>(deserializer: D) -> std::result::Result<Option<Value>, D::Error>
+where D: serde::Deserializer<'de> {
+    let value = Option::<Value>::deserialize(deserializer)?;
+    if let Some(v) = &value {
+        check_scalar(v)?;
+    }
+    Ok(value)
+}
+
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub enum PropValueOperation {
@@ -507,7 +541,11 @@ pub enum PropValueFilter {
         #[serde(flatten)]
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            skip_serializing_if = "Option::is_none",
+            deserialize_with = "deserialize_scalars"
+        )]
         value: Option<Vec<Value>>,
     },
     // #[serde(rename_all = "camelCase")]
@@ -884,6 +922,7 @@ pub enum DidEventAggregate {
         property: PropertyRef,
         aggregate: QueryAggregate,
         operation: PropValueOperation,
+        #[serde(default, deserialize_with = "deserialize_scalar")]
         value: Option<Value>,
         time: SegmentTime,
     },
@@ -1006,14 +1045,22 @@ pub enum SegmentCondition {
     HasPropertyValue {
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            skip_serializing_if = "Option::is_none",
+            deserialize_with = "deserialize_scalars"
+        )]
         value: Option<Vec<Value>>,
     },
     #[serde(rename_all = "camelCase")]
     HadPropertyValue {
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            skip_serializing_if = "Option::is_none",
+            deserialize_with = "deserialize_scalars"
+        )]
         value: Option<Vec<Value>>,
         time: SegmentTime,
     },
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 4b56e2f..060e815 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -342,6 +342,7 @@ pub struct UpdatePropertyRequest {
 #[serde(rename_all = "camelCase")]
 pub struct Filter {
     pub operation: PropValueOperation,
+    #[serde(default, deserialize_with = "crate::deserialize_scalars")]
     pub value: Option<Vec<Value>>,
 }
 
-- 
2.43.0


From 11fb8a84321e57e86a53f2dc98fca619e0e72b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 089/130] fix: filters without a group are no filters, not a
 panic

---
 src/platform/src/event_records.rs      | 21 +++++++++------------
 src/platform/src/event_segmentation.rs | 21 +++++++++------------
 src/platform/src/funnel.rs             | 14 ++++++++------
 src/platform/src/group_records.rs      | 21 +++++++++------------
 4 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 4eed8b4..cb32ca8 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -176,18 +176,15 @@ impl Into<event_records::EventRecordsSearchRequest> for EventRecordsSearchReques
             }),
             filters: self.filters.map_or_else(
                 || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
+                |v| match v.groups.first() {
+                    Some(group) if !group.filters.is_empty() => Some(
+                        group
+                            .filters
+                            .iter()
+                            .map(|v| v.to_owned().into())
+                            .collect::<Vec<_>>(),
+                    ),
+                    _ => None,
                 },
             ),
             properties: self.properties.map(|props| {
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 095dfd0..2e741bb 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -466,18 +466,15 @@ impl Into<common::event_segmentation::EventSegmentationRequest> for EventSegment
             events: self.events.iter().map(|v| v.into()).collect::<Vec<_>>(),
             filters: self.filters.map_or_else(
                 || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
+                |v| match v.groups.first() {
+                    Some(group) if !group.filters.is_empty() => Some(
+                        group
+                            .filters
+                            .iter()
+                            .map(|v| v.to_owned().into())
+                            .collect::<Vec<_>>(),
+                    ),
+                    _ => None,
                 },
             ),
             breakdowns: self.breakdowns.map_or_else(
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 5a64fe5..fa2a905 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -745,12 +745,14 @@ impl Into<common::funnel::Funnel> for FunnelRequest {
             segments: self
                 .segments
                 .map(|s| s.iter().map(|s| s.to_owned().into()).collect::<Vec<_>>()),
-            filters: self.filters.map(|v| {
-                v.groups[0]
-                    .filters
-                    .iter()
-                    .map(|f| f.to_owned().into())
-                    .collect::<Vec<_>>()
+            filters: self.filters.and_then(|v| {
+                v.groups.first().map(|group| {
+                    group
+                        .filters
+                        .iter()
+                        .map(|f| f.to_owned().into())
+                        .collect::<Vec<_>>()
+                })
             }),
         }
     }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 4b3ddc2..84ebccf 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -115,18 +115,15 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
             group_id: self.group,
             filters: self.filters.map_or_else(
                 || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
+                |v| match v.groups.first() {
+                    Some(group) if !group.filters.is_empty() => Some(
+                        group
+                            .filters
+                            .iter()
+                            .map(|v| v.to_owned().into())
+                            .collect::<Vec<_>>(),
+                    ),
+                    _ => None,
                 },
             ),
             properties: self.properties.map(|props| {
-- 
2.43.0


From 813ceb1f69d59e46c92d8b0d22ffd51b7b725684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 090/130] fix: a query's timestamp out of range is refused, not
 a panic

---
 src/platform/src/event_records.rs      |  5 +----
 src/platform/src/event_segmentation.rs |  5 +----
 src/platform/src/funnel.rs             |  5 +----
 src/platform/src/group_records.rs      |  5 +----
 src/platform/src/lib.rs                | 11 +++++++++++
 5 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index cb32ca8..c18b712 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -67,10 +67,7 @@ impl EventRecords {
         )?;
         validate_search_request(&self.md, project_id, &req)?;
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 2e741bb..3a4e405 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -59,10 +59,7 @@ impl EventSegmentation {
         let lreq = fix_request(&self.md, project_id, lreq)?;
         dbg!(&lreq);
 
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index fa2a905..c2599f0 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -57,10 +57,7 @@ impl Funnel {
         validate_request(&self.md, project_id, &req)?;
         let req = fix_request(&self.md, project_id, req.into())?;
 
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 84ebccf..797fd8e 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -73,10 +73,7 @@ impl GroupRecords {
         )?;
         validate_search_request(&self.md, project_id, &req)?;
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 531e00d..16ee866 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -754,6 +754,17 @@ pub struct QueryParams {
     pub timestamp: Option<i64>,
 }
 
+impl QueryParams {
+    pub fn cur_time(&self) -> Result<DateTime<Utc>> {
+        match self.timestamp {
+            None => Ok(Utc::now()),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0).ok_or_else(|| {
+                PlatformError::BadRequest(format!("timestamp {ts_sec} is out of range"))
+            }),
+        }
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
 #[serde(tag = "type", rename_all = "camelCase")]
 pub enum QueryTime {
-- 
2.43.0


From ff4714bcb5aea3f09170a4f6656a0c8712245d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 091/130] fix: excluded steps of a funnel are numbered from one
 both ways

---
 src/platform/src/funnel.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index c2599f0..668099e 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -197,12 +197,12 @@ pub(crate) fn validate_request(
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
-                        if *from >= req.steps.len() {
+                        if *from < 1 || *from > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: from step index out of range".to_string(),
                             ));
                         }
-                        if *to >= req.steps.len() {
+                        if *to < 1 || *to > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: to step index out of range".to_string(),
                             ));
@@ -496,7 +496,8 @@ impl Into<common::funnel::ExcludeSteps> for ExcludeSteps {
         match self {
             ExcludeSteps::All => common::funnel::ExcludeSteps::All,
             ExcludeSteps::Between { from, to } => {
-                common::funnel::ExcludeSteps::Between(from - 1, to - 1)
+                // steps are numbered from one in the interface
+                common::funnel::ExcludeSteps::Between(from.saturating_sub(1), to.saturating_sub(1))
             }
         }
     }
@@ -507,7 +508,10 @@ impl Into<ExcludeSteps> for common::funnel::ExcludeSteps {
     fn into(self) -> ExcludeSteps {
         match self {
             common::funnel::ExcludeSteps::All => ExcludeSteps::All,
-            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between { from, to },
+            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between {
+                from: from.saturating_add(1),
+                to: to.saturating_add(1),
+            },
         }
     }
 }
-- 
2.43.0


From 24d4ca69a4102d52636c18fd0e8eee2ea7dd6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 092/130] fix: a property of a group out of range is refused,
 not a panic

---
 src/platform/src/event_records.rs |  3 ++-
 src/platform/src/group_records.rs |  3 ++-
 src/platform/src/lib.rs           | 13 +++++++++++--
 src/platform/src/properties.rs    |  3 ++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index c18b712..b1c8b58 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -24,6 +24,7 @@ use crate::QueryParams;
 use crate::QueryResponse;
 use crate::QueryResponseFormat;
 use crate::QueryTime;
+use crate::group_properties;
 use crate::Result;
 
 pub struct EventRecords {
@@ -261,7 +262,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 797fd8e..650de41 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -23,6 +23,7 @@ use crate::QueryParams;
 use crate::QueryResponse;
 use crate::QueryResponseFormat;
 use crate::QueryTime;
+use crate::group_properties;
 use crate::Result;
 use crate::SortablePropertyRef;
 
@@ -181,7 +182,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 16ee866..a889370 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1454,6 +1454,15 @@ pub struct PropertyAndValue {
     value: Value,
 }
 
+pub(crate) fn group_properties(
+    md: &Arc<MetadataProvider>,
+    group: usize,
+) -> crate::Result<&Arc<metadata::properties::Properties>> {
+    md.group_properties
+        .get(group)
+        .ok_or_else(|| PlatformError::BadRequest("group id is out of range".to_string()))
+}
+
 pub fn validate_event_property(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -1465,7 +1474,7 @@ pub fn validate_event_property(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
         }
@@ -1495,7 +1504,7 @@ pub fn validate_event_filter_property(
         PropertyRef::Group {
             property_name,
             group,
-        } => md.group_properties[*group]
+        } => group_properties(md, *group)?
             .get_by_name(project_id, property_name)
             .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?,
         PropertyRef::Event { property_name } => md
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 060e815..1eb9b05 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -24,6 +24,7 @@ use crate::PlatformError;
 use crate::PropValueOperation;
 use crate::PropertyRef;
 use crate::ResponseMetadata;
+use crate::group_properties;
 use crate::Result;
 
 pub struct Properties {
@@ -399,7 +400,7 @@ pub(crate) fn validate_request(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err}")))?;
         }
-- 
2.43.0


From 3458fa37fdc0c2b92a0f45dfd4c3a8ac44318a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 093/130] fix: an aggregate that is not supported is refused,
 not a panic

---
 src/platform/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index a889370..0e34059 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -890,26 +890,37 @@ pub enum AggregateFunction {
     /// avg
     Avg,
     /// Approximate aggregate function
+    #[serde(skip_deserializing)]
     ApproxDistinct,
     /// array_agg
+    #[serde(skip_deserializing)]
     ArrayAgg,
     /// Variance (Sample)
+    #[serde(skip_deserializing)]
     Variance,
     /// Variance (Population)
+    #[serde(skip_deserializing)]
     VariancePop,
     /// Standard Deviation (Sample)
+    #[serde(skip_deserializing)]
     Stddev,
     /// Standard Deviation (Population)
+    #[serde(skip_deserializing)]
     StddevPop,
     /// Covariance (Sample)
+    #[serde(skip_deserializing)]
     Covariance,
     /// Covariance (Population)
+    #[serde(skip_deserializing)]
     CovariancePop,
     /// Correlation
+    #[serde(skip_deserializing)]
     Correlation,
     /// Approximate continuous percentile function
+    #[serde(skip_deserializing)]
     ApproxPercentileCont,
     /// ApproxMedian
+    #[serde(skip_deserializing)]
     ApproxMedian,
 }
 
-- 
2.43.0


From 34d508c31330cf9614b3fe09e3626804ca6dae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 094/130] fix: a filter's time is the number given, not its
 digits

---
 src/query/src/lib.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 80ae796..c309882 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -634,22 +634,13 @@ pub fn fix_filter(
             if let Some(value) = value {
                 for value in value {
                     match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
-                            match filter.clone() {
-                                PropValueFilter::Property { value, .. } => {
-                                    for value in value.unwrap().iter() {
-                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
-                                            let sv = ScalarValue::TimestampMillisecond(
-                                                Some(*ts as i64),
-                                                None,
-                                            );
-                                            ev.push(sv);
-                                        } else {
-                                            unreachable!()
-                                        }
-                                    }
-                                }
-                            };
+                        (&DType::Timestamp, &ScalarValue::Decimal128(Some(ts), _, scale)) => {
+                            // the number may have a fraction
+                            let ts = ts / 10i128.pow(scale.max(0) as u32);
+                            ev.push(ScalarValue::TimestampMillisecond(
+                                Some(ts.clamp(i64::MIN as i128, i64::MAX as i128) as i64),
+                                None,
+                            ));
                         }
                         _ => ev.push(value.to_owned()),
                     }
-- 
2.43.0


From 64ae68f98ac7ea7ed57de486406ce5a9ee5396c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 095/130] fix: filters of a funnel's steps are prepared as
 others are

---
 src/query/src/funnel.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index f3218b4..2750c07 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -569,6 +569,13 @@ pub fn fix_request(
             if let Some(filters) = &event.filters {
                 if filters.is_empty() {
                     out.steps[step_id].events[event_id].filters = None;
+                } else {
+                    out.steps[step_id].events[event_id].filters = Some(
+                        filters
+                            .iter()
+                            .map(|filter| fix_filter(md, project_id, filter))
+                            .collect::<crate::Result<Vec<_>>>()?,
+                    );
                 }
             }
         }
@@ -583,6 +590,13 @@ pub fn fix_request(
                 if let Some(filters) = &exclude.filters {
                     if filters.is_empty() {
                         out_exclude[exclude_id].filters = None;
+                    } else {
+                        out_exclude[exclude_id].filters = Some(
+                            filters
+                                .iter()
+                                .map(|filter| fix_filter(md, project_id, filter))
+                                .collect::<crate::Result<Vec<_>>>()?,
+                        );
                     }
                 }
             }
-- 
2.43.0


From a67712b5265ff0af3dc0b9144ac912a53f4ace1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 096/130] fix: a property of 32 bits is numeric in filters

---
 src/platform/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 0e34059..f2dd822 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1534,7 +1534,12 @@ pub fn validate_event_filter_property(
         | PropValueOperation::Gte
         | PropValueOperation::Lt
         | PropValueOperation::Lte => match prop.data_type {
-            DType::Int8 | DType::Int16 | DType::Int64 | DType::Decimal | DType::Timestamp => {}
+            DType::Int8
+            | DType::Int16
+            | DType::Int32
+            | DType::Int64
+            | DType::Decimal
+            | DType::Timestamp => {}
             _ => {
                 return Err(PlatformError::BadRequest(format!(
                     "{err_prefix}property \"{}\" is not numeric, but operation is \"{:?}\"",
-- 
2.43.0


From 523688821d18680eb4c1c41ad67fd845df84e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 097/130] fix: a filter needs values where its operation does

---
 src/platform/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index f2dd822..96de684 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1580,10 +1580,9 @@ pub fn validate_event_filter_property(
     }
     match value {
         None => {
-            if !prop.nullable {
+            if !allow_empty_values {
                 return Err(PlatformError::BadRequest(format!(
-                    "{err_prefix}property \"{}\" is not nullable",
-                    prop.name
+                    "{err_prefix} values cannot be empty"
                 )));
             }
         }
-- 
2.43.0


From 15a5ab712e69267ff5c354630a11a3a1d1278252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 098/130] fix: a filter on a custom property or without values
 is an error, not a panic

---
 src/query/src/expr.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 6195f33..594ffe1 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -141,7 +141,9 @@ pub fn event_filters_expression(
                     let tbl = match property {
                         PropertyRef::Group(_, g) => group_col(*g),
                         PropertyRef::Event(_) => TABLE_EVENTS.to_string(),
-                        PropertyRef::Custom(_) => unimplemented!(),
+                        PropertyRef::Custom(_) => {
+                            return Err(QueryError::Unimplemented("custom properties".to_string()));
+                        }
                     };
                     property_expression(
                         ctx,
@@ -175,7 +177,9 @@ pub fn breakdown_expr(
             PropertyRef::Group(..) | PropertyRef::Event(..) => {
                 Ok(property_col(ctx, metadata, prop_ref)?)
             }
-            PropertyRef::Custom(_) => unimplemented!(),
+            PropertyRef::Custom(_) => {
+                Err(QueryError::Unimplemented("custom properties".to_string()))
+            }
         },
     }
 }
@@ -302,7 +306,9 @@ pub fn property_expression(
             operation,
             values,
         ),
-        PropertyRef::Custom(_) => unimplemented!(),
+        PropertyRef::Custom(_) => Err(QueryError::Unimplemented(
+            "custom properties".to_string(),
+        )),
     }
 }
 
@@ -320,7 +326,9 @@ pub fn property_col(
             let prop = md.event_properties.get_by_name(ctx.project_id, prop_name)?;
             col(prop.column_name().as_str())
         }
-        PropertyRef::Custom(_prop_name) => unimplemented!(),
+        PropertyRef::Custom(_prop_name) => {
+            return Err(QueryError::Unimplemented("custom properties".to_string()));
+        }
     })
 }
 
@@ -340,7 +348,7 @@ pub fn named_property_expression(
         | PropValueOperation::Regex
         | PropValueOperation::NotRegex => {
             // expressions for OR
-            let values_vec = values.ok_or_else(|| {
+            let values_vec = values.filter(|v| !v.is_empty()).ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
@@ -375,7 +383,7 @@ pub fn named_property_expression(
         }
         PropValueOperation::Like => {
             // expressions for OR
-            let values_vec = values.ok_or_else(|| {
+            let values_vec = values.filter(|v| !v.is_empty()).ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
@@ -399,7 +407,7 @@ pub fn named_property_expression(
         }
         PropValueOperation::NotLike => {
             // expressions for OR
-            let values_vec = values.ok_or_else(|| {
+            let values_vec = values.filter(|v| !v.is_empty()).ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
-- 
2.43.0


From 17d1ced182f21e40f4dc56cd8d0569ebc89aa07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 099/130] fix: a custom event's filter keeps the scale of its
 decimal values

---
 src/metadata/src/custom_events.rs      | 12 ++++++++++--
 src/metadata/src/pb/custom_event.proto |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 66db593..4f4c7ee 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -414,8 +414,9 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: None,
                                         bool: v.map(|v| v as u32),
                                         timestamp: None,
+                                        decimal_scale: None,
                                     },
-                                    ScalarValue::Decimal128(v, _, _) => custom_event::Value {
+                                    ScalarValue::Decimal128(v, _, scale) => custom_event::Value {
                                         string: None,
                                         int8: None,
                                         int16: None,
@@ -424,6 +425,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: v.map(|v| v.to_le_bytes().to_vec()),
                                         bool: None,
                                         timestamp: None,
+                                        decimal_scale: v.map(|_| *scale as i32),
                                     },
                                     ScalarValue::Int8(v) => custom_event::Value {
                                         string: None,
@@ -434,6 +436,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: None,
                                         bool: None,
                                         timestamp: None,
+                                        decimal_scale: None,
                                     },
                                     ScalarValue::Int16(v) => custom_event::Value {
                                         string: None,
@@ -444,6 +447,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: None,
                                         bool: None,
                                         timestamp: None,
+                                        decimal_scale: None,
                                     },
                                     ScalarValue::Int32(v) => custom_event::Value {
                                         string: None,
@@ -454,6 +458,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: None,
                                         bool: None,
                                         timestamp: None,
+                                        decimal_scale: None,
                                     },
                                     ScalarValue::Int64(v) => custom_event::Value {
                                         string: None,
@@ -464,6 +469,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: None,
                                         bool: None,
                                         timestamp: None,
+                                        decimal_scale: None,
                                     },
                                     ScalarValue::Utf8(v) => custom_event::Value {
                                         string: v.to_owned(),
@@ -474,6 +480,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         decimal: None,
                                         bool: None,
                                         timestamp: None,
+                                        decimal_scale: None,
                                     },
                                     ScalarValue::TimestampMillisecond(v, _) => {
                                         custom_event::Value {
@@ -485,6 +492,7 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                             decimal: None,
                                             bool: None,
                                             timestamp: v.to_owned(),
+                                            decimal_scale: None,
                                         }
                                     }
                                     _ => unimplemented!(),
@@ -585,7 +593,7 @@ fn deserialize(data: &[u8]) -> Result<CustomEvent> {
                     ScalarValue::Decimal128(
                         Some(i128::from_le_bytes(v.as_slice().try_into().unwrap())),
                         DECIMAL_PRECISION,
-                        DECIMAL_SCALE,
+                        value.decimal_scale.map_or(DECIMAL_SCALE, |v| v as i8),
                     )
                 } else if let Some(v) = value.bool {
                     ScalarValue::Boolean(Some(v != 0))
diff --git a/src/metadata/src/pb/custom_event.proto b/src/metadata/src/pb/custom_event.proto
index 26cd580..50c9ec0 100644
--- a/src/metadata/src/pb/custom_event.proto
+++ b/src/metadata/src/pb/custom_event.proto
@@ -46,6 +46,7 @@ message Value {
   optional bytes decimal = 6;
   optional uint32 bool = 7;
   optional int64 timestamp = 8;
+  optional int32 decimal_scale = 9;
 }
 
 enum PropValueOperation {
-- 
2.43.0


From e4468d4a7c731fcf50347a8996512b6d56255fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 100/130] fix: every setting given is set

---
 src/metadata/src/settings.rs |  6 ++++++
 src/platform/src/settings.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index 2ebc261..3625b1b 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -81,6 +81,12 @@ impl Settings {
             ));
         }
 
+        if self.backup_schedule_start_hour > 23 {
+            return Err(MetadataError::BadRequest(
+                "backup schedule start hour has to be an hour of the day".to_string(),
+            ));
+        }
+
         match self.backup_provider {
             BackupProvider::Local => {}
             BackupProvider::S3 => {
diff --git a/src/platform/src/settings.rs b/src/platform/src/settings.rs
index 1f20941..07dde79 100644
--- a/src/platform/src/settings.rs
+++ b/src/platform/src/settings.rs
@@ -27,6 +27,9 @@ impl SettingsProvider {
         if let Some(v) = req.auth_refresh_token {
             settings.auth_refresh_token = v;
         }
+        if let Some(v) = req.auth_admin_default_password {
+            settings.auth_admin_default_password = v;
+        }
         if let Some(v) = req.backup_enabled {
             settings.backup_enabled = v;
         }
@@ -73,6 +76,29 @@ impl SettingsProvider {
         if let Some(v) = req.backup_provider_gcp_path {
             settings.backup_provider_gcp_path = v;
         }
+        if let Some(v) = req.backup_provider_gcp_key {
+            settings.backup_provider_gcp_key = v;
+        }
+        if let Some(v) = req.backup_schedule_interval {
+            settings.backup_schedule_interval = match v {
+                BackupScheduleInterval::Hourly => {
+                    metadata::settings::BackupScheduleInterval::Hourly
+                }
+                BackupScheduleInterval::Daily => metadata::settings::BackupScheduleInterval::Daily,
+                BackupScheduleInterval::Weekly => {
+                    metadata::settings::BackupScheduleInterval::Weekly
+                }
+                BackupScheduleInterval::Monthly => {
+                    metadata::settings::BackupScheduleInterval::Monthly
+                }
+                BackupScheduleInterval::Yearly => {
+                    metadata::settings::BackupScheduleInterval::Yearly
+                }
+            };
+        }
+        if let Some(v) = req.backup_schedule_start_hour {
+            settings.backup_schedule_start_hour = v;
+        }
 
         self.prov.save(&settings)?;
 
-- 
2.43.0


From 7c3539cb6731489ed9d94ebd1f4edbe3f56172af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 101/130] fix: events without filters select the records
 searched for

---
 src/query/src/event_records.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 2d6e67c..9ad4f02 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -560,12 +560,12 @@ pub fn fix_search_request(
                         of.push(f);
                     }
                 }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
             }
+            let e = Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            };
+            oe.push(e);
         }
         out.events = Some(oe);
     }
-- 
2.43.0


From 51031ad630d9c558247b0e38c2d3c7370f038dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 102/130] fix: compact response of event segmentation is the
 regular one's columns

---
 src/platform/src/event_segmentation.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 3a4e405..10420ee 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -62,13 +62,8 @@ impl EventSegmentation {
         let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
-            format: match &query.format {
-                None => Format::Regular,
-                Some(format) => match format {
-                    QueryResponseFormat::Json => Format::Regular,
-                    QueryResponseFormat::JsonCompact => Format::Compact,
-                },
-            },
+            // the compact response has the same columns
+            format: Format::Regular,
             cur_time,
         };
 
-- 
2.43.0


From 6f8a5f073947bf0fcd8d31db6ccd134c3c62b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 103/130] fix: group records are sorted by the property asked
 for

---
 src/platform/src/group_records.rs | 25 ++++++++++++++++++++++++-
 src/platform/src/lib.rs           | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 650de41..0351350 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -130,7 +130,7 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
                     .map(|prop| prop.to_owned().into())
                     .collect::<Vec<_>>()
             }),
-            sort: None,
+            sort: self.sort.map(|sort| sort.into()),
         }
     }
 }
@@ -202,6 +202,29 @@ pub(crate) fn validate_search_request(
             }
         }
     }
+
+    match &req.sort {
+        None => {}
+        Some(SortablePropertyRef::Group {
+            property_name,
+            group,
+            ..
+        }) => {
+            group_properties(md, *group)?
+                .get_by_name(project_id, property_name)
+                .map_err(|err| PlatformError::BadRequest(format!("sort: {err}")))?;
+        }
+        Some(SortablePropertyRef::Event { property_name, .. }) => {
+            md.event_properties
+                .get_by_name(project_id, property_name)
+                .map_err(|err| PlatformError::BadRequest(format!("sort: {err}")))?;
+        }
+        Some(SortablePropertyRef::Custom { .. }) => {
+            return Err(PlatformError::Unimplemented(
+                "invalid property type".to_string(),
+            ));
+        }
+    }
     Ok(())
 }
 
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 96de684..7d180ff 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -501,6 +501,30 @@ pub enum SortablePropertyRef {
     },
 }
 
+#[allow(clippy::all)]
+impl Into<(common::query::PropertyRef, SortDirection)> for SortablePropertyRef {
+    fn into(self) -> (common::query::PropertyRef, SortDirection) {
+        match self {
+            SortablePropertyRef::Group {
+                property_name,
+                group,
+                direction,
+            } => (
+                common::query::PropertyRef::Group(property_name, group),
+                direction,
+            ),
+            SortablePropertyRef::Event {
+                property_name,
+                direction,
+            } => (common::query::PropertyRef::Event(property_name), direction),
+            SortablePropertyRef::Custom {
+                property_id,
+                direction,
+            } => (common::query::PropertyRef::Custom(property_id), direction),
+        }
+    }
+}
+
 #[allow(clippy::all)]
 impl Into<common::query::PropertyRef> for PropertyRef {
     fn into(self) -> common::query::PropertyRef {
-- 
2.43.0


From 4f0ddfda419870f33505b59bcc120607221b89c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 104/130] fix: values of a funnel step's filters are compared
 as numbers of the property

---
 src/query/src/physical_plan/planner/funnel.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index 5a15531..fc7faf1 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -3,10 +3,12 @@ use std::sync::Mutex;
 
 use arrow_row::SortField;
 use datafusion::execution::context::ExecutionProps;
+use datafusion::optimizer::simplify_expressions::ExprSimplifier;
 use datafusion::physical_expr::create_physical_expr;
 use datafusion::physical_expr::expressions::Column;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::ToDFSchema;
+use datafusion_expr::simplify::SimplifyContext;
 use datafusion_expr::LogicalPlan;
 
 use crate::error::Result;
@@ -49,23 +51,27 @@ pub(crate) fn build_funnel(
     let schema = physical_inputs[0].schema();
     let dfschema = schema.clone().to_dfschema()?;
     let execution_props = ExecutionProps::new();
+    // expressions of the funnel are not seen by the type coercion of the plan
+    let simplifier = ExprSimplifier::new(SimplifyContext::new(&execution_props));
     let steps = f
         .steps
         .iter()
         .map(|(expr, order)| {
-            let expr = create_physical_expr(expr, &dfschema, &execution_props).unwrap();
+            let expr = simplifier.coerce(expr.clone(), &dfschema)?;
+            let expr = create_physical_expr(&expr, &dfschema, &execution_props)?;
             let order = match order {
                 logical_plan::funnel::StepOrder::Exact => StepOrder::Exact,
                 logical_plan::funnel::StepOrder::Any(v) => StepOrder::Any(v.to_vec()),
             };
-            (expr, order)
+            Ok((expr, order))
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>>>()?;
 
     let exclude = if let Some(exclude) = f.exclude {
         let mut out = vec![];
         for exclude in exclude {
-            let expr = create_physical_expr(&exclude.expr, &dfschema, &execution_props)?;
+            let expr = simplifier.coerce(exclude.expr.clone(), &dfschema)?;
+            let expr = create_physical_expr(&expr, &dfschema, &execution_props)?;
             let steps = exclude.steps.map(|steps| ExcludeSteps {
                 from: steps.from,
                 to: steps.to,
-- 
2.43.0


From fee21c31f93e3d9d449f70f9e88dedf6e02b2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 105/130] fix: values of a property's values filter are values
 of the property

---
 src/platform/src/properties.rs | 13 ++++++-
 src/query/src/lib.rs           | 69 ++++++++++++++++++++--------------
 2 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 1eb9b05..d8dc511 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -9,6 +9,7 @@ use common::types::OptionalProperty;
 use metadata::properties;
 use metadata::MetadataProvider;
 use query::properties::PropertiesProvider;
+use query::fix_filter_values;
 use query::properties::PropertyValues;
 use serde::Deserialize;
 use serde::Serialize;
@@ -147,7 +148,17 @@ impl Properties {
         )?;
 
         validate_request(&self.md, project_id, &req)?;
-        let lreq = req.into();
+        let mut lreq: PropertyValues = req.into();
+        if let Some(filter) = &mut lreq.filter {
+            if let Some(value) = &filter.value {
+                filter.value = Some(fix_filter_values(
+                    &self.md,
+                    project_id,
+                    &lreq.property,
+                    value,
+                )?);
+            }
+        }
         let result = self
             .prov
             .values(query::Context::new(project_id), lreq)
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index c309882..c0f850b 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -616,37 +616,11 @@ pub fn fix_filter(
             operation,
             value,
         } => {
-            let prop = match property {
-                PropertyRef::Group(name, group) => {
-                    md.group_properties[*group].get_by_name(project_id, name.as_str())?
-                }
-                PropertyRef::Event(name) => {
-                    md.event_properties.get_by_name(project_id, name.as_str())?
-                }
-                _ => {
-                    return Err(QueryError::Unimplemented(
-                        "invalid property type".to_string(),
-                    ));
-                }
+            let ev = match value {
+                Some(value) => fix_filter_values(md, project_id, property, value)?,
+                None => vec![],
             };
 
-            let mut ev = vec![];
-            if let Some(value) = value {
-                for value in value {
-                    match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(Some(ts), _, scale)) => {
-                            // the number may have a fraction
-                            let ts = ts / 10i128.pow(scale.max(0) as u32);
-                            ev.push(ScalarValue::TimestampMillisecond(
-                                Some(ts.clamp(i64::MIN as i128, i64::MAX as i128) as i64),
-                                None,
-                            ));
-                        }
-                        _ => ev.push(value.to_owned()),
-                    }
-                }
-            }
-
             let filter = common::query::PropValueFilter::Property {
                 property: property.to_owned(),
                 operation: operation.to_owned(),
@@ -657,6 +631,43 @@ pub fn fix_filter(
     }
 }
 
+/// Values a property is compared with, as values of the property
+pub fn fix_filter_values(
+    md: &Arc<MetadataProvider>,
+    project_id: u64,
+    property: &PropertyRef,
+    values: &[ScalarValue],
+) -> Result<Vec<ScalarValue>> {
+    let prop = match property {
+        PropertyRef::Group(name, group) => {
+            md.group_properties[*group].get_by_name(project_id, name.as_str())?
+        }
+        PropertyRef::Event(name) => md.event_properties.get_by_name(project_id, name.as_str())?,
+        _ => {
+            return Err(QueryError::Unimplemented(
+                "invalid property type".to_string(),
+            ));
+        }
+    };
+
+    let mut ev = vec![];
+    for value in values {
+        match (&prop.data_type, value) {
+            (&DType::Timestamp, &ScalarValue::Decimal128(Some(ts), _, scale)) => {
+                // the number may have a fraction
+                let ts = ts / 10i128.pow(scale.max(0) as u32);
+                ev.push(ScalarValue::TimestampMillisecond(
+                    Some(ts.clamp(i64::MIN as i128, i64::MAX as i128) as i64),
+                    None,
+                ));
+            }
+            _ => ev.push(value.to_owned()),
+        }
+    }
+
+    Ok(ev)
+}
+
 pub mod test_util {
     use std::path::PathBuf;
     use std::sync::Arc;
-- 
2.43.0


From bc009cbe174384413289c61312d2cbdb54f3f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 106/130] fix: queries of events that can't be answered are
 refused, not a panic

---
 src/platform/src/event_segmentation.rs | 64 ++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 10420ee..2585e12 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -4,6 +4,7 @@ use chrono::DateTime;
 use chrono::Utc;
 use common::event_segmentation::NamedQuery;
 use common::rbac::ProjectPermission;
+use common::types::DType;
 use common::GROUPS_COUNT;
 use metadata::MetadataProvider;
 use query::context::Format;
@@ -13,6 +14,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 use crate::error::Result;
+use crate::group_properties;
 use crate::validate_event;
 use crate::validate_event_filter;
 use crate::validate_event_property;
@@ -577,6 +579,28 @@ pub(crate) fn validate_request(
                 format!("event #{event_id}, \"queries\" field can't be empty").to_string(),
             ));
         }
+        for (query_id, query) in event.queries.iter().enumerate() {
+            validate_query(
+                md,
+                project_id,
+                query,
+                format!("event #{event_id}, query #{query_id}"),
+            )?;
+        }
+        if let Some(breakdowns) = &event.breakdowns {
+            for (idx, breakdown) in breakdowns.iter().enumerate() {
+                match breakdown {
+                    Breakdown::Property { property } => {
+                        validate_event_property(
+                            md,
+                            project_id,
+                            property,
+                            format!("event #{event_id}, breakdown {idx}"),
+                        )?;
+                    }
+                }
+            }
+        }
     }
 
     match &req.filters {
@@ -627,6 +651,46 @@ pub(crate) fn validate_request(
     Ok(())
 }
 
+fn validate_query(
+    md: &Arc<MetadataProvider>,
+    project_id: u64,
+    query: &Query,
+    err_prefix: String,
+) -> Result<()> {
+    let property = match query {
+        Query::WeeklyActiveGroups | Query::MonthlyActiveGroups | Query::Formula { .. } => {
+            return Err(PlatformError::Unimplemented(format!(
+                "{err_prefix}: query is unimplemented yet"
+            )));
+        }
+        Query::AggregatePropertyPerGroup { property, .. }
+        | Query::AggregateProperty { property, .. } => property,
+        _ => return Ok(()),
+    };
+    let prop = match property {
+        PropertyRef::Group {
+            property_name,
+            group,
+        } => group_properties(md, *group)?.get_by_name(project_id, property_name),
+        PropertyRef::Event { property_name } => {
+            md.event_properties.get_by_name(project_id, property_name)
+        }
+        PropertyRef::Custom { .. } => {
+            return Err(PlatformError::Unimplemented(
+                "invalid property type".to_string(),
+            ));
+        }
+    }
+    .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
+    match prop.data_type {
+        DType::Int8 | DType::Int16 | DType::Int32 | DType::Int64 | DType::Decimal => Ok(()),
+        _ => Err(PlatformError::BadRequest(format!(
+            "{err_prefix}: property \"{}\" is not numeric",
+            prop.name
+        ))),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use chrono::DateTime;
-- 
2.43.0


From 90d5dbab20c0dcb05a350d52c9e71827d192ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 107/130] fix: a record that does not exist is not found, not
 an internal error

---
 src/platform/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/src/error.rs b/src/platform/src/error.rs
index 00d467e..9afcb3c 100644
--- a/src/platform/src/error.rs
+++ b/src/platform/src/error.rs
@@ -114,7 +114,7 @@ impl PlatformError {
                 QueryError::Execution(err) => ApiError::internal(err),
                 QueryError::DataFusion(err) => ApiError::internal(err.to_string()),
                 QueryError::Arrow(err) => ApiError::internal(err.to_string()),
-                QueryError::Metadata(err) => ApiError::internal(err.to_string()),
+                QueryError::Metadata(err) => PlatformError::Metadata(err).into_api_error(),
                 QueryError::Common(err) => ApiError::internal(err.to_string()),
                 QueryError::Store(err) => ApiError::internal(err.to_string()),
                 QueryError::Other(err) => ApiError::internal(err.to_string()),
-- 
2.43.0


From 2cde053ce615292c177828f00631f186f8f2e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 108/130] fix: a filter's regular expression that can't be
 parsed is refused

---
 src/platform/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 7d180ff..e015cdd 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1617,6 +1617,15 @@ pub fn validate_event_filter_property(
                 )));
             }
             for (vid, value) in values.iter().enumerate() {
+                if let (
+                    PropValueOperation::Regex | PropValueOperation::NotRegex,
+                    Value::String(pattern),
+                ) = (operation, value)
+                {
+                    regex::Regex::new(pattern).map_err(|err| {
+                        PlatformError::BadRequest(format!("{err_prefix} value {vid}: {err}"))
+                    })?;
+                }
                 match value {
                     Value::Null => {
                         if !prop.nullable {
-- 
2.43.0


From 262359221f29f9eab8ca1761c0d8230a700b3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 109/130] fix: a custom event's filters are validated before
 they are stored

---
 src/platform/src/custom_events.rs | 26 ++++++++++++++++++++++++--
 src/platform/src/lib.rs           |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/custom_events.rs b/src/platform/src/custom_events.rs
index db776f9..baa0c00 100644
--- a/src/platform/src/custom_events.rs
+++ b/src/platform/src/custom_events.rs
@@ -5,9 +5,11 @@ use chrono::Utc;
 use common::rbac::ProjectPermission;
 use common::types::OptionalProperty;
 use metadata::custom_events::CustomEvents as MDCustomEvents;
+use metadata::MetadataProvider;
 use serde::Deserialize;
 use serde::Serialize;
 
+use crate::validate_event_filter;
 use crate::Context;
 use crate::EventRef;
 use crate::ListResponse;
@@ -15,12 +17,30 @@ use crate::PropValueFilter;
 use crate::Result;
 
 pub struct CustomEvents {
+    md: Arc<MetadataProvider>,
     prov: Arc<MDCustomEvents>,
 }
 
 impl CustomEvents {
-    pub fn new(prov: Arc<MDCustomEvents>) -> Self {
-        Self { prov }
+    pub fn new(md: Arc<MetadataProvider>) -> Self {
+        let prov = md.custom_events.clone();
+        Self { md, prov }
+    }
+
+    fn validate_events(&self, project_id: u64, events: &[Event]) -> Result<()> {
+        for (event_id, event) in events.iter().enumerate() {
+            for (filter_id, filter) in event.filters.iter().flatten().enumerate() {
+                validate_event_filter(
+                    &self.md,
+                    project_id,
+                    filter,
+                    filter_id,
+                    format!("event #{event_id}, "),
+                )?;
+            }
+        }
+
+        Ok(())
     }
 
     pub async fn create(
@@ -35,6 +55,7 @@ impl CustomEvents {
             ProjectPermission::ManageSchema,
         )?;
 
+        self.validate_events(project_id, &req.events)?;
         let md_req = metadata::custom_events::CreateCustomEventRequest {
             created_by: ctx.account_id,
             tags: req.tags,
@@ -97,6 +118,7 @@ impl CustomEvents {
         };
 
         if let OptionalProperty::Some(events) = req.events {
+            self.validate_events(project_id, &events)?;
             md_req.events.insert(
                 events
                     .iter()
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index e015cdd..e9fa225 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -131,7 +131,7 @@ impl PlatformProvider {
             .collect::<Vec<_>>();
         Self {
             events: Arc::new(Events::new(md.events.clone())),
-            custom_events: Arc::new(CustomEvents::new(md.custom_events.clone())),
+            custom_events: Arc::new(CustomEvents::new(md.clone())),
             groups: Arc::new(Groups::new(md.groups.clone())),
             event_properties: Arc::new(Properties::new_event(
                 md.event_properties.clone(),
-- 
2.43.0


From 54f24d50190920aced4ee0f2d6da92d4dded9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 110/130] fix: records of a project that does not exist are not
 found, not a panic

---
 src/query/src/event_records.rs | 7 +++++++
 src/query/src/group_records.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 9ad4f02..8c41820 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -227,6 +227,13 @@ pub fn build_search_plan(
                 }));
             }
         }
+        if exprs.is_empty() {
+            return Err(MetadataError::NotFound(format!(
+                "project {} has no properties",
+                ctx.project_id
+            ))
+            .into());
+        }
     };
 
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index c287436..a6986b5 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -218,6 +218,13 @@ pub fn build_search_plan(
                 }));
             }
         }
+        if exprs.is_empty() {
+            return Err(MetadataError::NotFound(format!(
+                "project {} has no properties of group {}",
+                ctx.project_id, req.group_id
+            ))
+            .into());
+        }
     };
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = project_plan(&ctx, GROUP_COLUMN_PROJECT_ID, input)?;
-- 
2.43.0


From 2f0c05b90d59bbfaa33b964d4db1086a678b1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 111/130] fix: records of a group are not searched by
 properties of another table

---
 src/platform/src/group_records.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 0351350..3fa0544 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -17,6 +17,7 @@ use crate::validate_event_filter;
 use crate::Context;
 use crate::EventGroupedFilters;
 use crate::PlatformError;
+use crate::PropValueFilter;
 use crate::PropertyAndValue;
 use crate::PropertyRef;
 use crate::QueryParams;
@@ -164,6 +165,8 @@ pub(crate) fn validate_search_request(
                 }
                 for (filter_id, filter) in filter_group.filters.iter().enumerate() {
                     validate_event_filter(md, project_id, filter, filter_id, "".to_string())?;
+                    let PropValueFilter::Property { property, .. } = filter;
+                    validate_property_group(property, req.group, format!("filter #{filter_id}"))?;
                 }
             }
         }
@@ -178,6 +181,7 @@ pub(crate) fn validate_search_request(
                 ));
             }
             for (idx, prop) in props.iter().enumerate() {
+                validate_property_group(prop, req.group, format!("property {idx}"))?;
                 match prop {
                     PropertyRef::Group {
                         property_name,
@@ -209,15 +213,15 @@ pub(crate) fn validate_search_request(
             property_name,
             group,
             ..
-        }) => {
+        }) if *group == req.group => {
             group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("sort: {err}")))?;
         }
-        Some(SortablePropertyRef::Event { property_name, .. }) => {
-            md.event_properties
-                .get_by_name(project_id, property_name)
-                .map_err(|err| PlatformError::BadRequest(format!("sort: {err}")))?;
+        Some(SortablePropertyRef::Group { .. } | SortablePropertyRef::Event { .. }) => {
+            return Err(PlatformError::BadRequest(
+                "sort: property is not of the group".to_string(),
+            ));
         }
         Some(SortablePropertyRef::Custom { .. }) => {
             return Err(PlatformError::Unimplemented(
@@ -228,6 +232,19 @@ pub(crate) fn validate_search_request(
     Ok(())
 }
 
+/// Records of a group have properties of the group only
+fn validate_property_group(property: &PropertyRef, group: usize, err_prefix: String) -> Result<()> {
+    match property {
+        PropertyRef::Group { group: id, .. } if *id == group => Ok(()),
+        PropertyRef::Group { .. } | PropertyRef::Event { .. } => Err(PlatformError::BadRequest(
+            format!("{err_prefix}: property is not of the group"),
+        )),
+        PropertyRef::Custom { .. } => Err(PlatformError::Unimplemented(
+            "invalid property type".to_string(),
+        )),
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize)]
 #[serde(rename_all = "camelCase")]
 pub struct GroupRecordsSearchRequest {
-- 
2.43.0


From bea951caa15d97bd68c56dc66773a870de9d3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 112/130] fix: records of a group out of range are refused, not
 an internal error

---
 src/platform/src/group_records.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 3fa0544..8c0cb72 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -141,6 +141,7 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &GroupRecordsSearchRequest,
 ) -> Result<()> {
+    group_properties(md, req.group)?;
     if let Some(QueryTime::Between { from, to }) = &req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
-- 
2.43.0


From 6b7e4bbd1602a340ee745372971c0c3e025b3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 113/130] fix: a query's timestamp too far to reckon with is
 refused, not a panic

---
 src/platform/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index e9fa225..a081e0a 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -44,6 +44,7 @@ use arrow::array::UInt32Array;
 use arrow::array::UInt64Array;
 use arrow::array::UInt8Array;
 use chrono::DateTime;
+use chrono::Datelike;
 use chrono::Utc;
 use common::config::Config;
 use common::types::DType;
@@ -782,9 +783,12 @@ impl QueryParams {
     pub fn cur_time(&self) -> Result<DateTime<Utc>> {
         match self.timestamp {
             None => Ok(Utc::now()),
-            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0).ok_or_else(|| {
-                PlatformError::BadRequest(format!("timestamp {ts_sec} is out of range"))
-            }),
+            // intervals around the time have to be representable too
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0)
+                .filter(|t| (-9999..=9999).contains(&t.year()))
+                .ok_or_else(|| {
+                    PlatformError::BadRequest(format!("timestamp {ts_sec} is out of range"))
+                }),
         }
     }
 }
-- 
2.43.0


From d3d11d24445a483a2a598f2107fae96c166cbf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 114/130] fix: filters of a funnel's excluded events are
 validated as any other

---
 src/platform/src/funnel.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 668099e..a1b4bf5 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -194,6 +194,17 @@ pub(crate) fn validate_request(
                 exclude_id,
                 format!("exclude #{exclude_id}, "),
             )?;
+            if let Some(filters) = &exclude.filters {
+                for (filter_id, filter) in filters.iter().enumerate() {
+                    validate_event_filter(
+                        md,
+                        project_id,
+                        filter,
+                        filter_id,
+                        format!("exclude #{exclude_id}, "),
+                    )?;
+                }
+            }
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
-- 
2.43.0


From 6394271dbd1bb55e2fc93e27591afe036259b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 115/130] fix: a query of more than the representable last
 intervals is refused, not a panic

---
 src/platform/src/event_records.rs      |  8 +------
 src/platform/src/event_segmentation.rs |  8 +------
 src/platform/src/funnel.rs             |  8 +------
 src/platform/src/group_records.rs      |  8 ++-----
 src/platform/src/lib.rs                | 31 ++++++++++++++++++++++++++
 5 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index b1c8b58..516577f 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -200,13 +200,7 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &EventRecordsSearchRequest,
 ) -> Result<()> {
-    if let QueryTime::Between { from, to } = req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
-    }
+    req.time.validate()?;
 
     if let Some(events) = &req.events {
         if events.is_empty() {
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 2585e12..c98890b 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -543,13 +543,7 @@ pub(crate) fn validate_request(
             "group id is out of range".to_string(),
         ));
     }
-    if let QueryTime::Between { from, to } = req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
-    }
+    req.time.validate()?;
 
     if req.events.is_empty() {
         return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index a1b4bf5..f8c1293 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -116,13 +116,7 @@ pub(crate) fn validate_request(
         ));
     }
 
-    if let QueryTime::Between { from, to } = req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
-    }
+    req.time.validate()?;
 
     if req.steps.is_empty() {
         return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 8c0cb72..bbf9725 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -142,12 +142,8 @@ pub(crate) fn validate_search_request(
     req: &GroupRecordsSearchRequest,
 ) -> Result<()> {
     group_properties(md, req.group)?;
-    if let Some(QueryTime::Between { from, to }) = &req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
+    if let Some(time) = &req.time {
+        time.validate()?;
     }
 
     match &req.filters {
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index a081e0a..a78312d 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -809,6 +809,37 @@ pub enum QueryTime {
     },
 }
 
+impl QueryTime {
+    pub fn validate(&self) -> Result<()> {
+        match self {
+            QueryTime::Between { from, to } => {
+                if from > to {
+                    return Err(PlatformError::BadRequest(
+                        "from time must be less than to time".to_string(),
+                    ));
+                }
+            }
+            QueryTime::From { .. } => {}
+            QueryTime::Last { last, unit } => {
+                let per_year = match unit {
+                    TimeIntervalUnit::Hour => 24 * 366,
+                    TimeIntervalUnit::Day => 366,
+                    TimeIntervalUnit::Week => 53,
+                    TimeIntervalUnit::Month => 12,
+                    TimeIntervalUnit::Year => 1,
+                };
+                if last.unsigned_abs() > 9999 * per_year {
+                    return Err(PlatformError::BadRequest(
+                        "last time is out of range".to_string(),
+                    ));
+                }
+            }
+        }
+
+        Ok(())
+    }
+}
+
 #[allow(clippy::all)]
 impl Into<common::query::QueryTime> for QueryTime {
     fn into(self) -> common::query::QueryTime {
-- 
2.43.0


From 2f68988d1be0288bd02e2a612dcf628ecccf8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 116/130] fix: numbers a decimal property can't be compared
 with are refused

---
 src/platform/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index a78312d..9d713a6 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1678,6 +1678,17 @@ pub fn validate_event_filter_property(
                             )));
                         }
                     }
+                    // more than 38 digits can't be compared
+                    Value::Number(n)
+                        if prop.data_type == DType::Decimal
+                            && n.as_f64().map_or(true, |n| {
+                                n.abs() >= 10f64.powi(38 - DECIMAL_SCALE as i32)
+                            }) =>
+                    {
+                        return Err(PlatformError::BadRequest(format!(
+                            "{err_prefix}value {vid} is out of range"
+                        )));
+                    }
                     Value::Number(_) => match prop.data_type {
                         DType::Int8
                         | DType::Int16
-- 
2.43.0


From 9284462e566888434c7d8e99c9592081b8134dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 117/130] fix: a funnel's time window out of range is refused,
 not a panic

---
 src/platform/src/funnel.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index f8c1293..acc4ab0 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -118,6 +118,20 @@ pub(crate) fn validate_request(
 
     req.time.validate()?;
 
+    let max_window = match req.time_window.unit {
+        TimeIntervalUnitSession::Hour => 9999 * 24 * 366,
+        TimeIntervalUnitSession::Day => 9999 * 366,
+        TimeIntervalUnitSession::Week => 9999 * 53,
+        TimeIntervalUnitSession::Month => 9999 * 12,
+        TimeIntervalUnitSession::Year => 9999,
+        TimeIntervalUnitSession::Session => usize::MAX,
+    };
+    if req.time_window.n > max_window {
+        return Err(PlatformError::BadRequest(
+            "time window is out of range".to_string(),
+        ));
+    }
+
     if req.steps.is_empty() {
         return Err(PlatformError::BadRequest(
             "steps must not be empty".to_string(),
-- 
2.43.0


From 94a16a83b75fdba71d9a92de681cdc32ff675811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 118/130] fix: a funnel's time window of sessions is answered
 as not implemented, not a panic

---
 src/platform/src/funnel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index acc4ab0..c1172a3 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -124,7 +124,11 @@ pub(crate) fn validate_request(
         TimeIntervalUnitSession::Week => 9999 * 53,
         TimeIntervalUnitSession::Month => 9999 * 12,
         TimeIntervalUnitSession::Year => 9999,
-        TimeIntervalUnitSession::Session => usize::MAX,
+        TimeIntervalUnitSession::Session => {
+            return Err(PlatformError::Unimplemented(
+                "session time window is unimplemented yet".to_string(),
+            ));
+        }
     };
     if req.time_window.n > max_window {
         return Err(PlatformError::BadRequest(
-- 
2.43.0


From 48ccbeceff1e33f958a031ac0fe5e7487a790a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 119/130] fix: looking up a key does not fail when its part is
 compacted meanwhile

---
 src/storage/src/db.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 6bbbc56..916aed8 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -925,8 +926,20 @@ impl OptiDBImpl {
             return Ok(Some(v));
         }
         drop(mt);
+        // hold the metadata until parts are opened: a compaction in between would remove them
         let md = tbl.metadata.lock();
         let metadata = md.clone();
+        let mut rdrs = HashMap::new();
+        for (level_id, level) in metadata.levels.iter().enumerate() {
+            for part in level.parts.iter() {
+                if key >= part.min[..part.min.len()].to_vec()
+                    && key <= part.max[..part.max.len()].to_vec()
+                {
+                    let path = part_path(&self.path, tbl_name, level_id, part.id);
+                    rdrs.insert((level_id, part.id), File::open(path)?);
+                }
+            }
+        }
         drop(md);
 
         for (level_id, level) in metadata.levels.iter().enumerate() {
@@ -934,11 +947,7 @@ impl OptiDBImpl {
             parts.reverse();
             for part in parts.iter() {
                 let _offset = if metadata.opts.is_replacing { 1 } else { 0 };
-                if key >= part.min[..part.min.len()].to_vec()
-                    && key <= part.max[..part.max.len()].to_vec()
-                {
-                    let path = part_path(&self.path, tbl_name, level_id, part.id);
-                    let mut rdr = File::open(path)?;
+                if let Some(mut rdr) = rdrs.remove(&(level_id, part.id)) {
                     let parquet_md = read::read_metadata(&mut rdr)?;
                     let schema = read::infer_schema(&parquet_md)?;
 
-- 
2.43.0


From f78c940af691b1319ac778b1405e2809420a43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 120/130] fix: sums and averages above 10^12 are not dropped
 from the answer

---
 src/query/src/physical_plan/unpivot.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 0b4477c..c818b54 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -35,6 +35,7 @@ use arrow::datatypes::Field;
 use arrow::datatypes::FieldRef;
 use arrow::datatypes::Schema;
 use arrow::datatypes::SchemaRef;
+use arrow::datatypes::DECIMAL128_MAX_PRECISION;
 use arrow::error::Result as ArrowResult;
 use arrow::record_batch::RecordBatch;
 use axum::async_trait;
@@ -436,6 +437,10 @@ pub fn unpivot(
     // define value type
     let value_type = DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE);
 
+    // sums may have more digits than a single value: a cast to the precision of the value type
+    // would make nulls of them
+    let cast_type = DataType::Decimal128(DECIMAL128_MAX_PRECISION, DECIMAL_SCALE);
+
     // cast unpivot cols to value type
     let unpivot_arrs: Vec<ArrayRef> = batch
         .columns()
@@ -447,9 +452,9 @@ pub fn unpivot(
             DataType::UInt64 => {
                 // first cast uint to int because Arrow 9.1.0 doesn't support casting from uint to decimal
                 let int_arr = arrow::compute::cast(arr, &DataType::Int64).unwrap();
-                arrow::compute::cast(&int_arr, &value_type).unwrap()
+                arrow::compute::cast(&int_arr, &cast_type).unwrap()
             }
-            _other => arrow::compute::cast(arr, &value_type).unwrap(),
+            _other => arrow::compute::cast(arr, &cast_type).unwrap(),
         })
         .collect();
 
-- 
2.43.0


From 413630c22fbcc479fccef4ed357cfa3ff2b09614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 121/130] fix: a total with more digits than a Decimal is
 answered instead of panicking

---
 src/platform/src/lib.rs | 49 +++++++++++++----------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 9d713a6..2f93084 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -178,29 +178,26 @@ macro_rules! int_arr_to_json_values {
     }};
 }
 
+fn decimal_to_json(v: i128) -> Value {
+    let f = match Decimal::try_from_i128_with_scale(v, DECIMAL_SCALE as u32) {
+        Ok(d) => d
+            .round_dp(ROUND_DIGITS.into())
+            .to_f64()
+            .expect("can't convert decimal to f64"),
+        // sums may have more digits than Decimal can hold
+        Err(_) => v as f64 / 10f64.powi(DECIMAL_SCALE as i32),
+    };
+
+    Value::Number(Number::from_f64(f).expect("can't make json number from f64"))
+}
+
 pub fn scalar_to_json(v: &ScalarValue) -> Value {
     if v.is_null() {
         return Value::Null;
     }
     match v {
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
-        ScalarValue::Decimal128(Some(v), _, _) => {
-            let d = Decimal::from_i128_with_scale(*v, DECIMAL_SCALE as u32)
-                .round_dp(ROUND_DIGITS.into());
-            let d_f = match d.to_f64() {
-                None => {
-                    panic!("can't convert decimal to f64");
-                }
-                Some(v) => v,
-            };
-            let n = match Number::from_f64(d_f) {
-                None => {
-                    panic!("can't make json number from f64");
-                }
-                Some(v) => v,
-            };
-            Value::Number(n)
-        }
+        ScalarValue::Decimal128(Some(v), _, _) => decimal_to_json(*v),
         ScalarValue::Int8(Some(v)) => Value::Number(Number::from(*v)),
         ScalarValue::Int16(Some(v)) => Value::Number(Number::from(*v)),
         ScalarValue::Int32(Some(v)) => Value::Number(Number::from(*v)),
@@ -247,23 +244,7 @@ pub fn array_ref_to_json_values(arr: &ArrayRef) -> Vec<Value> {
             arr.iter()
                 .map(|value| match value {
                     None => Value::Number(Number::from_f64(0.0).unwrap()),
-                    Some(v) => {
-                        let d = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
-                            .round_dp(ROUND_DIGITS.into());
-                        let d_f = match d.to_f64() {
-                            None => {
-                                panic!("can't convert decimal to f64");
-                            }
-                            Some(v) => v,
-                        };
-                        let n = match Number::from_f64(d_f) {
-                            None => {
-                                panic!("can't make json number from f64");
-                            }
-                            Some(v) => v,
-                        };
-                        Value::Number(n)
-                    }
+                    Some(v) => decimal_to_json(v),
                 })
                 .collect::<Vec<_>>()
         }
-- 
2.43.0


From 4ed911a8cb9fbaaaa52e1c3d645cfa6dff904062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 122/130] fix: large numbers in stored filters are read as they
 were written

---
 src/platform/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 2f93084..bb3579a 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -306,7 +306,12 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
         ScalarValue::Decimal128(Some(v), _p, s) => Value::Number(
-            Number::from_f64(Decimal::new(*v as i64, *s as u32).to_f64().unwrap()).unwrap(),
+            Number::from_f64(
+                Decimal::from_i128_with_scale(*v, *s as u32)
+                    .to_f64()
+                    .unwrap(),
+            )
+            .unwrap(),
         ),
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Utf8(Some(v)) => Value::String(v.to_owned()),
-- 
2.43.0


From cae015569f9fdb207a2bb13f0ea428efb7f95038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 123/130] fix: one scheduled backup per due time also with ten
 backups and more

Backups are listed in the order of their keys, in which 9 comes after 10, so
the last one of the list is not the latest, and the scheduler made a backup
every ten seconds of the due minute.
---
 src/cmd/src/backup.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 6213e2d..85980b4 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -143,12 +143,12 @@ pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -
             }
 
             let backups = md.backups.list().expect("list backups error");
-            if let Some(last) = backups.data.last() {
-                let cur_time = last.created_at.naive_utc();
-                let cur_time = truncate_to_minute(&cur_time);
-                if cur_time == next_time {
-                    continue;
-                }
+            // the list is not ordered by time
+            if backups
+                .into_iter()
+                .any(|b| truncate_to_minute(&b.created_at.naive_utc()) == next_time)
+            {
+                continue;
             }
 
             let backup = create_backup(md.clone()).expect("create backup error");
-- 
2.43.0


From 422d6bb87fe4221ec23142bb81c8b87a10b8b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 124/130] fix: a backup interrupted while uploading fails at
 the restart

Only backups in progress were reset, one that was being uploaded stayed so
for ever, and its temporary file with it.
---
 src/cmd/src/backup.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 85980b4..59599af 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -48,7 +48,10 @@ pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -
     let backups = md.backups.list()?;
     // reset all in progress backups since they are stateless
     for backup in backups {
-        if matches!(backup.status, backups::Status::InProgress(_)) {
+        if matches!(
+            backup.status,
+            backups::Status::InProgress(_) | backups::Status::Uploading
+        ) {
             let p = cfg
                 .data
                 .path
-- 
2.43.0


From 277e088003d227436e2043c39d4643215d196b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 125/130] fix: a backup that could not be written is not stored
 and not completed

The error of writing the temporary archive was noted as the backup's status
only; the partial archive was then moved to the backups or uploaded, and the
status became completed.
---
 src/cmd/src/backup.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 59599af..4da3cdf 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -206,20 +206,9 @@ async fn run_backup(
                 .expect("update status error");
         };
 
-        match backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress) {
-            Ok(_) => {}
-            Err(e) => {
-                md_cloned
-                    .backups
-                    .update_status(
-                        backup_cloned.id,
-                        metadata::backups::Status::Failed(e.to_string()),
-                    )
-                    .expect("update status error");
-            }
-        }
+        backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress)
     });
-    hnd.await.unwrap();
+    hnd.await.unwrap()?;
     if matches!(backup.provider, Provider::Local(_)) {
         backup_local(&backup, &cfg, &tmp_path)?;
     } else if matches!(backup.provider, Provider::GCP(_)) {
-- 
2.43.0


From 398db2d8eeb2a5fa0ef3d011926ec6a4d11cfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 126/130] fix: a failed backup leaves no temporary archive
 behind

---
 src/cmd/src/backup.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 4da3cdf..9285769 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -208,16 +208,35 @@ async fn run_backup(
 
         backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress)
     });
-    hnd.await.unwrap()?;
+    let mut res = hnd.await.unwrap();
+    if res.is_ok() {
+        res = store_backup(&backup, &md, &cfg, settings, &tmp_path).await;
+    }
+    if let Err(e) = res {
+        if tmp_path.exists() {
+            fs::remove_file(&tmp_path)?;
+        }
+        return Err(e);
+    }
+    debug!("backup successful");
+    Ok(backup)
+}
+
+async fn store_backup(
+    backup: &Backup,
+    md: &Arc<MetadataProvider>,
+    cfg: &Config,
+    settings: &Settings,
+    tmp_path: &PathBuf,
+) -> Result<()> {
     if matches!(backup.provider, Provider::Local(_)) {
-        backup_local(&backup, &cfg, &tmp_path)?;
+        backup_local(backup, cfg, tmp_path)?;
     } else if matches!(backup.provider, Provider::GCP(_)) {
         md.backups
             .update_status(backup.id, backups::Status::Uploading)?;
-        backup_gcp(&backup, settings, &tmp_path).await?;
+        backup_gcp(backup, settings, tmp_path).await?;
     };
-    debug!("backup successful");
-    Ok(backup)
+    Ok(())
 }
 
 fn create_backup(md: Arc<MetadataProvider>) -> Result<Backup> {
-- 
2.43.0


From 3278ea83a698ab23ed1a97aef18da37c1095ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 127/130] fix: a failed upload fails its backup instead of
 ending the scheduler

The task that makes the backups panicked on it: the backup stayed uploading
and no other was made until the next start.
---
 src/cmd/src/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 9285769..b41b77d 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -324,7 +324,7 @@ async fn backup_gcp(backup: &Backup, settings: &Settings, tmp_path: &PathBuf) ->
         }
         w.write(&buf[..n]);
     }
-    w.finish().await.unwrap();
+    w.finish().await?;
     fs::remove_file(tmp_path)?;
 
     Ok(())
-- 
2.43.0


From f7b3907129d240b3ab4ea86a2c0499e39b547ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 128/130] fix: a backup for S3, which nothing uploads, fails
 instead of completing

One asked for became completed with its archive left in the temporary
directory; a scheduled one ended the scheduler by a panic.
---
 src/cmd/src/backup.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index b41b77d..15d176e 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -19,7 +19,6 @@ use metadata::backups;
 use metadata::backups::Backup;
 use metadata::backups::CreateBackupRequest;
 use metadata::backups::Provider;
-use metadata::settings::BackupProvider;
 use metadata::settings::BackupScheduleInterval;
 use metadata::settings::Settings;
 use metadata::MetadataProvider;
@@ -34,6 +33,7 @@ use tracing::error;
 use zip::write::SimpleFileOptions;
 use zip::AesMode;
 
+use crate::error::Error;
 use crate::error::Result;
 
 fn truncate_to_minute(dt: &NaiveDateTime) -> NaiveDateTime {
@@ -229,24 +229,24 @@ async fn store_backup(
     settings: &Settings,
     tmp_path: &PathBuf,
 ) -> Result<()> {
-    if matches!(backup.provider, Provider::Local(_)) {
-        backup_local(backup, cfg, tmp_path)?;
-    } else if matches!(backup.provider, Provider::GCP(_)) {
-        md.backups
-            .update_status(backup.id, backups::Status::Uploading)?;
-        backup_gcp(backup, settings, tmp_path).await?;
-    };
+    match &backup.provider {
+        Provider::Local(_) => backup_local(backup, cfg, tmp_path)?,
+        Provider::GCP(_) => {
+            md.backups
+                .update_status(backup.id, backups::Status::Uploading)?;
+            backup_gcp(backup, settings, tmp_path).await?;
+        }
+        Provider::S3(_) => {
+            return Err(Error::BackupError(
+                "S3 provider is not supported".to_string(),
+            ));
+        }
+    }
     Ok(())
 }
 
 fn create_backup(md: Arc<MetadataProvider>) -> Result<Backup> {
     let settings = md.settings.load()?;
-    match settings.backup_provider {
-        BackupProvider::Local => {}
-        BackupProvider::GCP => {}
-        _ => panic!("invalid backup provider"),
-    }
-
     let req = CreateBackupRequest::from_settings(&settings);
     Ok(md.backups.create(req)?)
 }
-- 
2.43.0


From 98c3ad79c5cf5414ff7f9987ceb3a5ba57fe5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:09 +0000
Subject: [PATCH 129/130] fix: a backup is uploaded to the bucket its record
 names

The bucket of the settings was taken, which may have been changed since the
backup was asked for, while the path is the record's.
---
 src/cmd/src/backup.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 15d176e..7ca9f5b 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -18,6 +18,7 @@ use croner::Cron;
 use metadata::backups;
 use metadata::backups::Backup;
 use metadata::backups::CreateBackupRequest;
+use metadata::backups::GCPProvider;
 use metadata::backups::Provider;
 use metadata::settings::BackupScheduleInterval;
 use metadata::settings::Settings;
@@ -231,10 +232,10 @@ async fn store_backup(
 ) -> Result<()> {
     match &backup.provider {
         Provider::Local(_) => backup_local(backup, cfg, tmp_path)?,
-        Provider::GCP(_) => {
+        Provider::GCP(gcp) => {
             md.backups
                 .update_status(backup.id, backups::Status::Uploading)?;
-            backup_gcp(backup, settings, tmp_path).await?;
+            backup_gcp(backup, gcp, settings, tmp_path).await?;
         }
         Provider::S3(_) => {
             return Err(Error::BackupError(
@@ -305,9 +306,14 @@ fn backup_local(backup: &Backup, cfg: &Config, tmp_path: &PathBuf) -> Result<()>
     Ok(())
 }
 
-async fn backup_gcp(backup: &Backup, settings: &Settings, tmp_path: &PathBuf) -> Result<()> {
+async fn backup_gcp(
+    backup: &Backup,
+    provider: &GCPProvider,
+    settings: &Settings,
+    tmp_path: &PathBuf,
+) -> Result<()> {
     let gcs = GoogleCloudStorageBuilder::new()
-        .with_bucket_name(settings.backup_provider_gcp_bucket.clone())
+        .with_bucket_name(provider.bucket.clone())
         .with_service_account_key(settings.backup_provider_gcp_key.clone())
         .build()?;
     let path = object_store::path::Path::from(backup.path());
-- 
2.43.0


From 503b333177bfa443ce0ca138243d633154a16dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 130/130] fix: a session that cannot be ended does not keep the
 others from ending

A project whose session end event or session length property has been
deleted ended the thread that ends the sessions of all projects by a panic.
---
 src/cmd/src/lib.rs | 115 ++++++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 49 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 2ebe804..999c009 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -18,6 +18,7 @@ use ::storage::table::Options as TableOptions;
 use ::storage::NamedValue;
 use ::storage::Value;
 use axum::Router;
+use chrono::DateTime;
 use chrono::Utc;
 use common::config::Config;
 use common::group_col;
@@ -80,6 +81,7 @@ use metadata::error::MetadataError;
 use metadata::organizations::CreateOrganizationRequest;
 use metadata::projects::CreateProjectRequest;
 use metadata::projects::Project;
+use metadata::sessions::Session;
 use metadata::MetadataProvider;
 use metrics::describe_counter;
 use metrics::describe_gauge;
@@ -100,6 +102,7 @@ use rand::rngs::StdRng;
 use rand::thread_rng;
 use rand::Rng;
 use rand::SeedableRng;
+use tracing::error;
 use tracing::info;
 use uaparser::UserAgentParser;
 
@@ -370,55 +373,14 @@ fn init_session_cleaner(
                         if sess_len.num_seconds() < project.session_duration_seconds as i64 {
                             return Ok(false);
                         }
-                        let groups = (1..GROUPS_COUNT)
-                            .map(|gid| NamedValue::new(group_col(gid), Value::Int64(None)))
-                            .collect::<Vec<_>>();
-
-                        let record_id = md.events.next_record_sequence(project.id).unwrap();
-
-                        let event_id = md
-                            .events
-                            .get_by_name(project.id, EVENT_SESSION_END)
-                            .unwrap()
-                            .id;
-
-                        let values = [
-                            vec![
-                                NamedValue::new(
-                                    COLUMN_PROJECT_ID.to_string(),
-                                    Value::Int64(Some(project.id as i64)),
-                                ),
-                                NamedValue::new(
-                                    group_col(GROUP_USER_ID),
-                                    Value::Int64(Some(sess.user_id as i64)),
-                                ),
-                            ],
-                            groups.clone(),
-                            vec![
-                                NamedValue::new(
-                                    COLUMN_CREATED_AT.to_string(),
-                                    Value::Timestamp(Some(now.timestamp_millis())),
-                                ),
-                                NamedValue::new(
-                                    COLUMN_EVENT_ID.to_string(),
-                                    Value::Int64(Some(record_id as i64)),
-                                ),
-                                NamedValue::new(
-                                    COLUMN_EVENT.to_string(),
-                                    Value::Int64(Some(event_id as i64)),
-                                ),
-                                NamedValue::new(
-                                    md.event_properties
-                                        .get_by_name(project.id, EVENT_PROPERTY_SESSION_LENGTH)
-                                        .unwrap()
-                                        .column_name(),
-                                    Value::Timestamp(Some(sess_len.num_seconds())),
-                                ),
-                            ],
-                        ]
-                        .concat();
-
-                        db.insert(TABLE_EVENTS, values).unwrap();
+                        // a session that cannot be ended must not keep the others from ending
+                        if let Err(err) = end_session(&md, &db, project.id, sess, now) {
+                            error!(
+                                "session of user {} in project {} is not ended: {}",
+                                sess.user_id, project.id, err
+                            );
+                            return Ok(false);
+                        }
 
                         Ok(true)
                     })
@@ -430,6 +392,61 @@ fn init_session_cleaner(
     Ok(())
 }
 
+fn end_session(
+    md: &Arc<MetadataProvider>,
+    db: &Arc<OptiDBImpl>,
+    project_id: u64,
+    sess: &Session,
+    now: DateTime<Utc>,
+) -> crate::error::Result<()> {
+    let event_id = md.events.get_by_name(project_id, EVENT_SESSION_END)?.id;
+    let length_col = md
+        .event_properties
+        .get_by_name(project_id, EVENT_PROPERTY_SESSION_LENGTH)?
+        .column_name();
+    let record_id = md.events.next_record_sequence(project_id)?;
+    let groups = (1..GROUPS_COUNT)
+        .map(|gid| NamedValue::new(group_col(gid), Value::Int64(None)))
+        .collect::<Vec<_>>();
+
+    let values = [
+        vec![
+            NamedValue::new(
+                COLUMN_PROJECT_ID.to_string(),
+                Value::Int64(Some(project_id as i64)),
+            ),
+            NamedValue::new(
+                group_col(GROUP_USER_ID),
+                Value::Int64(Some(sess.user_id as i64)),
+            ),
+        ],
+        groups,
+        vec![
+            NamedValue::new(
+                COLUMN_CREATED_AT.to_string(),
+                Value::Timestamp(Some(now.timestamp_millis())),
+            ),
+            NamedValue::new(
+                COLUMN_EVENT_ID.to_string(),
+                Value::Int64(Some(record_id as i64)),
+            ),
+            NamedValue::new(
+                COLUMN_EVENT.to_string(),
+                Value::Int64(Some(event_id as i64)),
+            ),
+            NamedValue::new(
+                length_col,
+                Value::Timestamp(Some((now - sess.created_at).num_seconds())),
+            ),
+        ],
+    ]
+    .concat();
+
+    db.insert(TABLE_EVENTS, values)?;
+
+    Ok(())
+}
+
 // not for high load
 fn get_random_key64(rng: &mut StdRng) -> [u8; 64] {
     let mut arr = [0u8; 64];
-- 
2.43.0

