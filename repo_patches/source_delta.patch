From b2865d962fea39b68f067d816ec52fa7f17f4a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 001/113] fix: replace the table metadata file atomically

---
 src/storage/src/compaction.rs |  3 +--
 src/storage/src/db.rs         | 41 ++++++++++++-----------------------
 src/storage/src/table.rs      |  1 -
 3 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index ff012df..6840ba7 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -153,8 +153,7 @@ impl Compactor {
                             for (idx, l) in res.levels.iter().enumerate().skip(1) {
                                 metadata.levels[idx] = l.clone();
                             }
-                            let mut manifest = table.metadata_f.lock();
-                            write_metadata(manifest.get_mut(), &mut metadata).unwrap();
+                            write_metadata(&self.path, &metadata).unwrap();
                             drop(metadata);
                             // drop because next fs operation is with locking
                             for op in res.fs_ops {
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..5dcd5d2 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -7,7 +7,6 @@ use std::io;
 use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
-use std::io::Seek;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -278,7 +277,9 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     Ok(())
 }
 
-pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Result<usize> {
+// Replaces the metadata file of the table as a whole, so that a crash or an error leaves either the
+// previous or the new version in place.
+pub(crate) fn write_metadata(path: &Path, metadata: &Metadata) -> Result<usize> {
     let data = serialize_md(metadata)?;
     let mut a = Vec::with_capacity(1024 * 10);
     let crc = hash_crc32(&data);
@@ -287,8 +288,12 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
     let vv = (data.len() as u64).to_le_bytes();
     a.push(vv.as_slice());
     a.push(&data);
-    manifest.rewind()?;
+    let dir = path.join("tables").join(&metadata.table_name);
+    let tmp_path = dir.join("metadata.tmp");
+    let mut manifest = File::create(&tmp_path)?;
     manifest.write_all(a.concat().as_slice())?;
+    drop(manifest);
+    fs::rename(tmp_path, dir.join("metadata"))?;
     let logged_size = 8 + 4 + data.len();
     // !@#trace!("logged size: {}", logged_size);
     // log.flush()?;
@@ -297,10 +302,7 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
 
 fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let start_time = Instant::now();
-    let mut mdf = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .open(path.join("metadata"))?;
+    let mut mdf = File::open(path.join("metadata"))?;
     let mut crc_b = [0u8; mem::size_of::<u32>()];
     let read_bytes = mdf.read(&mut crc_b)?;
     if read_bytes == 0 {
@@ -391,7 +393,6 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         name,
         memtable: Arc::new(Mutex::new(memtable)),
         metadata: Arc::new(Mutex::new(md)),
-        metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
         log: Arc::new(Mutex::new(log)),
         cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
     })
@@ -534,12 +535,7 @@ fn flush_log_(
     // create new log
     trace!("creating new log file {:?}", log_name(metadata.log_id));
 
-    let mut manifest = OpenOptions::new()
-        .write(true)
-        .read(true)
-        .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
-
-    write_metadata(&mut manifest, metadata)?;
+    write_metadata(path, metadata)?;
 
     trace!(
         "removing previous log file {:?}",
@@ -1258,8 +1254,7 @@ impl OptiDBImpl {
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
         metadata.schema.fields.push(field.clone());
-        let mut mdf = tbl.metadata_f.lock();
-        write_metadata(mdf.get_mut(), &mut metadata)?;
+        write_metadata(&self.path, &metadata)?;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
@@ -1288,7 +1283,7 @@ impl OptiDBImpl {
             fs::create_dir_all(path.join("levels").join(lid.to_string()))?;
         }
 
-        let mut metadata = Metadata {
+        let metadata = Metadata {
             version: 0,
             log_id: 0,
             table_name: table_name.clone(),
@@ -1304,17 +1299,11 @@ impl OptiDBImpl {
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
-        let mut mdf = OpenOptions::new()
-            .create_new(true)
-            .write(true)
-            .read(true)
-            .open(path.join("metadata"))?;
-        write_metadata(&mut mdf, &mut metadata)?;
+        write_metadata(&self.path, &metadata)?;
         let tbl = Table {
             name: table_name.clone(),
             memtable: Arc::new(Mutex::new(memtable)),
             metadata: Arc::new(Mutex::new(metadata)),
-            metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
             log: Arc::new(Mutex::new(BufWriter::new(log))),
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
@@ -1462,12 +1451,10 @@ impl OptiDBImpl {
         for tbl in tables {
             fs::create_dir_all(path.join(format!("tables/{}", tbl.name)))?;
             // md
-            let md_path = path.join(format!("tables/{}/metadata", tbl.name));
-            let mut md_w = File::create(md_path)?;
             let mut md = tbl.metadata.clone();
             md.log_id = 0;
             md.version = version;
-            write_metadata(&mut md_w, &mut md)?;
+            write_metadata(&path, &md)?;
 
             // log
             let mut log_len_b = [0u8; mem::size_of::<u64>()];
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 21c86c0..bc6441b 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -112,7 +112,6 @@ pub(crate) struct Table {
     pub(crate) name: String,
     pub(crate) memtable: Arc<Mutex<Memtable>>,
     pub(crate) metadata: Arc<Mutex<Metadata>>,
-    pub(crate) metadata_f: Arc<Mutex<BufWriter<File>>>,
     pub(crate) log: Arc<Mutex<BufWriter<File>>>,
     pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, i64>>>,
 }
-- 
2.43.0


From ce90300d6588dfb2194fa4358e0f859f6b07adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 002/113] fix: interrupted table creation does not make the
 store unopenable

---
 src/storage/src/db.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 5dcd5d2..60583ad 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -406,6 +406,12 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let dir = fs::read_dir(path.join("tables"))?;
     for f in dir {
         let f = f?;
+        // the metadata file is the last thing written when a table is created. Without it the
+        // creation was interrupted and the table has never been used
+        if !f.path().join("metadata").try_exists()? {
+            fs::remove_dir_all(f.path())?;
+            continue;
+        }
         tables.push(try_recover_table(
             f.path(),
             f.file_name().to_os_string().into_string().unwrap(),
@@ -1269,14 +1275,13 @@ impl OptiDBImpl {
 
     pub fn create_table(&self, table_name: String, opts: table::Options) -> Result<()> {
         let _g = self.global_lock.read();
-        let tbl = self.tables.read();
-        if tbl.iter().any(|t| t.name == table_name) {
+        let mut tables = self.tables.write();
+        if tables.iter().any(|t| t.name == table_name) {
             return Err(StoreError::AlreadyExists(format!(
                 "Table with name {} already exists",
                 table_name
             )));
         }
-        drop(tbl);
         let path = self.path.join("tables").join(table_name.clone());
         fs::create_dir_all(&path)?;
         for lid in 0..opts.levels {
@@ -1294,8 +1299,10 @@ impl OptiDBImpl {
         };
 
         let memtable = Memtable::new();
+        // truncate because an earlier creation of the table could have failed at any point
         let log = OpenOptions::new()
-            .create_new(true)
+            .create(true)
+            .truncate(true)
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
@@ -1308,7 +1315,6 @@ impl OptiDBImpl {
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
 
-        let mut tables = self.tables.write();
         tables.push(tbl);
         Ok(())
     }
-- 
2.43.0


From 4057967741cb29b8b9f6a7645ac929252e8533d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 003/113] fix: recover log records written before a column was
 added

---
 src/storage/src/db.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 60583ad..4a1641b 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -268,7 +268,13 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
             let vv = [kv, v].concat();
-            for (idx, val) in vv.into_iter().enumerate() {
+            // columns added after the record has been logged
+            let missing = memtable.cols_len().saturating_sub(vv.len());
+            for (idx, val) in vv
+                .into_iter()
+                .chain(vec![Value::Null; missing])
+                .enumerate()
+            {
                 memtable.push_value(idx, val);
             }
         }
-- 
2.43.0


From 8659a848ce07bd7d07f12b7f5e7649b5552ee781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 004/113] fix: recover the log named by the metadata and drop a
 partially written last record

---
 src/storage/src/db.rs | 83 +++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 4a1641b..a0209aa 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -7,6 +5,8 @@ use std::io;
 use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
+use std::io::Seek;
+use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -106,6 +106,8 @@ use crate::Value;
 
 // todo make semver
 const VERSION: u64 = 1;
+// crc32 and length
+const LOG_HEADER_SIZE: usize = mem::size_of::<u32>() + mem::size_of::<u64>();
 const BACKUP_MAGIC: [u8; 8] = [0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7, 0x8];
 
 pub(crate) fn part_path(path: &Path, table_name: &str, level_id: usize, part_id: usize) -> PathBuf {
@@ -263,6 +265,26 @@ fn log_op(op: LogOp, log: &mut File) -> Result<usize> {
     Ok(logged_size)
 }
 
+// Reads checksum and data of the next log record. Returns None at the end of the log and also if the
+// rest of the log is shorter than the record.
+fn read_log_record<R: Read>(log: &mut R) -> Result<Option<(u32, Vec<u8>)>> {
+    let mut header = Vec::with_capacity(LOG_HEADER_SIZE);
+    log.take(LOG_HEADER_SIZE as u64).read_to_end(&mut header)?;
+    if header.len() < LOG_HEADER_SIZE {
+        return Ok(None);
+    }
+    let (crc_b, len_b) = header.split_at(mem::size_of::<u32>());
+    let crc32 = u32::from_le_bytes(crc_b.try_into().unwrap());
+    let len = u64::from_le_bytes(len_b.try_into().unwrap());
+    let mut data = Vec::new();
+    log.take(len).read_to_end(&mut data)?;
+    if (data.len() as u64) < len {
+        return Ok(None);
+    }
+
+    Ok(Some((crc32, data)))
+}
+
 fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     match op {
         LogOp::Insert(k, v) => {
@@ -329,52 +351,26 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
 
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
-        return Err(StoreError::Internal("no logs found".to_string()));
-    }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
-    // todo make a buffered read. Currently something odd happens with reading the length of the record
-    let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
+    // Only the log the metadata refers to holds rows that are not in parts yet. It doesn't exist if
+    // the last flush was interrupted before creating it.
+    let log_path = path.join(log_name(md.log_id));
+    let mut log = OpenOptions::new()
+        .create(true)
+        .truncate(false)
+        .read(true)
+        .write(true)
+        .open(log_path)?;
 
     let mut memtable = Memtable::new();
 
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
-    loop {
-        let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
-        if read_bytes == 0 {
-            break;
-        }
-        let crc32 = u32::from_le_bytes(crc_b);
-        // !@#trace!("crc32: {}", crc32);
-
-        let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
-        let len = u64::from_le_bytes(len_b);
-        // !@#trace!("len: {}", len);
-        let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
-        // todo recover from this case
+    let mut logged_bytes = 0;
+    let mut rdr = BufReader::new(&log);
+    // the log may end with a partially written record if the write was interrupted
+    while let Some((crc32, data_b)) = read_log_record(&mut rdr)? {
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
             return Err(StoreError::Internal(format!(
@@ -385,10 +381,13 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         let op = deserialize::<LogOp>(&data_b)?;
 
         recover_op(op, &mut memtable)?;
+        logged_bytes += LOG_HEADER_SIZE as u64 + data_b.len() as u64;
     }
     // !@#trace!("operations recovered: {}", ops);
 
-    md.stats.logged_bytes = log_path.metadata().unwrap().len();
+    log.set_len(logged_bytes)?;
+    log.seek(SeekFrom::Start(logged_bytes))?;
+    md.stats.logged_bytes = logged_bytes;
 
     let log = BufWriter::new(log);
     // if trigger_compact {
-- 
2.43.0


From 72454011a7f5927e883c0dab475658b8d317f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 005/113] fix: tolerate short reads of the metadata file

---
 src/storage/src/db.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index a0209aa..169f570 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -332,16 +332,13 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let start_time = Instant::now();
     let mut mdf = File::open(path.join("metadata"))?;
     let mut crc_b = [0u8; mem::size_of::<u32>()];
-    let read_bytes = mdf.read(&mut crc_b)?;
-    if read_bytes == 0 {
-        return Err(StoreError::Internal("empty metadata file".to_string()));
-    }
+    mdf.read_exact(&mut crc_b)?;
     let crc32 = u32::from_le_bytes(crc_b);
     let mut len_b = [0u8; mem::size_of::<u64>()];
-    _ = mdf.read(&mut len_b)?;
+    mdf.read_exact(&mut len_b)?;
     let len = u64::from_le_bytes(len_b);
-    let mut data_b = vec![0u8; len as usize];
-    _ = mdf.read(&mut data_b)?;
+    let mut data_b = vec![];
+    mdf.take(len).read_to_end(&mut data_b)?;
     let cur_crc32 = hash_crc32(&data_b);
     if crc32 != cur_crc32 {
         return Err(StoreError::Internal(format!(
-- 
2.43.0


From 7d16e2c790b4446c29b8cca230185e5db3dc2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 006/113] fix: insert logs and stores a row atomically with
 regard to flushes and schema changes

---
 src/storage/src/db.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 169f570..7484501 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -713,9 +713,9 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // the lock is held until the row is both in the log and in the memtable, so that neither a
+        // flush nor a schema change comes in between
+        let mut metadata = tbl.metadata.lock();
         for v in values.iter() {
             match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                 None => {
@@ -768,12 +768,20 @@ impl OptiDBImpl {
             final_values.push(Value::Null);
         }
         let mut log = tbl.log.lock();
-        let logged = log_op(
+        let logged_bytes = metadata.stats.logged_bytes;
+        let logged = match log_op(
             LogOp::Insert(pk_values.clone(), final_values.clone()),
             log.get_mut(),
-        )?;
+        ) {
+            Ok(logged) => logged,
+            Err(err) => {
+                // don't leave a part of the record in the middle of the log
+                log.get_mut().set_len(logged_bytes)?;
+                log.seek(SeekFrom::Start(logged_bytes))?;
+                return Err(err);
+            }
+        };
         drop(log);
-        let mut metadata = tbl.metadata.lock();
         metadata.stats.logged_bytes += logged as u64;
         let mut memtable = tbl.memtable.lock();
         for (idx, val) in pk_values.iter().enumerate() {
-- 
2.43.0


From 201edaf9b55f43350c35ec1a5727bbd8433b6b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 007/113] fix: a failed or interrupted flush loses and repeats
 no rows

---
 src/storage/src/db.rs | 61 ++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7484501..710d94f 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -484,7 +484,8 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
         metadata.levels[0].part_id,
     );
     // !@#trace!("creating part file {:?}", p);
-    let w = OpenOptions::new().create_new(true).write(true).open(path)?;
+    // the file may exist if a previous flush failed
+    let w = File::create(path)?;
     let mut writer =
         parquet::write::FileWriter::try_new(BufWriter::new(w), metadata.schema.clone(), popts)?;
     // Write the part
@@ -510,51 +511,51 @@ fn flush_log_(
     path: &Path,
 ) -> Result<File> {
     let start_time = Instant::now();
-    // swap memtable
-    // !@#trace!("swapping memtable");
 
     // write to parquet
     // !@#trace!("writing to parquet");
     // !@#trace!("part id: {}", md.levels[0].part_id);
 
-    let empty_memtable = memtable.create_empty();
-    let memtable = mem::replace(memtable, empty_memtable);
-
-    let ppath = part_path(
-        path,
-        metadata.table_name.as_str(),
-        0,
-        metadata.levels[0].part_id,
-    );
-    fs.open(&ppath)?;
-
-    let part = write_level0(metadata, &memtable, path)?;
-    metadata.levels[0].parts.push(part.clone());
+    // The table is changed only when the part, the new log and the metadata have been written. If
+    // any of it fails, the rows stay in the memtable and in the current log.
+    let part = write_level0(metadata, memtable, path)?;
+    let mut new_metadata = metadata.clone();
+    new_metadata.levels[0].parts.push(part.clone());
     // increment table id
-    metadata.levels[0].part_id += 1;
-    metadata.stats.written_bytes += part.size_bytes;
+    new_metadata.levels[0].part_id += 1;
+    new_metadata.stats.written_bytes += part.size_bytes;
 
-    metadata.stats.logged_bytes = 0;
+    new_metadata.stats.logged_bytes = 0;
     // increment log id
-    metadata.log_id += 1;
-
-    fs.close(&ppath)?;
+    new_metadata.log_id += 1;
 
     // create new log
-    trace!("creating new log file {:?}", log_name(metadata.log_id));
+    trace!("creating new log file {:?}", log_name(new_metadata.log_id));
+    let log = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .read(true)
+        .open(log_path(
+            path,
+            &metadata.table_name,
+            new_metadata.log_id,
+        ))?;
 
-    write_metadata(path, metadata)?;
+    write_metadata(path, &new_metadata)?;
+    *metadata = new_metadata;
+    *memtable = memtable.create_empty();
 
     trace!(
         "removing previous log file {:?}",
         log_name(metadata.log_id - 1)
     );
-    fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
-    let log = OpenOptions::new()
-        .create_new(true)
-        .write(true)
-        .read(true)
-        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
+    // gc removes the log later if it is in use or if it can't be removed now
+    if let Err(err) =
+        fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))
+    {
+        error!("remove failed: {}", err);
+    }
     histogram!(METRIC_STORE_FLUSH_TIME_SECONDS,"table"=>metadata.table_name.clone())
         .record(start_time.elapsed());
     counter!(METRIC_STORE_FLUSHES_TOTAL,"table"=>metadata.table_name.clone()).increment(1);
-- 
2.43.0


From d18f01f675db4512689bf264bc032a1466c1be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 008/113] fix: add a field to the table and to the memtable at
 once

---
 src/storage/src/db.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 710d94f..013f12a 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1270,13 +1270,14 @@ impl OptiDBImpl {
         }
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
-        metadata.schema.fields.push(field.clone());
-        write_metadata(&self.path, &metadata)?;
+        let mut new_metadata = metadata.clone();
+        new_metadata.schema.fields.push(field.clone());
+        write_metadata(&self.path, &new_metadata)?;
+        *metadata = new_metadata;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
             let new_cols = metadata.schema.fields.len() - memtable.cols_len();
-            drop(metadata);
             for _ in 0..new_cols {
                 memtable.add_column(DType::try_from(field.data_type.clone())?);
             }
-- 
2.43.0


From adb425e404b6d3a910bfa896d83628b4d490848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 009/113] fix: a scan reads the memtable and the parts of one
 moment and releases the parts when dropped

---
 src/storage/src/db.rs | 71 ++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 013f12a..a3d8779 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -563,30 +563,52 @@ fn flush_log_(
     Ok(log)
 }
 
+// Parts that must not be removed while they are in use
+struct OpenedParts {
+    fs: Arc<Fs>,
+    paths: Vec<PathBuf>,
+}
+
+impl OpenedParts {
+    fn new(fs: Arc<Fs>) -> Self {
+        Self { fs, paths: vec![] }
+    }
+
+    fn open(&mut self, path: PathBuf) -> Result<()> {
+        self.fs.open(&path)?;
+        self.paths.push(path);
+        Ok(())
+    }
+}
+
+impl Drop for OpenedParts {
+    fn drop(&mut self) {
+        for path in &self.paths {
+            if let Err(err) = self.fs.close(path) {
+                error!("close failed: {}", err);
+            }
+        }
+    }
+}
+
 pub struct ScanStream {
     pub iter: Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>,
     start_time: Instant,
-    path: PathBuf,
-    md: Metadata,
+    opened: Option<OpenedParts>,
     table_name: String, // for metrics
-    fs: Arc<Fs>,
 }
 
 impl ScanStream {
     pub(crate) fn new(
         iter: Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>,
-        path: PathBuf,
-        md: Metadata,
-        fs: Arc<Fs>,
+        opened: OpenedParts,
         table_name: String,
     ) -> Self {
         Self {
             iter,
             start_time: Instant::now(),
-            path,
-            md,
+            opened: Some(opened),
             table_name,
-            fs,
         }
     }
 }
@@ -597,12 +619,7 @@ impl Stream for ScanStream {
     fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         match self.iter.next() {
             None => {
-                for (level_id, level) in self.md.levels.iter().enumerate() {
-                    for part in &level.parts {
-                        let path = part_path(&self.path, &self.table_name, level_id, part.id);
-                        self.fs.close(&path)?;
-                    }
-                }
+                self.opened.take();
 
                 histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                     .record(self.start_time.elapsed());
@@ -631,9 +648,10 @@ impl OptiDBImpl {
         };
 
         drop(tables);
+        // metadata stays locked until the memtable is read and the parts are opened. Otherwise a flush
+        // could move rows from one to the other in between, or parts could be removed
         let md = tbl.metadata.lock();
         let metadata = md.clone();
-        drop(md);
 
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
@@ -659,17 +677,20 @@ impl OptiDBImpl {
         )?;
         histogram!(METRIC_STORE_SCAN_MEMTABLE_SECONDS,"table"=>tbl_name.to_string())
             .record(start_time.elapsed());
+        drop(memtable);
         let mut rdrs = vec![];
+        let mut opened = OpenedParts::new(self.fs.clone());
         // todo remove?
 
         for (level_id, level) in metadata.levels.iter().enumerate() {
             for part in &level.parts {
                 let path = part_path(&self.path, tbl_name, level_id, part.id);
-                self.fs.open(&path)?;
+                opened.open(path.clone())?;
                 let rdr = BufReader::new(File::open(path)?);
                 rdrs.push(rdr);
             }
         }
+        drop(md);
         gauge!(METRIC_STORE_SCAN_PARTS, "table"=>tbl_name.to_string()).set(rdrs.len() as f64);
         let iter = if rdrs.is_empty() {
             Box::new(MemChunkIterator::new(maybe_chunk))
@@ -694,13 +715,7 @@ impl OptiDBImpl {
             )?) as Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>
         };
         counter!(METRIC_STORE_SCANS_TOTAL, "table"=>tbl_name.to_string()).increment(1);
-        Ok(ScanStream::new(
-            iter,
-            self.path.clone(),
-            metadata.clone(),
-            self.fs.clone(),
-            tbl_name.to_string(),
-        ))
+        Ok(ScanStream::new(iter, opened, tbl_name.to_string()))
     }
 
     // #[instrument(level = "trace", skip(self))]
@@ -882,13 +897,19 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
+        let md = tbl.metadata.lock();
         let mt = tbl.memtable.lock();
         if let Some(v) = mt.get(&key) {
             return Ok(Some(v));
         }
         drop(mt);
-        let md = tbl.metadata.lock();
         let metadata = md.clone();
+        let mut opened = OpenedParts::new(self.fs.clone());
+        for (level_id, level) in metadata.levels.iter().enumerate() {
+            for part in &level.parts {
+                opened.open(part_path(&self.path, tbl_name, level_id, part.id))?;
+            }
+        }
         drop(md);
 
         for (level_id, level) in metadata.levels.iter().enumerate() {
-- 
2.43.0


From 1933f50ac92f752be5e0e49f7151c4b4498f37e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 010/113] fix: remove a file that is not in use at most once

---
 src/storage/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e869265..d036c26 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -171,10 +171,16 @@ impl Fs {
         }
     }
     pub fn try_remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
-        if !self.is_opened(&path) {
-            return Ok(fs::remove_file(path)?);
+        // the lock keeps others from opening or removing the file in the meantime
+        let count = self.count.write().unwrap();
+        let opened = count.get(&path.as_ref().display().to_string());
+        if opened.map(|v| *v != 0).unwrap_or(false) {
+            return Ok(());
+        }
+        match fs::remove_file(path) {
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            res => Ok(res?),
         }
-        Ok(())
     }
 
     pub fn remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
-- 
2.43.0


From 7fe1f8d0dd0d86ba67d1bd2ae3c672a6293ee774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 011/113] fix: report read errors of a scan instead of ending
 it early

---
 src/storage/src/parquet/arrow_merger.rs | 38 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index fbcf022..f2f4323 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -421,18 +421,30 @@ impl Iterator for MergingIterator {
     type Item = Result<Chunk<Box<dyn Array>>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        let res = self.next_chunk().transpose();
+        if let Some(Err(_)) = &res {
+            // there is nothing to continue with after an error
+            self.merge_result_buffer.clear();
+            self.sorter.clear();
+        }
+        res
+    }
+}
+
+impl MergingIterator {
+    fn next_chunk(&mut self) -> Result<Option<Chunk<Box<dyn Array>>>> {
         if let Some(chunk) = self.merge_result_buffer.pop_front() {
-            return Some(Ok(chunk));
+            return Ok(Some(chunk));
         }
         let mut merge_queue: Vec<ArrowChunk> = vec![];
         if let Some(chunk) = self.sorter.pop() {
-            if let Some(chunk) = self.next_stream_chunk(chunk.stream).ok()? {
+            if let Some(chunk) = self.next_stream_chunk(chunk.stream)? {
                 // return Some(Ok(chunk.chunk.clone()));
                 self.sorter.push(chunk);
             }
             merge_queue.push(chunk);
         } else {
-            return None;
+            return Ok(None);
         };
 
         while check_intersection(
@@ -444,7 +456,7 @@ impl Iterator for MergingIterator {
             // in case of intersection, take chunk and add it to merge queue
             let next = self.sorter.pop().unwrap();
             // try to take next chunk of stream and add it to sorter
-            if let Some(chunk) = self.next_stream_chunk(next.stream).ok()? {
+            if let Some(chunk) = self.next_stream_chunk(next.stream)? {
                 self.sorter.push(chunk);
             }
             // push chunk to merge queue
@@ -453,23 +465,21 @@ impl Iterator for MergingIterator {
         // check queue len. Queue len may be 1 if there is no intersection
         if merge_queue.len() > 1 {
             // in case of intersection, merge queue
-            let res = self
-                .merge_queue(
-                    &merge_queue
-                        .iter()
-                        .map(|chunk| &chunk.chunk)
-                        .collect::<Vec<_>>(),
-                )
-                .ok()?;
+            let res = self.merge_queue(
+                &merge_queue
+                    .iter()
+                    .map(|chunk| &chunk.chunk)
+                    .collect::<Vec<_>>(),
+            )?;
             // todo split arrays
             self.merge_result_buffer = VecDeque::from(res);
 
-            self.next()
+            self.next_chunk()
         } else {
             // queue contains only one chunk, so we can just push it to result
             let chunk = merge_queue.pop().unwrap();
 
-            Some(Ok(chunk.chunk))
+            Ok(Some(chunk.chunk))
         }
     }
 }
-- 
2.43.0


From 386f981ba7754837bc1d26c835ca145e2311331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 012/113] fix: don't merge a part with itself in a compaction

---
 src/storage/src/compaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 6840ba7..8111a59 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -225,6 +225,9 @@ pub(crate) fn determine_compaction(
                     }
                 }
                 to_compact.push(ToCompact::new(level_id, part.id));
+                // a part must not be merged with itself
+                to_compact.sort();
+                to_compact.dedup();
             }
         }
     } else {
-- 
2.43.0


From f6e8897ab140a1c9f1abaf1db39890e5a30599f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 013/113] fix: a requested compaction does not stop the
 compactor

---
 src/storage/src/compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 8111a59..cee47d5 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -94,7 +94,7 @@ impl Compactor {
                             drop(dropper);
                             break;
                         }
-                        _ => unreachable!(),
+                        CompactorMessage::Compact => {}
                     },
                     Err(TryRecvError::Disconnected) => {
                         break;
-- 
2.43.0


From c235634d021c5105902a571d385a32a691b7d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 014/113] fix: a compaction changes the table only when its
 parts are complete and survives errors

---
 src/storage/src/compaction.rs             | 88 ++++++++++++-----------
 src/storage/src/db.rs                     | 13 ++--
 src/storage/src/lib.rs                    |  7 --
 src/storage/src/parquet/parquet_merger.rs | 15 +++-
 4 files changed, 70 insertions(+), 53 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index cee47d5..5e32132 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -18,6 +18,7 @@ use common::types::METRIC_STORE_COMPACTION_TIME_SECONDS;
 use common::types::METRIC_STORE_LEVEL_COMPACTION_TIME_SECONDS;
 use common::types::METRIC_STORE_MERGES_TOTAL;
 use common::types::METRIC_STORE_MERGE_TIME_SECONDS;
+use log::error;
 use log::trace;
 use metrics::counter;
 use metrics::histogram;
@@ -25,6 +26,7 @@ use parking_lot::RwLock;
 
 use crate::db::part_path;
 use crate::db::write_metadata;
+use crate::db::OpenedParts;
 use crate::error::Result;
 use crate::parquet::parquet_merger;
 use crate::parquet::parquet_merger::merge;
@@ -33,7 +35,6 @@ use crate::table::Level;
 use crate::table::Part;
 use crate::table::Table;
 use crate::Fs;
-use crate::FsOp;
 
 #[derive(Clone, Debug)]
 pub enum CompactorMessage {
@@ -53,11 +54,13 @@ impl ToCompact {
     }
 }
 
-#[derive(Debug, Clone)]
-pub struct CompactResult {
+struct CompactResult {
     l0_remove: Vec<usize>,
     levels: Vec<Level>,
-    fs_ops: Vec<FsOp>,
+    // new parts, opened so that gc doesn't remove them before they are in the metadata
+    outputs: OpenedParts,
+    // parts to remove when the new ones are in the metadata
+    remove: Vec<PathBuf>,
 }
 
 pub struct Compactor {
@@ -142,8 +145,9 @@ impl Compactor {
                         None => continue,
                         Some(res) => {
                             let mut metadata = table.metadata.lock();
+                            let mut new_metadata = metadata.clone();
                             for rem in &res.l0_remove {
-                                metadata.levels[0].parts = metadata.levels[0]
+                                new_metadata.levels[0].parts = new_metadata.levels[0]
                                     .parts
                                     .clone()
                                     .into_iter()
@@ -151,31 +155,29 @@ impl Compactor {
                                     .collect::<Vec<_>>();
                             }
                             for (idx, l) in res.levels.iter().enumerate().skip(1) {
-                                metadata.levels[idx] = l.clone();
+                                new_metadata.levels[idx] = l.clone();
                             }
-                            write_metadata(&self.path, &metadata).unwrap();
+                            // new parts are left to gc if they are not referenced
+                            if let Err(err) = write_metadata(&self.path, &new_metadata) {
+                                error!("compaction error: {:?}", err);
+                                continue;
+                            }
+                            *metadata = new_metadata;
                             drop(metadata);
                             // drop because next fs operation is with locking
-                            for op in res.fs_ops {
-                                match op {
-                                    FsOp::Rename(from, to) => {
-                                        trace!("renaming {from:?} to {to:?}");
-                                        // todo handle error
-                                        self.fs.rename(&from, &to).expect("rename failed");
-                                        self.fs.close(&from).expect("close failed");
-                                        self.fs.close(&to).expect("close failed");
-                                    }
-                                    FsOp::Delete(path) => {
-                                        trace!("deleting {:?}", &path);
-                                        self.fs.close(&path).expect("close failed");
-                                        self.fs.try_remove_file(&path).unwrap();
-                                    }
+                            drop(res.outputs);
+                            for path in res.remove {
+                                trace!("deleting {:?}", &path);
+                                // gc removes the part later if it is in use or if it fails here
+                                if let Err(err) = self.fs.try_remove_file(&path) {
+                                    error!("remove failed: {}", err);
                                 }
                             }
                         }
                     },
                     Err(err) => {
-                        panic!("compaction error: {:?}", err);
+                        // the table is unchanged, the next iteration tries again
+                        error!("compaction error: {:?}", err);
                     }
                 }
             }
@@ -262,7 +264,8 @@ fn compact(
     opts: &table::Options,
 ) -> Result<Option<CompactResult>> {
     let init_time = Instant::now();
-    let mut fs_ops = vec![];
+    let mut outputs = OpenedParts::new(fs.clone());
+    let mut remove = vec![];
     let mut l0_rem: Vec<usize> = Vec::new();
     let mut tmp_levels = levels.clone();
     let mut compacted = false;
@@ -298,9 +301,19 @@ fn compact(
 
                     let from = part_path(path, tbl_name, level_id, to_compact[0].part);
                     let to = part_path(path, tbl_name, level_id + 1, part.id);
-                    fs.open(&from)?;
-                    fs.open(&to)?;
-                    fs_ops.push(FsOp::Rename(from, to));
+                    // the part has to exist under both names until the metadata is written
+                    outputs.open(to.clone())?;
+                    // a failed compaction could have left a file
+                    if to.try_exists()? {
+                        fs.remove_file(&to)?;
+                    }
+                    if std::fs::hard_link(&from, &to).is_err() {
+                        std::fs::copy(&from, &to)?;
+                    }
+                    if level_id == 0 {
+                        l0_rem.push(to_compact[0].part);
+                    }
+                    remove.push(from);
 
                     tmp_levels[level_id + 1].parts.push(part.clone());
                     tmp_levels[level_id + 1].part_id += 1;
@@ -327,8 +340,7 @@ fn compact(
                 let rdrs = tomerge
                     .iter()
                     .map(File::open)
-                    .collect::<std::result::Result<Vec<File>, std::io::Error>>()
-                    .unwrap();
+                    .collect::<std::result::Result<Vec<File>, std::io::Error>>()?;
                 let max_part_size_bytes = opts.merge_max_l1_part_size_bytes
                     * opts.merge_part_size_multiplier.pow(level_id as u32 + 1);
                 let merger_opts = parquet_merger::Options {
@@ -352,8 +364,11 @@ fn compact(
                 )?;
                 counter!(METRIC_STORE_MERGES_TOTAL,"table"=>tbl_name.to_string()).increment(1);
                 histogram!(METRIC_STORE_MERGE_TIME_SECONDS,"table"=>tbl_name.to_string(),"level"=>level_id.to_string()).record(start_time.elapsed());
+                // the parts are opened by the merger
+                for f in &merge_result {
+                    outputs.push(f.path.clone());
+                }
                 for f in merge_result {
-                    fs.open(&f.path)?;
                     let final_part = {
                         Part {
                             id: tmp_levels[level_id + 1].part_id + 1,
@@ -375,17 +390,7 @@ fn compact(
                     tmp_levels[level_id + 1].part_id += 1;
                 }
 
-                for p in tomerge.iter() {
-                    fs.open(p)?;
-                }
-
-                fs_ops.append(
-                    tomerge
-                        .iter()
-                        .map(|p| FsOp::Delete(p.clone()))
-                        .collect::<Vec<_>>()
-                        .as_mut(),
-                );
+                remove.append(&mut tomerge);
                 histogram!(METRIC_STORE_LEVEL_COMPACTION_TIME_SECONDS,"table"=>tbl_name.to_string(),"level"=>level_id.to_string()).record(start_time.elapsed());
             }
         }
@@ -397,7 +402,8 @@ fn compact(
     Ok(Some(CompactResult {
         l0_remove: l0_rem,
         levels: tmp_levels,
-        fs_ops,
+        outputs,
+        remove,
     }))
 }
 
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index a3d8779..1fe924d 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -564,21 +564,26 @@ fn flush_log_(
 }
 
 // Parts that must not be removed while they are in use
-struct OpenedParts {
+pub(crate) struct OpenedParts {
     fs: Arc<Fs>,
     paths: Vec<PathBuf>,
 }
 
 impl OpenedParts {
-    fn new(fs: Arc<Fs>) -> Self {
+    pub(crate) fn new(fs: Arc<Fs>) -> Self {
         Self { fs, paths: vec![] }
     }
 
-    fn open(&mut self, path: PathBuf) -> Result<()> {
+    pub(crate) fn open(&mut self, path: PathBuf) -> Result<()> {
         self.fs.open(&path)?;
-        self.paths.push(path);
+        self.push(path);
         Ok(())
     }
+
+    // takes over a part which is already opened
+    pub(crate) fn push(&mut self, path: PathBuf) {
+        self.paths.push(path);
+    }
 }
 
 impl Drop for OpenedParts {
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index d036c26..cc3ebe9 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -19,7 +19,6 @@ use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs;
 use std::path::Path;
-use std::path::PathBuf;
 use std::sync::Arc;
 use std::sync::RwLock;
 
@@ -199,9 +198,3 @@ impl Fs {
         Ok(fs::rename(from, to)?)
     }
 }
-
-#[derive(Debug, Clone)]
-pub(crate) enum FsOp {
-    Rename(PathBuf, PathBuf),
-    Delete(PathBuf),
-}
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index f7ab56c..3586955 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -758,6 +758,8 @@ where R: Read
     data_page_size_limit_bytes: Option<usize>,
     max_part_file_size_bytes: Option<usize>,
     fs: Arc<Fs>,
+    // output files
+    opened: Vec<PathBuf>,
 }
 
 #[derive(Debug, Clone)]
@@ -828,9 +830,17 @@ pub fn merge<R: Read + Seek>(
         data_page_size_limit_bytes: opts.data_page_size_limit_bytes,
         max_part_file_size_bytes: opts.max_part_size_bytes,
         fs,
+        opened: vec![],
     };
 
-    mr.merge(tbl_name, level_id)
+    let res = mr.merge(tbl_name, level_id);
+    if res.is_err() {
+        // nobody is going to use the files
+        for path in mr.opened.iter() {
+            mr.fs.close(path)?;
+        }
+    }
+    res
 }
 
 impl<R> Merger<R>
@@ -884,6 +894,7 @@ where R: Read + Seek
         'l1: for part_id in self.id_from.. {
             let path = &self.to_path.join(format!("{}.parquet", part_id));
             self.fs.open(path)?;
+            self.opened.push(path.clone());
             let w = File::create(path)?;
             let w = BufWriter::new(w);
             let mut seq_writer =
@@ -1022,6 +1033,8 @@ where R: Read + Seek
             } else {
                 // delete empty file. We can do this safely because we write to temp file and then rename it
                 fs::remove_file(path)?;
+                self.fs.close(path)?;
+                self.opened.pop();
             }
             break;
         }
-- 
2.43.0


From c00725712074076ffc881f8e813d47ed06ad0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 015/113] fix: gc survives errors

---
 src/storage/src/db.rs | 85 ++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 1fe924d..9564fbc 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -166,59 +166,68 @@ fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
         thread::sleep(Duration::from_secs(1));
         let tbl = tables.read().clone();
         for tbl in tbl {
-            let md = tbl.metadata.lock();
-            let dir =
-                fs::read_dir(path.join("tables").join(tbl.name.clone())).expect("read_dir failed");
+            // the next iteration tries again
+            if let Err(err) = gc_table(&tbl, &path, &fs) {
+                error!("gc failed: {}", err);
+            }
+        }
+    }
+}
+
+fn gc_table(tbl: &Table, path: &Path, fs: &Fs) -> Result<()> {
+    let md = tbl.metadata.lock();
+    let dir = fs::read_dir(path.join("tables").join(tbl.name.clone()))?;
+    for f in dir {
+        let f = f?;
+        let fname = f.file_name().to_os_string().into_string().unwrap();
+        if ".log".is_suffix_of(&fname) {
+            let log_id = fname
+                .split(".")
+                .next()
+                .unwrap()
+                .parse::<u64>()
+                .expect("parse failed");
+            if log_id < md.log_id {
+                match fs.try_remove_file(f.path()) {
+                    // try to remove log. It may be removed during flush_op
+                    Ok(_) => {}
+                    Err(err) => {
+                        error!("remove failed: {}", err);
+                    }
+                }
+            }
+        }
+
+        for lvl in 0..md.opts.levels {
+            let p = format!("tables/{}/levels/{}", &tbl.name, lvl);
+            let dir = fs::read_dir(path.join(p))?;
             for f in dir {
-                let f = f.expect("read_dir failed");
+                let f = f?;
                 let fname = f.file_name().to_os_string().into_string().unwrap();
-                if ".log".is_suffix_of(&fname) {
-                    let log_id = fname
+                if ".parquet".is_suffix_of(&fname) {
+                    let part_id = fname
                         .split(".")
                         .next()
                         .unwrap()
                         .parse::<u64>()
                         .expect("parse failed");
-                    if log_id < md.log_id {
-                        match fs.try_remove_file(f.path()) {
-                            // try to remove log. It may be removed during flush_op
-                            Ok(_) => {}
-                            Err(err) => {
-                                error!("remove failed: {}", err);
-                            }
+                    let mut found = false;
+                    for part in md.levels[lvl].parts.iter() {
+                        if part.id == part_id as usize {
+                            found = true;
+                            break;
                         }
                     }
-                }
-
-                for lvl in 0..md.opts.levels {
-                    let p = format!("tables/{}/levels/{}", &tbl.name, lvl);
-                    let dir = fs::read_dir(path.join(p)).expect("read_dir failed");
-                    for f in dir {
-                        let f = f.expect("read_dir failed");
-                        let fname = f.file_name().to_os_string().into_string().unwrap();
-                        if ".parquet".is_suffix_of(&fname) {
-                            let part_id = fname
-                                .split(".")
-                                .next()
-                                .unwrap()
-                                .parse::<u64>()
-                                .expect("parse failed");
-                            let mut found = false;
-                            for part in md.levels[lvl].parts.iter() {
-                                if part.id == part_id as usize {
-                                    found = true;
-                                    break;
-                                }
-                            }
-                            if !found {
-                                fs.try_remove_file(f.path()).expect("remove failed");
-                            }
+                    if !found {
+                        if let Err(err) = fs.try_remove_file(f.path()) {
+                            error!("remove failed: {}", err);
                         }
                     }
                 }
             }
         }
     }
+    Ok(())
 }
 
 #[derive(Debug, Serialize, Deserialize)]
-- 
2.43.0


From 9fc7aa6fb524ba163638c6e2fb290991ba27d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 016/113] fix: an incomplete backup or an interrupted restore
 does not destroy the store

---
 src/storage/src/db.rs | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 9564fbc..9d3e2d7 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -108,6 +108,7 @@ use crate::Value;
 const VERSION: u64 = 1;
 // crc32 and length
 const LOG_HEADER_SIZE: usize = mem::size_of::<u32>() + mem::size_of::<u64>();
+const RESTORE_DIR: &str = "restore";
 const BACKUP_MAGIC: [u8; 8] = [0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7, 0x8];
 
 pub(crate) fn part_path(path: &Path, table_name: &str, level_id: usize, part_id: usize) -> PathBuf {
@@ -161,9 +162,11 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
     }
 }
 
-fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
+fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>, lock: Arc<RwLock<()>>) {
     loop {
         thread::sleep(Duration::from_secs(1));
+        // tables must not be replaced by a restore in the meantime
+        let _g = lock.read();
         let tbl = tables.read().clone();
         for tbl in tbl {
             // the next iteration tries again
@@ -410,8 +413,12 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
 }
 
 // #[instrument(level = "trace")]
-fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
-    let path = path.as_ref();
+fn recover_tables(path: &Path) -> Result<Vec<Table>> {
+    // a restore has been interrupted before the restored tables were in place
+    let replaced = path.join(RESTORE_DIR).join("replaced");
+    if replaced.try_exists()? && !path.join("tables").try_exists()? {
+        fs::rename(replaced, path.join("tables"))?;
+    }
     fs::create_dir_all(path.join("tables"))?;
     let mut tables = vec![];
     let dir = fs::read_dir(path.join("tables"))?;
@@ -428,6 +435,12 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
             f.file_name().to_os_string().into_string().unwrap(),
         )?);
     }
+    Ok(tables)
+}
+
+fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
+    let path = path.as_ref();
+    let tables = recover_tables(path)?;
     // let trigger_compact = if metadata.partitions[0].parts.len() > 0
     //     && metadata.partitions[0].parts.len() > opts.l0_max_parts
     // {
@@ -447,7 +460,8 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let tables_cloned = tables.clone();
     let fs_cloned = fs.clone();
     let path_cloned = path.to_owned();
-    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned));
+    let lock_cloned = lock.clone();
+    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned, lock_cloned));
     Ok(OptiDBImpl {
         opts,
         tables,
@@ -1378,15 +1392,6 @@ impl OptiDBImpl {
         Ok(metadata.opts.clone())
     }
 
-    fn truncate_all(&self) -> Result<()> {
-        let mut tables = self.tables.write();
-        for tbl in tables.iter() {
-            fs::remove_dir_all(self.path.join(format!("tables/{}", tbl.name)))?;
-        }
-        *tables = vec![];
-        Ok(())
-    }
-
     pub fn full_backup<W: Write, F: Fn(usize)>(&self, writer: &mut W, cb: F) -> Result<()> {
         let _g = self.backup_lock.lock();
         let start_time = Instant::now();
@@ -1488,8 +1493,11 @@ impl OptiDBImpl {
     pub fn full_restore<R: Read>(&self, reader: &mut R) -> Result<()> {
         let _g = self.backup_lock.lock();
         let _g = self.global_lock.write();
-        self.truncate_all().unwrap();
-        let path = self.path.clone();
+        // tables are restored aside and replace the current ones when the backup is complete
+        let path = self.path.join(RESTORE_DIR);
+        if path.try_exists()? {
+            fs::remove_dir_all(&path)?;
+        }
         // version
         let mut version_b = [0u8; mem::size_of::<u64>()];
         reader.read_exact(&mut version_b)?;
@@ -1537,11 +1545,16 @@ impl OptiDBImpl {
             return Err(StoreError::InvalidBackupMagicNumber);
         }
 
-        let db = recover(path, Options {})?;
-        // todo prevent the start of gc/compaction before tables are copied
-        let from = db.tables.read().clone();
-        let mut to = self.tables.write();
-        *to = from;
+        let restored = recover_tables(&path)?;
+        let mut tables = self.tables.write();
+        fs::rename(self.path.join("tables"), path.join("replaced"))?;
+        if let Err(err) = fs::rename(path.join("tables"), self.path.join("tables")) {
+            fs::rename(path.join("replaced"), self.path.join("tables"))?;
+            return Err(err.into());
+        }
+        *tables = restored;
+        drop(tables);
+        fs::remove_dir_all(path)?;
         Ok(())
     }
 
-- 
2.43.0


From 608082aa7a0bca73fdad55cd3ad88821a16cac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 017/113] fix: a backup is a snapshot of every table and
 releases files on errors

---
 src/storage/src/db.rs    | 50 +++++++++++++++-------------------------
 src/storage/src/table.rs |  7 ------
 2 files changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 9d3e2d7..6a5ad71 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -10,7 +10,6 @@ use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
-use std::os::unix::fs::MetadataExt;
 use std::path::Path;
 use std::path::PathBuf;
 use std::pin::Pin;
@@ -1398,29 +1397,32 @@ impl OptiDBImpl {
         let lock = self.global_lock.write();
         let tables = self.tables.read();
         let mut mds = vec![];
+        let mut opened = OpenedParts::new(self.fs.clone());
         for tbl in tables.iter() {
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.lock().log_id);
-            self.fs.open(&log_path)?;
-            // md snapshot here prevents metadata changes during backup
+            // the backup contains the table as it is in this snapshot, including the part of the log
+            // which is written by now
             let md = tbl.metadata.lock().clone();
+            // prevent file deletion
+            opened.open(log_path(&self.path, &tbl.name, md.log_id))?;
             for (lid, lvl) in md.levels.iter().enumerate() {
                 for part in &lvl.parts {
-                    let path = part_path(&self.path, &md.table_name, lid, part.id);
-                    // prevent file deletion
-                    self.fs.open(&path)?;
+                    opened.open(part_path(&self.path, &md.table_name, lid, part.id))?;
                 }
             }
             mds.push(md);
         }
-        let tables = tables.clone();
+        drop(tables);
         drop(lock);
         // version
         writer.write_all(VERSION.to_le_bytes().as_slice())?;
 
         // tables
-        let tbls = tables
-            .iter()
-            .map(table::serialize_table)
+        let tbls = mds
+            .into_iter()
+            .map(|md| SerializableTable {
+                name: md.table_name.clone(),
+                metadata: md,
+            })
             .collect::<Vec<_>>();
         let parts_size = tbls
             .iter()
@@ -1440,25 +1442,17 @@ impl OptiDBImpl {
         // table
         for tbl in tbls {
             // log
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
-            let log_bak_path = format!(
-                "{}.bak",
-                log_path.clone().into_os_string().into_string().unwrap()
-            );
-            fs::copy(&log_path, &log_bak_path)?;
-            self.fs.close(&log_path)?;
-            let mut log = OpenOptions::new().read(true).open(&log_bak_path).unwrap();
-            writer.write_all(log.metadata()?.size().to_le_bytes().as_slice())?;
-            io::copy(&mut log, writer)?;
-            drop(log);
-            fs::remove_file(&log_bak_path)?;
+            let log = File::open(log_path(&self.path, &tbl.name, tbl.metadata.log_id))?;
+            let log_len = tbl.metadata.stats.logged_bytes;
+            writer.write_all(log_len.to_le_bytes().as_slice())?;
+            io::copy(&mut log.take(log_len), writer)?;
 
             // parts
             let mut psize = 0;
             for (lid, level) in tbl.metadata.levels.iter().enumerate() {
                 for part in &level.parts {
                     let path = part_path(&self.path, &tbl.name, lid, part.id);
-                    let mut part_f = OpenOptions::new().read(true).open(path).unwrap();
+                    let mut part_f = File::open(path)?;
                     io::copy(&mut part_f, writer)?;
                     psize += part.size_bytes;
                     let pct = psize as f64 / parts_size as f64 * 100.;
@@ -1467,14 +1461,6 @@ impl OptiDBImpl {
             }
         }
         writer.write_all(&BACKUP_MAGIC)?;
-        for md in mds.iter() {
-            for (lid, lvl) in md.levels.iter().enumerate() {
-                for part in &lvl.parts {
-                    let path = part_path(&self.path, &md.table_name, lid, part.id);
-                    self.fs.close(&path)?;
-                }
-            }
-        }
 
         histogram!(METRIC_BACKUP_TIME_SECONDS).record(start_time.elapsed());
         counter!(METRIC_BACKUPS_TOTAL).increment(1);
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index bc6441b..83c0173 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -132,13 +132,6 @@ pub(crate) struct SerializableTable {
     pub(crate) metadata: Metadata,
 }
 
-pub(crate) fn serialize_table(tbl: &Table) -> SerializableTable {
-    SerializableTable {
-        name: tbl.name.clone(),
-        metadata: tbl.metadata.lock().clone(),
-    }
-}
-
 pub(crate) fn serialize_md(md: &Metadata) -> Result<Vec<u8>> {
     let schema = metadata::Schema {
         fields: md
-- 
2.43.0


From 87a0b748eb40a1937fab0c677fb6b485e4543e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 018/113] fix: merges of replacing tables keep the values of
 the kept rows

---
 src/storage/src/parquet/arrow_merger.rs      | 13 +++--
 src/storage/src/parquet/merge_data_arrays.rs | 57 +++++++++++++-------
 src/storage/src/parquet/parquet_merger.rs    |  7 +--
 3 files changed, 51 insertions(+), 26 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index f2f4323..70000a9 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -99,7 +99,8 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    out.push(-1);
+                    // negative means the row of the stream is skipped
+                    out.push(-(row_idx as i64) - 1);
 
                     continue;
                 }
@@ -169,10 +170,10 @@ pub fn check_intersection(
     let mut min_values = first.min_values()[..index_cols - offset].to_vec();
     let mut max_values = first.max_values()[..index_cols - offset].to_vec();
     for row in iter {
-        if row.min_values <= min_values {
+        if row.min_values()[..index_cols - offset].to_vec() <= min_values {
             min_values = row.min_values()[..index_cols - offset].to_vec();
         }
-        if row.max_values >= max_values {
+        if row.max_values()[..index_cols - offset].to_vec() >= max_values {
             max_values = row.max_values()[..index_cols - offset].to_vec();
         }
     }
@@ -361,7 +362,9 @@ impl MergingIterator {
                 let mut arr_cursors = vec![0; arrs.len()];
                 let mut growable = make_growable(&arrs, false, reorder.len());
                 for idx in reorder.iter() {
-                    if *idx == -1 {
+                    if *idx < 0 {
+                        // go past the replaced row
+                        arr_cursors[(-*idx - 1) as usize] += 1;
                         continue;
                     }
                     growable.extend(*idx as usize, arr_cursors[*idx as usize], 1);
@@ -375,7 +378,7 @@ impl MergingIterator {
         let mut out = vec![];
 
         let mut len = arrs[0].len();
-        for i in (0..reorder.len()).step_by(self.array_size) {
+        for i in (0..len).step_by(self.array_size) {
             let arrs = arrs
                 .iter_mut()
                 .map(|arr| arr.sliced(i, min(self.array_size, len)))
diff --git a/src/storage/src/parquet/merge_data_arrays.rs b/src/storage/src/parquet/merge_data_arrays.rs
index 8e23b72..d8b3d7e 100644
--- a/src/storage/src/parquet/merge_data_arrays.rs
+++ b/src/storage/src/parquet/merge_data_arrays.rs
@@ -53,13 +53,18 @@ macro_rules! merge_arrays_inner {
         let mut out = <$out_ty>::with_capacity($reorder.len());
         // go through each row idx in reorder, get stream id for row
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // negative means the row of the stream is skipped
+            let is_skipped = $reorder[idx] < 0;
+            let stream_id = if is_skipped {
+                (-$reorder[idx] - 1) as usize
+            } else {
+                $reorder[idx] as usize
+            };
             // push null if column doesn't exist
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !is_skipped {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -76,7 +81,9 @@ macro_rules! merge_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let arr = arrs[stream_id].as_ref().unwrap();
-            if arr.is_null(cur_idx) {
+            if is_skipped {
+                // go past the replaced row
+            } else if arr.is_null(cur_idx) {
                 out.push_null();
             } else {
                 out.push(Some(arr.value(cur_idx)));
@@ -177,12 +184,17 @@ macro_rules! merge_list_arrays_inner {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // negative means the row of the stream is skipped
+            let is_skipped = $reorder[idx] < 0;
+            let stream_id = if is_skipped {
+                (-$reorder[idx] - 1) as usize
+            } else {
+                $reorder[idx] as usize
+            };
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !is_skipped {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -210,7 +222,9 @@ macro_rules! merge_list_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if is_skipped {
+                // go past the replaced row
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
@@ -304,12 +318,17 @@ macro_rules! merge_list_primitive_arrays {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // negative means the row of the stream is skipped
+            let is_skipped = $reorder[idx] < 0;
+            let stream_id = if is_skipped {
+                (-$reorder[idx] - 1) as usize
+            } else {
+                $reorder[idx] as usize
+            };
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !is_skipped {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -338,7 +357,9 @@ macro_rules! merge_list_primitive_arrays {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if is_skipped {
+                // go past the replaced row
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index 3586955..8a707ce 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -215,10 +215,10 @@ pub fn check_intersection(
     let mut max_values = first.max_values()[..index_cols - offset].to_vec();
     for row in iter {
         if row.min_values()[..index_cols - offset].to_vec() <= min_values {
-            min_values = row.min_values();
+            min_values = row.min_values()[..index_cols - offset].to_vec();
         }
         if row.max_values()[..index_cols - offset].to_vec() >= max_values {
-            max_values = row.max_values();
+            max_values = row.max_values()[..index_cols - offset].to_vec();
         }
     }
 
@@ -504,7 +504,8 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    order.push(-1);
+                    // negative means the row of the stream is skipped
+                    order.push(-(chunks[arr_id].stream as i64) - 1);
 
                     continue;
                 }
-- 
2.43.0


From cf81b4a62d12902078015af87304bf68556e7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 019/113] fix: get finds rows with any values in any part

---
 src/storage/src/db.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 6a5ad71..d20755e 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -31,6 +31,7 @@ use arrow2::array::Int32Array;
 use arrow2::array::Int64Array;
 use arrow2::array::Int8Array;
 use arrow2::array::ListArray;
+use arrow2::array::Utf8Array;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Field;
@@ -38,8 +39,6 @@ use arrow2::datatypes::Schema;
 use arrow2::io::parquet;
 use arrow2::io::parquet::read;
 use arrow2::io::parquet::write::transverse;
-use arrow_array::StringArray;
-use arrow_array::TimestampNanosecondArray;
 use bincode::deserialize;
 use bincode::serialize;
 use common::types::DType;
@@ -952,7 +951,8 @@ impl OptiDBImpl {
                     let parquet_md = read::read_metadata(&mut rdr)?;
                     let schema = read::infer_schema(&parquet_md)?;
 
-                    let mut found = None;
+                    // every row group that may contain the key
+                    let mut found = vec![];
                     'g: for row_group_id in 0..parquet_md.row_groups.len() {
                         #[allow(clippy::needless_range_loop)]
                         for field_id in 0..key.len() {
@@ -983,17 +983,12 @@ impl OptiDBImpl {
                                 unreachable!();
                             }
                         }
-                        found = Some(row_group_id);
-                        break;
-                    }
-
-                    if found.is_none() {
-                        return Ok(None);
+                        found.push(parquet_md.row_groups[row_group_id].clone());
                     }
 
                     let chunks = read::FileReader::new(
                         rdr,
-                        vec![parquet_md.row_groups[found.unwrap()].clone()],
+                        found,
                         schema.clone(),
                         Some(1024 * 8 * 8), // todo make configurable?
                         None,
@@ -1113,14 +1108,14 @@ impl OptiDBImpl {
                                         DataType::Timestamp(_, _) => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<TimestampNanosecondArray>()
+                                                .downcast_ref::<Int64Array>()
                                                 .unwrap();
                                             vals.push(Value::Timestamp(Some(arr.value(row_id))));
                                         }
                                         DataType::Utf8 => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<StringArray>()
+                                                .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
                                             vals.push(Value::String(Some(
                                                 arr.value(row_id).to_string(),
@@ -1188,7 +1183,7 @@ impl OptiDBImpl {
                                                 DataType::Timestamp(_, _) => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<TimestampNanosecondArray>()
+                                                        .downcast_ref::<Int64Array>()
                                                         .unwrap();
                                                     vals.push(Value::Timestamp(Some(
                                                         arr.value(row_id),
@@ -1197,7 +1192,7 @@ impl OptiDBImpl {
                                                 DataType::Utf8 => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<StringArray>()
+                                                        .downcast_ref::<Utf8Array<i32>>()
                                                         .unwrap();
                                                     vals.push(Value::String(Some(
                                                         arr.value(row_id).to_string(),
@@ -1214,7 +1209,6 @@ impl OptiDBImpl {
                             return Ok(Some(vals));
                         }
                     }
-                    return Ok(None);
                 }
             }
         }
-- 
2.43.0


From 1a75bf66562f922cd643c8210ebed55574f15962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 020/113] fix: report an error of opening a part in a scan

---
 src/storage/src/parquet/arrow_merger.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index 70000a9..85cd9f5 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -317,10 +317,10 @@ impl MergingIterator {
         let mut arrow_streams = readers
             .into_iter()
             .map(|v| {
-                Box::new(ArrowIteratorImpl::new(v, opts.fields.clone(), opts.chunk_size).unwrap())
-                    as Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>
+                ArrowIteratorImpl::new(v, opts.fields.clone(), opts.chunk_size)
+                    .map(|iter| Box::new(iter) as SendableChunk)
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>>>()?;
 
         if mem_chunk.is_some() {
             arrow_streams.push(Box::new(MemChunkIterator::new(mem_chunk))
-- 
2.43.0


From 93e0686d6de0b30a04c98813c6b1f016b3b53f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 021/113] fix: drop a partially written log record also if it
 could not be removed at once

---
 src/storage/src/db.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index d20755e..0d8f8bb 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -811,18 +811,15 @@ impl OptiDBImpl {
         }
         let mut log = tbl.log.lock();
         let logged_bytes = metadata.stats.logged_bytes;
-        let logged = match log_op(
+        // don't leave a part of a record that failed to be written in the middle of the log
+        if log.get_mut().stream_position()? != logged_bytes {
+            log.get_mut().set_len(logged_bytes)?;
+            log.seek(SeekFrom::Start(logged_bytes))?;
+        }
+        let logged = log_op(
             LogOp::Insert(pk_values.clone(), final_values.clone()),
             log.get_mut(),
-        ) {
-            Ok(logged) => logged,
-            Err(err) => {
-                // don't leave a part of the record in the middle of the log
-                log.get_mut().set_len(logged_bytes)?;
-                log.seek(SeekFrom::Start(logged_bytes))?;
-                return Err(err);
-            }
-        };
+        )?;
         drop(log);
         metadata.stats.logged_bytes += logged as u64;
         let mut memtable = tbl.memtable.lock();
-- 
2.43.0


From d212fa91b93e805bb368426ed34fc3b3701ce235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 022/113] fix: names and sequences of the metadata store are
 taken under a lock

---
 src/metadata/src/index.rs      | 15 +++++++++++----
 src/metadata/src/properties.rs |  9 ++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index 53b7b1c..bc3116d 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -4,12 +4,19 @@ use rocksdb::TransactionDB;
 use crate::error::MetadataError;
 use crate::Result;
 
+/// Locks the key until the end of the transaction, so that nobody else changes what is read
+/// under it in the meantime.
+pub fn lock_key<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<()> {
+    tx.get_for_update(key.as_ref(), true)?;
+    Ok(())
+}
+
 pub fn check_insert_constraints(
     tx: &Transaction<TransactionDB>,
     keys: &[Option<Vec<u8>>],
 ) -> Result<()> {
     for key in keys.iter().flatten() {
-        if tx.get(key)?.is_some() {
+        if tx.get_for_update(key, true)?.is_some() {
             return Err(MetadataError::AlreadyExists(String::from_utf8(
                 key.to_owned(),
             )?));
@@ -36,7 +43,7 @@ pub fn check_update_constraints(
 ) -> Result<()> {
     for (key, prev_key) in keys.iter().zip(prev_keys) {
         if let Some(key_v) = key {
-            if key != prev_key && (tx.get(key_v)?).is_some() {
+            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key_v.to_owned(),
                 )?));
@@ -90,7 +97,7 @@ where
 }
 
 pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 1,
@@ -101,7 +108,7 @@ pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Resu
 }
 
 pub fn next_zero_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 0,
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..7063cf2 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -26,6 +26,7 @@ use storage::db::OptiDBImpl;
 use storage::error::StoreError;
 
 use crate::error::MetadataError;
+use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
@@ -224,13 +225,7 @@ impl Properties {
     ) -> Result<Property> {
         let mut idx_keys = index_keys(project_id, &self.typ, &req.name, req.display_name.clone());
 
-        for key in idx_keys.iter().flatten() {
-            if tx.get(key)?.is_some() {
-                return Err(MetadataError::AlreadyExists(String::from_utf8(
-                    key.to_owned(),
-                )?));
-            }
-        }
+        check_insert_constraints(tx, idx_keys.as_ref())?;
 
         let id = next_seq(
             tx,
-- 
2.43.0


From d33b1f53e8175e22840cde48d043696ef2aaf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 023/113] fix: changes of metadata records read the record
 under its lock

---
 src/metadata/src/accounts.rs      |  6 ++++++
 src/metadata/src/backups.rs       |  3 +++
 src/metadata/src/bookmarks.rs     |  4 +++-
 src/metadata/src/dashboards.rs    |  9 +++++++++
 src/metadata/src/dictionaries.rs  |  9 ++++-----
 src/metadata/src/events.rs        | 21 +++++++++++++++++++++
 src/metadata/src/groups.rs        | 10 +++++-----
 src/metadata/src/organizations.rs |  6 ++++++
 src/metadata/src/projects.rs      |  4 ++++
 src/metadata/src/reports.rs       |  9 +++++++++
 src/metadata/src/sessions.rs      |  2 +-
 src/metadata/src/teams.rs         |  9 +++++++++
 12 files changed, 80 insertions(+), 12 deletions(-)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..601d735 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -121,6 +122,7 @@ impl Accounts {
     pub fn update(&self, account_id: u64, req: UpdateAccountRequest) -> Result<Account> {
         let tx = self.db.transaction();
 
+        lock_key(&tx, make_data_value_key(NAMESPACE, account_id))?;
         let prev_account = self.get_by_id_(&tx, account_id)?;
         let mut account = prev_account.clone();
 
@@ -168,6 +170,7 @@ impl Accounts {
 
     pub fn delete(&self, id: u64) -> Result<Account> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let account = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
@@ -183,6 +186,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock_key(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().any(|(id, _)| *id == org_id) {
@@ -203,6 +207,7 @@ impl Accounts {
         member_id: u64,
         org_id: u64,
     ) -> Result<()> {
+        lock_key(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().all(|(id, _)| *id != org_id) {
@@ -224,6 +229,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock_key(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         for (id, r) in orgs.iter_mut() {
diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 1fe5bd1..282ad2e 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::backup;
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -177,6 +178,7 @@ impl Backups {
     pub fn update_status(&self, backup_id: u64, status: Status) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock_key(&tx, make_data_value_key(NAMESPACE, backup_id))?;
         let mut backup = self.get_by_id_(&tx, backup_id)?;
         backup.status = status;
         backup.updated_at = Some(Utc::now());
@@ -189,6 +191,7 @@ impl Backups {
 
     pub fn delete(&self, id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let _ = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/bookmarks.rs b/src/metadata/src/bookmarks.rs
index 094e074..8e82005 100644
--- a/src/metadata/src/bookmarks.rs
+++ b/src/metadata/src/bookmarks.rs
@@ -12,6 +12,7 @@ use serde::Serialize;
 
 use crate::bookmark;
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::reports::Query;
 use crate::Result;
 
@@ -78,8 +79,9 @@ impl Bookmarks {
 
     pub fn delete(&self, project_id: u64, account_id: u64, id: &str) -> Result<Bookmark> {
         let tx = self.db.transaction();
-        let bookmark = self.get_by_id_(&tx, project_id, account_id, id)?;
         let key = format!("projects/{project_id}/{NAMESPACE}/accounts/{account_id}/{id}");
+        lock_key(&tx, &key)?;
+        let bookmark = self.get_by_id_(&tx, project_id, account_id, id)?;
         tx.delete(key)?;
         tx.commit()?;
         Ok(bookmark)
diff --git a/src/metadata/src/dashboards.rs b/src/metadata/src/dashboards.rs
index 4525103..789ece4 100644
--- a/src/metadata/src/dashboards.rs
+++ b/src/metadata/src/dashboards.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::dashboard;
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -118,6 +119,10 @@ impl Dashboards {
     ) -> Result<Dashboard> {
         let tx = self.db.transaction();
 
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), dashboard_id),
+        )?;
         let prev_dashboard = self.get_by_id_(&tx, project_id, dashboard_id)?;
         let mut dashboard = prev_dashboard.clone();
 
@@ -147,6 +152,10 @@ impl Dashboards {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Dashboard> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let dashboard = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index f78749e..e8ca423 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -66,11 +66,10 @@ impl Dictionaries {
         dict: &str,
         value: &str,
     ) -> Result<u64> {
-        let res = match tx.get(make_value_key(
-            project_id,
-            tbl_dict(table, dict).as_str(),
-            value,
-        ))? {
+        let res = match tx.get_for_update(
+            make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
+            true,
+        )? {
             None => {
                 let key = make_id_seq_key(
                     project_ns(
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..85f0dea 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -64,6 +65,10 @@ macro_rules! attach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
 
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id),
+        )?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => Some(vec![$prop_id]),
@@ -89,6 +94,10 @@ macro_rules! attach_property {
 macro_rules! detach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id),
+        )?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => {
@@ -265,6 +274,10 @@ impl Events {
     pub fn update(&self, project_id: u64, event_id: u64, req: UpdateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
 
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id),
+        )?;
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
 
@@ -324,6 +337,10 @@ impl Events {
     ) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id),
+        )?;
         let mut event = self.get_by_id_(&tx, project_id, event_id)?;
         for prop in event_props {
             match &event.event_properties {
@@ -385,6 +402,10 @@ impl Events {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Event> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..0d49ca4 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -36,7 +36,7 @@ impl Groups {
         anon_key: &str,
     ) -> Result<u64> {
         let key = format!("projects/{project_id}/groups/{group_id}/anonymous/keys/{anon_key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -77,7 +77,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let user_key = format!("projects/{project_id}/groups/{group_id}/real/keys/{id}");
-        let res = match tx.get(user_key.as_bytes())? {
+        let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
                     self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
@@ -109,7 +109,7 @@ impl Groups {
         values: Vec<PropertyValue>,
     ) -> Result<GroupValues> {
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -148,7 +148,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -216,7 +216,7 @@ impl Groups {
     ) -> Result<Group> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/names/{name}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let id = next_zero_seq(
                     &tx,
diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 9ae7758..e072ea7 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -18,6 +18,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -127,6 +128,7 @@ impl Organizations {
         id: u64,
         req: UpdateOrganizationRequest,
     ) -> Result<Organization> {
+        lock_key(tx, make_data_value_key(NAMESPACE, id))?;
         let prev_org = self.get_by_id_(tx, id)?;
 
         let mut org = prev_org.clone();
@@ -160,6 +162,7 @@ impl Organizations {
 
     pub fn add_member(&self, id: u64, member_id: u64, role: OrganizationRole) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::AlreadyExists(
@@ -177,6 +180,7 @@ impl Organizations {
 
     pub fn remove_member(&self, id: u64, member_id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if !org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::NotFound(
@@ -199,6 +203,7 @@ impl Organizations {
         role: OrganizationRole,
     ) -> Result<()> {
         let tx = self.db.transaction();
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if let Some(member) = org.members.iter_mut().find(|(id, _)| *id == member_id) {
             member.1 = role.clone();
@@ -219,6 +224,7 @@ impl Organizations {
     pub fn delete(&self, id: u64) -> Result<Organization> {
         let tx = self.db.transaction();
 
+        lock_key(&tx, make_data_value_key(NAMESPACE, id))?;
         let org = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 99fc5ed..f4668c7 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -18,6 +18,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -135,6 +136,7 @@ impl Projects {
     pub fn update(&self, project_id: u64, req: UpdateProjectRequest) -> Result<Project> {
         let tx = self.db.transaction();
 
+        lock_key(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let prev_project = self.get_by_id_(&tx, project_id)?;
         let mut project = prev_project.clone();
 
@@ -176,6 +178,7 @@ impl Projects {
     pub fn increment_events_counter(&self, project_id: u64) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock_key(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let mut project = self.get_by_id_(&tx, project_id)?;
         project.events_count += 1;
         let data = serialize(&project)?;
@@ -187,6 +190,7 @@ impl Projects {
     pub fn delete(&self, project_id: u64) -> Result<Project> {
         let tx = self.db.transaction();
 
+        lock_key(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let project = self.get_by_id_(&tx, project_id)?;
         tx.delete(make_data_value_key(NAMESPACE, project_id))?;
 
diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index c86d381..7e9d3ba 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -16,6 +16,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 use crate::error::MetadataError;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -123,6 +124,10 @@ impl Reports {
         req: UpdateReportRequest,
     ) -> Result<Report> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), report_id),
+        )?;
         let prev_report = self.get_by_id_(&tx, project_id, report_id)?;
         let mut report = prev_report.clone();
 
@@ -152,6 +157,10 @@ impl Reports {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Report> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id),
+        )?;
         let report = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/sessions.rs b/src/metadata/src/sessions.rs
index a04bd52..3d1b16a 100644
--- a/src/metadata/src/sessions.rs
+++ b/src/metadata/src/sessions.rs
@@ -81,7 +81,7 @@ impl Sessions {
         let tx = self.db.transaction();
         let key = make_data_key(project_id, user_id);
         let mut is_new = false;
-        let mut session = match tx.get(key)? {
+        let mut session = match tx.get_for_update(key, true)? {
             None => {
                 is_new = true;
                 Session {
diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..52f88d0 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -14,6 +14,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -138,6 +139,10 @@ impl Teams {
     ) -> Result<Team> {
         let tx = self.db.transaction();
 
+        lock_key(
+            &tx,
+            make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id),
+        )?;
         let prev_team = self.get_by_id_(&tx, organization_id, team_id)?;
         let mut team = prev_team.clone();
 
@@ -168,6 +173,10 @@ impl Teams {
     pub fn delete(&self, organization_id: u64, team_id: u64) -> Result<Team> {
         let tx = self.db.transaction();
 
+        lock_key(
+            &tx,
+            make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id),
+        )?;
         let team = self.get_by_id_(&tx, organization_id, team_id)?;
         tx.delete(make_data_value_key(
             org_ns(organization_id, NAMESPACE).as_slice(),
-- 
2.43.0


From 85795265eca155e709c06133d265ce85d88c0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 024/113] fix: an event that could not be created leaves
 nothing behind, concurrent get_or_create agree

---
 src/metadata/src/events.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 85f0dea..a02ac94 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -218,9 +218,9 @@ impl Events {
 
     pub fn create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
@@ -231,9 +231,24 @@ impl Events {
             other => return other,
         }
 
-        let ret = self.create_(&tx, project_id, req);
+        // somebody else may be creating the same event
+        lock_key(
+            &tx,
+            make_index_key(
+                project_ns(project_id, NAMESPACE).as_slice(),
+                IDX_NAME,
+                req.name.as_str(),
+            ),
+        )?;
+        match self.get_by_name_(&tx, project_id, req.name.as_str()) {
+            Ok(event) => return Ok(event),
+            Err(MetadataError::NotFound(_)) => {}
+            other => return other,
+        }
+
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_by_id(&self, project_id: u64, id: u64) -> Result<Event> {
-- 
2.43.0


From f896f775608686bc3412851d152eef97e0b30d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 025/113] fix: a custom event is written in its transaction

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
-- 
2.43.0


From 4ab3dc9964c582d8631b27867c81256b6fc1d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 026/113] fix: custom events are validated and changed under
 one lock per project

---
 src/metadata/src/custom_events.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 8a897d5..3a2e73a 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -26,6 +26,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -72,6 +73,15 @@ impl CustomEvents {
         }
     }
 
+    // custom events refer to each other, so changes of the custom events of a project are made
+    // one after another
+    fn lock_project(&self, tx: &Transaction<TransactionDB>, project_id: u64) -> Result<()> {
+        lock_key(
+            tx,
+            make_id_seq_key(project_ns(project_id, NAMESPACE).as_slice()),
+        )
+    }
+
     fn validate_events<'a>(
         &'a self,
         project_id: u64,
@@ -131,12 +141,14 @@ impl CustomEvents {
             return Err(MetadataError::BadRequest("empty events".to_string()));
         }
 
+        let tx = self.db.transaction();
+        self.lock_project(&tx, project_id)?;
+
         let mut ids = Vec::new();
         self.validate_events(project_id, &req.events, 0, &mut ids)?;
 
         let idx_keys = index_keys(project_id, &req.name);
 
-        let tx = self.db.transaction();
         check_insert_constraints(&tx, idx_keys.as_ref())?;
 
         let created_at = Utc::now();
@@ -218,6 +230,7 @@ impl CustomEvents {
         req: UpdateCustomEventRequest,
     ) -> Result<CustomEvent> {
         let tx = self.db.transaction();
+        self.lock_project(&tx, project_id)?;
 
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
@@ -271,6 +284,7 @@ impl CustomEvents {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<CustomEvent> {
         let tx = self.db.transaction();
+        self.lock_project(&tx, project_id)?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
-- 
2.43.0


From a0e3f45bc9d543b7e08cab36b19eb32fa81b8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 027/113] fix: merging with an anonymous user does not
 overwrite the id sequence

---
 src/metadata/src/groups.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index 0d49ca4..0a69e7a 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -80,11 +80,7 @@ impl Groups {
         let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From 89e7c89746b10680af0e3dbea00859f8a457461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 028/113] fix: a project is not found by its name in place of
 its token

---
 src/metadata/src/projects.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index f4668c7..d9612a7 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -106,7 +106,14 @@ impl Projects {
             index_token_key(token).unwrap(),
             "project can't be found by token",
         )?;
-        self.get_by_id_(&tx, id)
+        let project = self.get_by_id_(&tx, id)?;
+        // names of projects are in the same index
+        if project.token != token {
+            return Err(MetadataError::NotFound(
+                "project can't be found by token".to_string(),
+            ));
+        }
+        Ok(project)
     }
 
     pub fn list(&self) -> Result<ListResponse<Project>> {
-- 
2.43.0


From 8d7578fa1f69b92b1e37516fc43d56746d5547fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 029/113] fix: the role of an account can be updated

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 601d735..197a960 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -147,6 +147,9 @@ impl Accounts {
         if let OptionalProperty::Some(force_update_password) = req.force_update_password {
             account.force_update_password = force_update_password;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(organizations) = req.organizations {
             account.organizations = organizations;
         }
-- 
2.43.0


From 037ab655ba22db4fb5c7acecb7f65f137204a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 030/113] fix: the type of a report can be updated

---
 src/metadata/src/reports.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index 7e9d3ba..384dfad 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -142,6 +142,9 @@ impl Reports {
         if let OptionalProperty::Some(tags) = req.tags {
             report.tags = tags;
         }
+        if let OptionalProperty::Some(typ) = req.typ {
+            report.typ = typ;
+        }
         if let OptionalProperty::Some(query) = req.query {
             report.query = query;
         }
-- 
2.43.0


From 7c37b6a3aa21d2143d6fb393dd851955d6a81103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 031/113] fix: the hour of the backup schedule is saved

---
 src/metadata/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index b97d03b..2ebc261 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -183,7 +183,7 @@ fn serialize(v: &Settings) -> Result<Vec<u8>> {
             BackupScheduleInterval::Monthly => pbconfig::BackupScheduleInterval::Monthly as i32,
             BackupScheduleInterval::Yearly => pbconfig::BackupScheduleInterval::Yearly as i32,
         },
-        backup_schedule_start_hour: 0,
+        backup_schedule_start_hour: v.backup_schedule_start_hour as u32,
     };
 
     Ok(backup.encode_to_vec())
-- 
2.43.0


From ccb83ae3e0391ad9e27faa91eaa85cff2a400f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 032/113] fix: the properties of an event are saved

---
 src/metadata/src/events.rs      | 17 ++++++++++++++---
 src/metadata/src/pb/event.proto |  3 +++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index a02ac94..1104b72 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -525,6 +525,9 @@ fn serialize(v: &Event) -> Result<Vec<u8>> {
             Status::Disabled => 2,
         },
         is_system: v.is_system,
+        event_properties: v.event_properties.clone().unwrap_or_default(),
+        user_properties: v.user_properties.clone().unwrap_or_default(),
+        custom_properties: v.custom_properties.clone().unwrap_or_default(),
     };
 
     Ok(d.encode_to_vec())
@@ -556,12 +559,20 @@ fn deserialize(data: &[u8]) -> Result<Event> {
             _ => unreachable!(),
         },
         is_system: from.is_system,
-        event_properties: None,
-        user_properties: None,
-        custom_properties: None,
+        event_properties: non_empty(from.event_properties),
+        user_properties: non_empty(from.user_properties),
+        custom_properties: non_empty(from.custom_properties),
     })
 }
 
+fn non_empty(v: Vec<u64>) -> Option<Vec<u64>> {
+    if v.is_empty() {
+        None
+    } else {
+        Some(v)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use chrono::DateTime;
diff --git a/src/metadata/src/pb/event.proto b/src/metadata/src/pb/event.proto
index 1ac389e..feddf0c 100644
--- a/src/metadata/src/pb/event.proto
+++ b/src/metadata/src/pb/event.proto
@@ -14,6 +14,9 @@ message Event {
   optional string description = 10;
   Status status = 11;
   bool is_system = 12;
+  repeated uint64 event_properties = 13;
+  repeated uint64 user_properties = 14;
+  repeated uint64 custom_properties = 15;
 }
 
 enum Status {
-- 
2.43.0


From c7a5051e738e8a5feec3de3e6e2d30138df55645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 033/113] fix: the list of teams has all teams

---
 src/metadata/src/teams.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 52f88d0..1181d0a 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -118,11 +118,10 @@ impl Teams {
         for kv in iter {
             let (key, value) = kv?;
             // check if key contains the prefix
-            if key.len() < prefix.len() || !prefix.as_slice().cmp(&key[..prefix.len()]).is_eq() {
-                continue;
+            if !key.starts_with(&prefix) {
+                break;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From 6e10ddc52aa1d62ab9d7a694931e584790eae440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 034/113] fix: at most one idle backup, also with concurrent
 requests

---
 src/metadata/src/backups.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 282ad2e..6374a61 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -112,6 +112,8 @@ impl Backups {
 
     pub fn create(&self, req: CreateBackupRequest) -> Result<Backup> {
         let tx = self.db.transaction();
+        // taken first: backups are created one after another
+        let id = next_seq(&tx, make_id_seq_key(NAMESPACE))?;
         if req.status == Status::Idle {
             let list = self.list_(&tx)?;
             for backup in list.data {
@@ -123,7 +125,6 @@ impl Backups {
             }
         }
         let created_at = Utc::now();
-        let id = next_seq(&tx, make_id_seq_key(NAMESPACE))?;
 
         let backup = Backup {
             id,
@@ -172,7 +173,7 @@ impl Backups {
 
     pub fn list(&self) -> Result<ListResponse<Backup>> {
         let tx = self.db.transaction();
-        Ok(self.list_(&tx).unwrap())
+        self.list_(&tx)
     }
 
     pub fn update_status(&self, backup_id: u64, status: Status) -> Result<()> {
-- 
2.43.0


From c599579c2172f98f813741236b6157c8c3658bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 035/113] fix: backups are listed in the order of their
 creation

---
 src/metadata/src/backups.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 6374a61..af0b556 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -152,7 +152,7 @@ impl Backups {
         let prefix = make_data_key(NAMESPACE);
 
         let iter = tx.prefix_iterator(prefix.clone());
-        let mut list = vec![];
+        let mut list: Vec<Backup> = vec![];
         for kv in iter {
             let (key, value) = kv?;
             // check if key contains the prefix
@@ -164,6 +164,8 @@ impl Backups {
             }
             list.push(deserialize(&value)?);
         }
+        // keys are ordered as text
+        list.sort_by_key(|b| b.id);
 
         Ok(ListResponse {
             data: list,
-- 
2.43.0


From c521382a3c4a0ced6061729f11fb9fa009bb86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 036/113] fix: a session that is prolonged meanwhile is not
 deleted by the cleaner

---
 src/metadata/src/sessions.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/sessions.rs b/src/metadata/src/sessions.rs
index 3d1b16a..623130f 100644
--- a/src/metadata/src/sessions.rs
+++ b/src/metadata/src/sessions.rs
@@ -120,13 +120,19 @@ impl Sessions {
             list.push(deserialize(&value)?);
         }
 
-        let tx = self.db.transaction();
         for s in list.into_iter() {
+            let tx = self.db.transaction();
+            let key = make_data_key(project_id, s.user_id);
+            // the session may have been prolonged or ended since it was listed
+            let s = match tx.get_for_update(key.as_slice(), true)? {
+                None => continue,
+                Some(value) => deserialize(&value)?,
+            };
             if callback(&s)? {
-                tx.delete(make_data_key(project_id, s.user_id).as_slice())?;
+                tx.delete(key.as_slice())?;
+                tx.commit()?;
             }
         }
-        tx.commit()?;
 
         Ok(())
     }
-- 
2.43.0


From 5829247d67d5ce727fdd94bd4f7d81c7bb3de587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 037/113] fix: the caches of properties hold what is committed

---
 src/metadata/src/properties.rs | 80 ++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 7063cf2..6139eae 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -31,6 +31,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock_key;
 use crate::index::next_seq;
 use crate::index::next_zero_seq;
 use crate::index::update_index;
@@ -271,16 +272,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -342,10 +333,25 @@ impl Properties {
         };
     }
 
+    // the caches hold committed properties only
+    fn commit_and_cache(
+        &self,
+        tx: Transaction<TransactionDB>,
+        project_id: u64,
+        prop: &Property,
+    ) -> Result<()> {
+        let mut name_cache = self.name_cache.write().unwrap();
+        let mut id_cache = self.id_cache.write().unwrap();
+        tx.commit()?;
+        name_cache.put((project_id, prop.name.to_string()), prop.clone());
+        id_cache.put((project_id, prop.id), prop.clone());
+        Ok(())
+    }
+
     pub fn create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
-        tx.commit()?;
+        self.commit_and_cache(tx, project_id, &ret)?;
 
         Ok(ret)
     }
@@ -357,9 +363,23 @@ impl Properties {
             Err(MetadataError::NotFound(_)) => {}
             Err(err) => return Err(err),
         }
+        // somebody else may be creating the same property
+        lock_key(
+            &tx,
+            make_index_key(
+                project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+                IDX_NAME,
+                req.name.as_str(),
+            ),
+        )?;
+        match self.get_by_name_(&tx, project_id, req.name.as_str()) {
+            Ok(prop) => return Ok(prop),
+            Err(MetadataError::NotFound(_)) => {}
+            Err(err) => return Err(err),
+        }
         let ret = self.create_(&tx, project_id, req)?;
 
-        tx.commit()?;
+        self.commit_and_cache(tx, project_id, &ret)?;
 
         Ok(ret)
     }
@@ -419,7 +439,14 @@ impl Properties {
     ) -> Result<Property> {
         let tx = self.db.transaction();
 
-        let prev_prop = self.get_by_id(project_id, property_id)?;
+        lock_key(
+            &tx,
+            make_data_value_key(
+                project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+                property_id,
+            ),
+        )?;
+        let prev_prop = self.get_by_id_(&tx, project_id, property_id)?;
         let mut prop = prev_prop.clone();
 
         let mut idx_keys: Vec<Option<Vec<u8>>> = Vec::new();
@@ -493,25 +520,23 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
-        tx.commit()?;
+        self.commit_and_cache(tx, project_id, &prop)?;
         Ok(prop)
     }
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Property> {
         let tx = self.db.transaction();
+        lock_key(
+            &tx,
+            make_data_value_key(
+                project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+                id,
+            ),
+        )?;
         let prop = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
@@ -522,12 +547,11 @@ impl Properties {
             &tx,
             index_keys(project_id, &self.typ, &prop.name, prop.display_name.clone()).as_ref(),
         )?;
-        self.name_cache
-            .write()
-            .unwrap()
-            .pop(&(project_id, prop.name.to_string()));
-        self.id_cache.write().unwrap().pop(&(project_id, prop.id));
+        let mut name_cache = self.name_cache.write().unwrap();
+        let mut id_cache = self.id_cache.write().unwrap();
         tx.commit()?;
+        name_cache.pop(&(project_id, prop.name.to_string()));
+        id_cache.pop(&(project_id, prop.id));
         Ok(prop)
     }
 }
-- 
2.43.0


From aebea05b673a15d04e28444ce605f38b30a821ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 038/113] fix: a track with both a user and an anonymous id is
 of that user

---
 src/ingester/src/executor.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..8d1677a 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,15 +167,23 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(user_id), Some(anonymous_id)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
-                    aid.as_str(),
-                    uid.as_str(),
+                    anonymous_id.as_str(),
+                    user_id.as_str(),
                     vec![],
                 )?;
-                (group.id, None)
+                self.md.dictionaries.create_key(
+                    ctx.project_id.unwrap(),
+                    TABLE_EVENTS,
+                    group_col(GROUP_USER_ID).as_str(),
+                    group.id,
+                    user_id.as_str(),
+                )?;
+
+                (group.id, Some(group))
             }
             _ => {
                 return Err(IngesterError::BadRequest(
-- 
2.43.0


From 236a25351ba6bdea27b0e0608034e00a35835aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 039/113] fix: user properties are attached to events without
 groups too

---
 src/ingester/src/executor.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 8d1677a..d458f4d 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -194,13 +194,12 @@ impl Executor<Track> {
 
         req.resolved_user_id = Some(user_id as i64);
 
+        let mut resolved_groups = vec![];
+        // add user as a first group
+        if let Some(user_group) = user_group {
+            resolved_groups.push((0, user_group));
+        }
         if let Some(groups) = &req.group_values {
-            let mut resolved_groups = vec![];
-            // add user as a first group
-            if let Some(user_group) = user_group {
-                resolved_groups.push((0, user_group));
-            }
-
             for (group_name, group_val) in groups {
                 let group = self.md.groups.get_or_create_group(
                     ctx.project_id.unwrap(),
@@ -222,6 +221,8 @@ impl Executor<Track> {
                 )?;
                 resolved_groups.push((group.id as usize, resolved_group_values));
             }
+        }
+        if !resolved_groups.is_empty() {
             req.resolved_group_values = Some(resolved_groups);
         }
         let event_req = CreateEventRequest {
-- 
2.43.0


From d8d0bcdb290a70d623bdcb1e65726f0181d35f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 040/113] fix: words of group properties go to the dictionary
 of their group

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index d458f4d..c34df82 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -316,7 +316,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From 55a10fcb49abd36f37cd2d2431d66193e733e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 041/113] fix: properties with dates are accepted

---
 src/ingester/src/executor.rs | 2 +-
 src/ingester/src/lib.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index c34df82..f11efcc 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..879a7e2 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -125,7 +125,7 @@ fn property_to_value(
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
                 return Err(IngesterError::Internal(
                     "property should be a string".to_string(),
-- 
2.43.0


From a01a80eb398e5cccd0db8d767ca7067a99989993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 042/113] fix: a number that is out of range is refused, not a
 panic

---
 src/ingester/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 879a7e2..b969347 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -91,6 +91,10 @@ pub enum PropValue {
     Bool(bool),
 }
 
+fn in_range<T>(v: &Decimal, converted: Option<T>) -> Result<T> {
+    converted.ok_or_else(|| IngesterError::BadRequest(format!("number {v} is out of range")))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -119,10 +123,10 @@ fn property_to_value(
     } else {
         match (&prop.property.data_type, &prop.value) {
             (DType::String, PropValue::String(v)) => Value::String(Some(v.to_owned())),
-            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().unwrap())), /* todo change to mantissa */
-            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
-            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
-            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
+            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(in_range(v, v.to_i8())?)), /* todo change to mantissa */
+            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(in_range(v, v.to_i16())?)),
+            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(in_range(v, v.to_i32())?)),
+            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(in_range(v, v.to_i64())?)),
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
-- 
2.43.0


From db1a0986a070f991711b1bf4282f728c033d97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 043/113] fix: decimals are stored with the scale of their
 column

---
 src/ingester/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index b969347..19b3c81 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::DECIMAL_PRECISION;
+use common::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -95,6 +97,16 @@ fn in_range<T>(v: &Decimal, converted: Option<T>) -> Result<T> {
     converted.ok_or_else(|| IngesterError::BadRequest(format!("number {v} is out of range")))
 }
 
+// mantissa of a decimal as it is stored, i.e. with DECIMAL_SCALE
+fn decimal_mantissa(v: &Decimal) -> Result<i128> {
+    let v = v.round_dp(DECIMAL_SCALE as u32);
+    let mantissa = v
+        .mantissa()
+        .checked_mul(10i128.pow(DECIMAL_SCALE as u32 - v.scale()))
+        .filter(|m| m.abs() < 10i128.pow(DECIMAL_PRECISION as u32));
+    in_range(&v, mantissa)
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -127,7 +139,7 @@ fn property_to_value(
             (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(in_range(v, v.to_i16())?)),
             (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(in_range(v, v.to_i32())?)),
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(in_range(v, v.to_i64())?)),
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(decimal_mantissa(v)?)),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
-- 
2.43.0


From 7889c409386989d7de8f83ef061e1fd606e89378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 044/113] fix: beginning and end of a session are stored in
 milliseconds

---
 src/cmd/src/lib.rs                           | 2 +-
 src/ingester/src/destinations/local/track.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 1ada380..2ebe804 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -397,7 +397,7 @@ fn init_session_cleaner(
                             vec![
                                 NamedValue::new(
                                     COLUMN_CREATED_AT.to_string(),
-                                    Value::Timestamp(Some(now.timestamp())),
+                                    Value::Timestamp(Some(now.timestamp_millis())),
                                 ),
                                 NamedValue::new(
                                     COLUMN_EVENT_ID.to_string(),
diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From 527c713249302d46bb533587de469f78aac57fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 045/113] fix: group tables keep the newest version of every
 record

---
 src/cmd/src/lib.rs                        |  3 +-
 src/storage/src/memtable.rs               | 23 +++++++++
 src/storage/src/parquet/arrow_merger.rs   | 63 +++++++++++++++++++++++
 src/storage/src/parquet/parquet_merger.rs | 31 ++++++++---
 4 files changed, 111 insertions(+), 9 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 2ebe804..89a25f1 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -253,7 +253,8 @@ pub fn init_storage(db: &Arc<OptiDBImpl>, cfg: &Config) -> error::Result<()> {
         let tbl = TableOptions {
             levels: cfg.group_table.levels,
             merge_array_size: cfg.group_table.merge_array_size,
-            index_cols: 2,
+            // project, id and version
+            index_cols: 3,
             l1_max_size_bytes: cfg.group_table.l1_max_size_bytes,
             level_size_multiplier: cfg.group_table.level_size_multiplier,
             l0_max_parts: cfg.group_table.l0_max_parts,
diff --git a/src/storage/src/memtable.rs b/src/storage/src/memtable.rs
index 1791d31..b8edecc 100644
--- a/src/storage/src/memtable.rs
+++ b/src/storage/src/memtable.rs
@@ -187,6 +187,29 @@ impl Memtable {
                 indices.push(Some(arrs[0].len() as i64 - 1));
             }
 
+            if index_cols == 3 {
+                // the last index column is the version, the last row of a key is its newest version
+                let a = arrs[0]
+                    .as_any()
+                    .downcast_ref::<arrow2::array::Int64Array>()
+                    .unwrap();
+
+                let b = arrs[1]
+                    .as_any()
+                    .downcast_ref::<arrow2::array::Int64Array>()
+                    .unwrap();
+
+                let len = a.len();
+                for row_id in 0..len {
+                    if row_id + 1 == len
+                        || (a.value(row_id), b.value(row_id))
+                            != (a.value(row_id + 1), b.value(row_id + 1))
+                    {
+                        indices.push(Some(row_id as i64));
+                    }
+                }
+            }
+
             let idx = indices
                 .as_box()
                 .as_any()
diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index 85cd9f5..fde320e 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -24,6 +24,7 @@ use crate::parquet::chunk_min_max;
 use crate::parquet::try_merge_arrow_schemas;
 use crate::parquet::ArrowIteratorImpl;
 use crate::parquet::OneColMergeRow;
+use crate::parquet::ThreeColMergeRow;
 use crate::parquet::TwoColMergeRow;
 use crate::KeyValue;
 
@@ -113,6 +114,53 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
     Ok(out)
 }
 
+pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: NativeType + Ord>(
+    chunks: Vec<&[Box<dyn Array>]>,
+    is_replacing: bool,
+) -> Result<Vec<i64>> {
+    let len = chunks.iter().map(|c| c[0].len()).sum();
+    let mut out = Vec::with_capacity(len);
+    let mut sort = BinaryHeap::<ThreeColMergeRow<T1, T2, T3>>::with_capacity(len);
+    for (stream, row) in chunks.iter().enumerate() {
+        let arr1 = row[0]
+            .as_any()
+            .downcast_ref::<PrimitiveArray<T1>>()
+            .unwrap();
+        let arr2 = row[1]
+            .as_any()
+            .downcast_ref::<PrimitiveArray<T2>>()
+            .unwrap();
+        let arr3 = row[2]
+            .as_any()
+            .downcast_ref::<PrimitiveArray<T3>>()
+            .unwrap();
+        for ((a, b), c) in arr1
+            .values_iter()
+            .zip(arr2.values_iter())
+            .zip(arr3.values_iter())
+        {
+            sort.push(ThreeColMergeRow(stream, *a, *b, *c));
+        }
+    }
+
+    while let Some(ThreeColMergeRow(row_idx, v1, v2, _)) = sort.pop() {
+        if is_replacing {
+            if let Some(v) = sort.peek() {
+                if v1 == v.1 && v2 == v.2 {
+                    // negative means the row of the stream is skipped
+                    out.push(-(row_idx as i64) - 1);
+
+                    continue;
+                }
+            }
+        }
+
+        out.push(row_idx as i64);
+    }
+
+    Ok(out)
+}
+
 // Merge chunks
 
 // Merge multiple chunks into vector of MergedArrowChunk of arrays split by array_size
@@ -143,6 +191,21 @@ pub fn merge_chunks(
                 )));
             }
         },
+        3 => match (
+            chunks[0][0].data_type(),
+            chunks[0][1].data_type(),
+            chunks[0][2].data_type(),
+        ) {
+            (DataType::Int64, DataType::Int64, DataType::Int64) => {
+                merge_three_primitives::<i64, i64, i64>(chunks, is_replacing)?
+            }
+            _ => {
+                return Err(StoreError::InvalidParameter(format!(
+                    "merge not implemented for type {:?}",
+                    chunks[0][0].data_type()
+                )));
+            }
+        },
         _ => {
             return Err(StoreError::InvalidParameter(format!(
                 "merge not implemented for {:?} columns",
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index 8a707ce..92b0fb7 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -542,6 +542,7 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
 pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: NativeType + Ord>(
     chunks: Vec<ArrowIndexChunk>,
     array_size: usize,
+    is_replacing: bool,
 ) -> Result<Vec<MergedArrowChunk>> {
     let mut arr_iters = chunks
         .iter()
@@ -584,10 +585,6 @@ pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: Na
     }
 
     while let Some(ThreeColMergeRow(row_idx, v1, v2, v3)) = sort.pop() {
-        out_col1.push(v1);
-        out_col2.push(v2);
-        out_col3.push(v3);
-        order.push(chunks[row_idx].stream as i64);
         if let Some(v1) = arr_iters[row_idx].0.next() {
             let v2 = arr_iters[row_idx].1.next().unwrap();
             let v3 = arr_iters[row_idx].2.next().unwrap();
@@ -595,6 +592,22 @@ pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: Na
             sort.push(mr);
         }
 
+        if is_replacing {
+            if let Some(v) = sort.peek() {
+                if v1 == v.1 && v2 == v.2 {
+                    // negative means the row of the stream is skipped
+                    order.push(-(chunks[row_idx].stream as i64) - 1);
+
+                    continue;
+                }
+            }
+        }
+
+        out_col1.push(v1);
+        out_col2.push(v2);
+        out_col3.push(v3);
+        order.push(chunks[row_idx].stream as i64);
+
         if out_col1.len() >= array_size {
             let out = vec![
                 PrimitiveArray::<T1>::from_vec(std::mem::take(&mut out_col1)).boxed(),
@@ -606,7 +619,7 @@ pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: Na
         }
     }
 
-    if !out_col1.is_empty() {
+    if !order.is_empty() {
         let out = vec![
             PrimitiveArray::<T1>::from_vec(std::mem::take(&mut out_col1)).boxed(),
             PrimitiveArray::<T2>::from_vec(std::mem::take(&mut out_col2)).boxed(),
@@ -616,8 +629,6 @@ pub fn merge_three_primitives<T1: NativeType + Ord, T2: NativeType + Ord, T3: Na
         res.push(MergedArrowChunk::new(out, arr_order));
     }
 
-    dbg!(&res);
-
     Ok(res)
 }
 
@@ -692,7 +703,11 @@ pub fn merge_chunks(
                             ArrowPrimitiveType::Int64,
                             ArrowPrimitiveType::Int64,
                             ArrowPrimitiveType::Int64,
-                        ) => merge_three_primitives::<i64, i64, i64>(chunks, array_size),
+                        ) => merge_three_primitives::<i64, i64, i64>(
+                            chunks,
+                            array_size,
+                            is_replacing,
+                        ),
                         _ => unimplemented!(
                             "merge is not implemented for {a:?} {b:?} primitive types"
                         ),
-- 
2.43.0


From a1392263b9c6e55e30d0f4c3014a677cb8c4ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 046/113] fix: client properties cannot take the names of id
 columns

---
 src/ingester/src/executor.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index f11efcc..1b68188 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -4,12 +4,16 @@ use std::time::Instant;
 
 use common::group_col;
 use common::types::DType;
+use common::types::COLUMN_EVENT;
+use common::types::COLUMN_PROJECT_ID;
 use common::types::GROUP_COLUMN_ID;
+use common::types::GROUP_COLUMN_PROJECT_ID;
 use common::types::METRIC_INGESTER_IDENTIFIED_TOTAL;
 use common::types::METRIC_INGESTER_IDENTIFY_TIME_SECONDS;
 use common::types::METRIC_INGESTER_TRACKED_TOTAL;
 use common::types::METRIC_INGESTER_TRACK_TIME_SECONDS;
 use common::types::TABLE_EVENTS;
+use common::GROUPS_COUNT;
 use common::GROUP_USER_ID;
 use metadata::events;
 use metadata::events::CreateEventRequest;
@@ -35,6 +39,20 @@ use crate::RequestContext;
 use crate::Track;
 use crate::Transformer;
 
+// dictionaries of these columns map ids of events, groups and projects to their names
+fn is_id_column(prop: &properties::Property) -> bool {
+    match prop.typ {
+        properties::Type::Event => {
+            prop.name == COLUMN_PROJECT_ID
+                || prop.name == COLUMN_EVENT
+                || (0..GROUPS_COUNT).any(|g| prop.name == group_col(g))
+        }
+        properties::Type::Group(_) => {
+            prop.name == GROUP_COLUMN_PROJECT_ID || prop.name == GROUP_COLUMN_ID
+        }
+    }
+}
+
 fn resolve_property(
     ctx: &RequestContext,
     properties: &Arc<Properties>,
@@ -73,6 +91,11 @@ fn resolve_property(
     };
 
     let prop = properties.get_or_create(ctx.project_id.unwrap(), req)?;
+    if is_id_column(&prop) {
+        return Err(IngesterError::BadRequest(format!(
+            "property name {name} is reserved"
+        )));
+    }
 
     Ok(PropertyAndValue {
         property: prop,
-- 
2.43.0


From 3fad7afddf6dbd48246ff76efffb123089170ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 047/113] fix: the event dictionary names every event by its id

---
 src/metadata/src/dictionaries.rs | 15 ++++++++++++++-
 src/metadata/src/events.rs       |  4 +++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index e8ca423..712dfdd 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -105,6 +105,20 @@ impl Dictionaries {
         value: &str,
     ) -> Result<()> {
         let tx = self.db.transaction();
+        self._create_key(&tx, project_id, table, dict, key, value)?;
+        tx.commit()?;
+        Ok(())
+    }
+
+    pub fn _create_key(
+        &self,
+        tx: &Transaction<TransactionDB>,
+        project_id: u64,
+        table: &str,
+        dict: &str,
+        key: u64,
+        value: &str,
+    ) -> Result<()> {
         tx.put(
             make_key_key(project_id, tbl_dict(table, dict).as_str(), key),
             value.as_bytes(),
@@ -113,7 +127,6 @@ impl Dictionaries {
             make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
             key.to_le_bytes(),
         )?;
-        tx.commit()?;
         Ok(())
     }
 
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 1104b72..8f5153b 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -191,11 +191,13 @@ impl Events {
 
         insert_index(tx, idx_keys.as_ref(), event.id)?;
 
-        self.dicts._get_key_or_create(
+        // rows hold the id of the event
+        self.dicts._create_key(
             tx,
             project_id,
             TABLE_EVENTS,
             COLUMN_EVENT,
+            event.id,
             event.name.as_str(),
         )?;
         Ok(event)
-- 
2.43.0


From 75c9bb1f65c385022ce95ce744934c209fd60091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 048/113] fix: a failure does not stop the session cleaner for
 good

---
 src/cmd/src/lib.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 89a25f1..de676fe 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -100,6 +100,7 @@ use rand::rngs::StdRng;
 use rand::thread_rng;
 use rand::Rng;
 use rand::SeedableRng;
+use tracing::error;
 use tracing::info;
 use uaparser::UserAgentParser;
 
@@ -363,8 +364,17 @@ fn init_session_cleaner(
     thread::spawn(move || {
         loop {
             thread::sleep(cfg.misc.session_cleaner_interval.to_std().unwrap());
-            for project in md.projects.list().unwrap() {
-                md.sessions
+            let projects = match md.projects.list() {
+                Ok(projects) => projects,
+                Err(err) => {
+                    error!("session cleaner: {:?}", err);
+                    continue;
+                }
+            };
+            for project in projects {
+                // whatever fails is tried again next time
+                let res = md
+                    .sessions
                     .check_for_deletion(project.id, |sess| {
                         let now = Utc::now();
                         let sess_len = now - sess.created_at;
@@ -375,12 +385,11 @@ fn init_session_cleaner(
                             .map(|gid| NamedValue::new(group_col(gid), Value::Int64(None)))
                             .collect::<Vec<_>>();
 
-                        let record_id = md.events.next_record_sequence(project.id).unwrap();
+                        let record_id = md.events.next_record_sequence(project.id)?;
 
                         let event_id = md
                             .events
-                            .get_by_name(project.id, EVENT_SESSION_END)
-                            .unwrap()
+                            .get_by_name(project.id, EVENT_SESSION_END)?
                             .id;
 
                         let values = [
@@ -410,8 +419,7 @@ fn init_session_cleaner(
                                 ),
                                 NamedValue::new(
                                     md.event_properties
-                                        .get_by_name(project.id, EVENT_PROPERTY_SESSION_LENGTH)
-                                        .unwrap()
+                                        .get_by_name(project.id, EVENT_PROPERTY_SESSION_LENGTH)?
                                         .column_name(),
                                     Value::Timestamp(Some(sess_len.num_seconds())),
                                 ),
@@ -419,11 +427,13 @@ fn init_session_cleaner(
                         ]
                         .concat();
 
-                        db.insert(TABLE_EVENTS, values).unwrap();
+                        db.insert(TABLE_EVENTS, values)?;
 
                         Ok(true)
-                    })
-                    .unwrap();
+                    });
+                if let Err(err) = res {
+                    error!("session cleaner: {:?}", err);
+                }
             }
         }
     });
-- 
2.43.0


From 7167461aed880e3672685ec4ae8c8576f77d4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 049/113] fix: a refused request does not begin a session

---
 src/ingester/src/destinations/local/track.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index 9641450..e08dd78 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -43,13 +43,6 @@ impl Local {
 
 impl Destination<Track> for Local {
     fn send(&self, ctx: &RequestContext, req: Track) -> Result<()> {
-        let ts = Utc::now();
-        let is_new_session = self.md.sessions.set_current_time(
-            ctx.project_id.unwrap(),
-            req.resolved_user_id.unwrap() as u64,
-            ts,
-        )?;
-
         // fill group id for each of GROUPS_COUNT groups
         let groups = if let Some(groups) = &req.resolved_group_values {
             let mut found = HashMap::new();
@@ -210,6 +203,13 @@ impl Destination<Track> for Local {
         } else {
             vec![]
         };
+        // a request that is refused does not begin a session
+        let ts = Utc::now();
+        let is_new_session = self.md.sessions.set_current_time(
+            ctx.project_id.unwrap(),
+            req.resolved_user_id.unwrap() as u64,
+            ts,
+        )?;
         if is_new_session {
             let record_id = self
                 .md
-- 
2.43.0


From 1ed33f6050c65f2c340da320373d43d0ae576808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 050/113] fix: the organization of an interrupted first start
 is created by the next one

---
 src/cmd/src/command/server.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cmd/src/command/server.rs b/src/cmd/src/command/server.rs
index c7ac487..642a3e1 100644
--- a/src/cmd/src/command/server.rs
+++ b/src/cmd/src/command/server.rs
@@ -89,17 +89,19 @@ pub async fn start(cfg: Config) -> Result<()> {
                     teams: None,
                 })?;
 
-                info!("creating organization...");
-                md.organizations.create(CreateOrganizationRequest {
-                    created_by: acc.id,
-                    name: "My Organization".to_string(),
-                })?;
-
                 acc
             }
             other => return Err(other.into()),
         },
     };
+    // the first start may have been interrupted after the account was created
+    if md.organizations.list()?.is_empty() {
+        info!("creating organization...");
+        md.organizations.create(CreateOrganizationRequest {
+            created_by: admin_acc.id,
+            name: "My Organization".to_string(),
+        })?;
+    }
     let router = Router::new();
     info!("initializing ingester...");
     let router = init_ingester(
-- 
2.43.0


From 9401f741b5fcdc47b07b88a2add187939196d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 051/113] fix: a project whose creation was interrupted is
 completed at the next start

---
 src/cmd/src/command/server.rs |  5 +++
 src/platform/src/projects.rs  | 69 ++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/cmd/src/command/server.rs b/src/cmd/src/command/server.rs
index 642a3e1..8942ede 100644
--- a/src/cmd/src/command/server.rs
+++ b/src/cmd/src/command/server.rs
@@ -12,6 +12,7 @@ use metadata::error::MetadataError;
 use metadata::organizations::CreateOrganizationRequest;
 use metadata::MetadataProvider;
 use platform::auth::password::make_password_hash;
+use platform::projects::setup_project;
 use rand::distributions::Alphanumeric;
 use rand::Rng;
 use storage::db::OptiDBImpl;
@@ -102,6 +103,10 @@ pub async fn start(cfg: Config) -> Result<()> {
             name: "My Organization".to_string(),
         })?;
     }
+    // creation of a project may have been interrupted as well
+    for project in md.projects.list()? {
+        setup_project(&project, &md)?;
+    }
     let router = Router::new();
     info!("initializing ingester...");
     let router = init_ingester(
diff --git a/src/platform/src/projects.rs b/src/platform/src/projects.rs
index 11d837e..e39b7c6 100644
--- a/src/platform/src/projects.rs
+++ b/src/platform/src/projects.rs
@@ -104,24 +104,7 @@ impl Projects {
         };
 
         let project = self.md.projects.create(md)?;
-        self.md.dictionaries.create_key(
-            project.id,
-            TABLE_EVENTS,
-            "project_id",
-            project.id,
-            project.name.as_str(),
-        )?;
-        for g in 0..GROUPS_COUNT {
-            self.md.dictionaries.create_key(
-                project.id,
-                group_col(g).as_str(),
-                "project_id",
-                project.id,
-                project.name.as_str(),
-            )?;
-        }
-
-        init_project(project.id, &self.md)?;
+        setup_project(&project, &self.md)?;
         Ok(project.into())
     }
 
@@ -183,22 +166,7 @@ impl Projects {
         };
 
         let project = self.md.projects.update(project_id, md_req)?;
-        self.md.dictionaries.create_key(
-            project.id,
-            TABLE_EVENTS,
-            "project_id",
-            project.id,
-            project.name.as_str(),
-        )?;
-        for g in 0..GROUPS_COUNT {
-            self.md.dictionaries.create_key(
-                project.id,
-                group_col(g).as_str(),
-                "project_id",
-                project.id,
-                project.name.as_str(),
-            )?;
-        }
+        create_project_keys(&project, &self.md)?;
 
         Ok(project.into())
     }
@@ -272,6 +240,39 @@ pub struct UpdateProjectRequest {
     pub session_duration_seconds: OptionalProperty<u64>,
 }
 
+fn create_project_keys(
+    project: &metadata::projects::Project,
+    md: &Arc<MetadataProvider>,
+) -> error::Result<()> {
+    md.dictionaries.create_key(
+        project.id,
+        TABLE_EVENTS,
+        "project_id",
+        project.id,
+        project.name.as_str(),
+    )?;
+    for g in 0..GROUPS_COUNT {
+        md.dictionaries.create_key(
+            project.id,
+            group_col(g).as_str(),
+            "project_id",
+            project.id,
+            project.name.as_str(),
+        )?;
+    }
+
+    Ok(())
+}
+
+/// Creates what belongs to a project. It may be repeated if it has been interrupted.
+pub fn setup_project(
+    project: &metadata::projects::Project,
+    md: &Arc<MetadataProvider>,
+) -> error::Result<()> {
+    create_project_keys(project, md)?;
+    init_project(project.id, md)
+}
+
 pub fn init_project(project_id: u64, md: &Arc<MetadataProvider>) -> error::Result<()> {
     create_property(md, project_id, CreatePropertyMainRequest {
         name: COLUMN_PROJECT_ID.to_string(),
-- 
2.43.0


From 360e273eb5068b3162fb419dc0df7eb6cbb7df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 052/113] fix: the backup schedule and the GCP key can be set

---
 src/platform/src/settings.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/platform/src/settings.rs b/src/platform/src/settings.rs
index 1f20941..46820c7 100644
--- a/src/platform/src/settings.rs
+++ b/src/platform/src/settings.rs
@@ -73,6 +73,29 @@ impl SettingsProvider {
         if let Some(v) = req.backup_provider_gcp_path {
             settings.backup_provider_gcp_path = v;
         }
+        if let Some(v) = req.backup_provider_gcp_key {
+            settings.backup_provider_gcp_key = v;
+        }
+        if let Some(v) = req.backup_schedule_interval {
+            settings.backup_schedule_interval = match v {
+                BackupScheduleInterval::Hourly => {
+                    metadata::settings::BackupScheduleInterval::Hourly
+                }
+                BackupScheduleInterval::Daily => metadata::settings::BackupScheduleInterval::Daily,
+                BackupScheduleInterval::Weekly => {
+                    metadata::settings::BackupScheduleInterval::Weekly
+                }
+                BackupScheduleInterval::Monthly => {
+                    metadata::settings::BackupScheduleInterval::Monthly
+                }
+                BackupScheduleInterval::Yearly => {
+                    metadata::settings::BackupScheduleInterval::Yearly
+                }
+            };
+        }
+        if let Some(v) = req.backup_schedule_start_hour {
+            settings.backup_schedule_start_hour = v;
+        }
 
         self.prov.save(&settings)?;
 
-- 
2.43.0


From d821bcb587bd415aaf33655b3e40d8bc2e1237b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 053/113] fix: a backup does not overwrite another one of the
 same hour

---
 src/cmd/src/backup.rs       | 11 +++++------
 src/metadata/src/backups.rs | 39 +++++++++++++++++--------------------
 2 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 6213e2d..a1c6350 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -276,12 +276,11 @@ fn backup_to_tmp<F: Fn(usize)>(
 }
 
 fn backup_local(backup: &Backup, cfg: &Config, tmp_path: &PathBuf) -> Result<()> {
-    let dst_path = cfg.data.path.join(DATA_PATH_BACKUPS).join(
-        backup
-            .created_at
-            .format("%Y-%m-%dT%H:00:00.zip")
-            .to_string(),
-    );
+    let dst_path = cfg
+        .data
+        .path
+        .join(DATA_PATH_BACKUPS)
+        .join(backup.file_name());
     debug!("starting local backup to {:?}", &dst_path);
     // generate backup to default dir for now
     // let dst_path = match &backup.provider {
diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index af0b556..fe799e3 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -67,28 +67,25 @@ pub struct Backup {
 }
 
 impl Backup {
+    /// name of the backup's file, every backup has its own
+    pub fn file_name(&self) -> String {
+        format!(
+            "{}-{}.zip",
+            self.created_at.format("%Y-%m-%dT%H:%M:%S"),
+            self.id
+        )
+    }
+
     pub fn path(&self) -> String {
-        match &self.provider {
-            Provider::Local(path) => path
-                .join(self.created_at.format("%Y-%m-%dT%H:00:00.zip").to_string())
-                .into_os_string()
-                .into_string()
-                .unwrap(),
-            Provider::S3(s3) => {
-                let p = PathBuf::from(&s3.path);
-                p.join(self.created_at.format("%Y-%m-%dT%H:00:00.zip").to_string())
-                    .into_os_string()
-                    .into_string()
-                    .unwrap()
-            }
-            Provider::GCP(gcp) => {
-                let p = PathBuf::from(&gcp.path);
-                p.join(self.created_at.format("%Y-%m-%dT%H:00:00.zip").to_string())
-                    .into_os_string()
-                    .into_string()
-                    .unwrap()
-            }
-        }
+        let dir = match &self.provider {
+            Provider::Local(path) => path.clone(),
+            Provider::S3(s3) => PathBuf::from(&s3.path),
+            Provider::GCP(gcp) => PathBuf::from(&gcp.path),
+        };
+        dir.join(self.file_name())
+            .into_os_string()
+            .into_string()
+            .unwrap()
     }
 }
 pub struct Backups {
-- 
2.43.0


From ea3fd712008b6a2a337c305bf0ae21ed7578dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 054/113] fix: a backup that failed is not completed with a
 part of its data

---
 src/cmd/src/backup.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index a1c6350..c4f0d57 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -203,20 +203,9 @@ async fn run_backup(
                 .expect("update status error");
         };
 
-        match backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress) {
-            Ok(_) => {}
-            Err(e) => {
-                md_cloned
-                    .backups
-                    .update_status(
-                        backup_cloned.id,
-                        metadata::backups::Status::Failed(e.to_string()),
-                    )
-                    .expect("update status error");
-            }
-        }
+        backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress)
     });
-    hnd.await.unwrap();
+    hnd.await.unwrap()?;
     if matches!(backup.provider, Provider::Local(_)) {
         backup_local(&backup, &cfg, &tmp_path)?;
     } else if matches!(backup.provider, Provider::GCP(_)) {
-- 
2.43.0


From fbc3b631a07c5d07e2a710bdec47c955beffaef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 055/113] fix: a backup is uploaded to the bucket it was
 requested for

---
 src/cmd/src/backup.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index c4f0d57..fd45e52 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -283,8 +283,13 @@ fn backup_local(backup: &Backup, cfg: &Config, tmp_path: &PathBuf) -> Result<()>
 }
 
 async fn backup_gcp(backup: &Backup, settings: &Settings, tmp_path: &PathBuf) -> Result<()> {
+    // settings may be changed after the backup has been requested
+    let bucket = match &backup.provider {
+        Provider::GCP(gcp) => gcp.bucket.clone(),
+        _ => settings.backup_provider_gcp_bucket.clone(),
+    };
     let gcs = GoogleCloudStorageBuilder::new()
-        .with_bucket_name(settings.backup_provider_gcp_bucket.clone())
+        .with_bucket_name(bucket)
         .with_service_account_key(settings.backup_provider_gcp_key.clone())
         .build()?;
     let path = object_store::path::Path::from(backup.path());
-- 
2.43.0


From 389a92aff276f299bd4426849d418d7a07aaba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 056/113] fix: an error does not stop the backup schedule for
 good

---
 src/cmd/src/backup.rs | 219 ++++++++++++++++++++----------------------
 1 file changed, 102 insertions(+), 117 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index fd45e52..d68ccac 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -19,7 +19,6 @@ use metadata::backups;
 use metadata::backups::Backup;
 use metadata::backups::CreateBackupRequest;
 use metadata::backups::Provider;
-use metadata::settings::BackupProvider;
 use metadata::settings::BackupScheduleInterval;
 use metadata::settings::Settings;
 use metadata::MetadataProvider;
@@ -34,6 +33,7 @@ use tracing::error;
 use zip::write::SimpleFileOptions;
 use zip::AesMode;
 
+use crate::error::Error;
 use crate::error::Result;
 
 fn truncate_to_minute(dt: &NaiveDateTime) -> NaiveDateTime {
@@ -65,118 +65,108 @@ pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -
     }
 
     // schedule backups
-    let db_cloned = db.clone();
-    let md_cloned = md.clone();
     tokio::spawn(async move {
         loop {
             sleep(Duration::from_secs(10)).await;
-            let settings = md.settings.load().expect("load config error");
-            // cancel if not enabled
-            if !settings.backup_enabled {
-                continue;
+            // try again next time
+            if let Err(e) = run_scheduled(&db, &md, &cfg).await {
+                error!("backup schedule error: {:?}", e);
             }
+        }
+    });
+    Ok(())
+}
 
-            let backups = md_cloned.backups.list().expect("list backups error");
-            let maybe_idle = backups
-                .into_iter()
-                .find(|b| b.status == backups::Status::Idle);
-            if let Some(backup) = maybe_idle {
-                match run_backup(
-                    backup.clone(),
-                    db_cloned.clone(),
-                    md_cloned.clone(),
-                    cfg.clone(),
-                    &settings,
-                )
-                .await
-                {
-                    Ok(b) => {
-                        md_cloned
-                            .backups
-                            .update_status(b.id, metadata::backups::Status::Completed)
-                            .expect("update status error");
-                    }
-                    Err(e) => {
-                        error!("backup error: {:?}", e);
-                        md_cloned
-                            .backups
-                            .update_status(
-                                backup.id,
-                                metadata::backups::Status::Failed(e.to_string()),
-                            )
-                            .expect("update status error");
-                    }
-                };
-                continue;
-            }
+async fn run_scheduled(
+    db: &Arc<OptiDBImpl>,
+    md: &Arc<MetadataProvider>,
+    cfg: &Config,
+) -> Result<()> {
+    let settings = md.settings.load()?;
+    // cancel if not enabled
+    if !settings.backup_enabled {
+        return Ok(());
+    }
 
-            let cron = match settings.backup_schedule_interval {
-                BackupScheduleInterval::Hourly => "0 * * * *".to_string(),
-                BackupScheduleInterval::Daily => {
-                    format!("0 {} * * *", settings.backup_schedule_start_hour)
-                }
-                BackupScheduleInterval::Weekly => {
-                    format!("0 {} * * 0", settings.backup_schedule_start_hour)
-                }
-                BackupScheduleInterval::Monthly => {
-                    format!("0 {} 1 * *", settings.backup_schedule_start_hour)
-                }
-                BackupScheduleInterval::Yearly => {
-                    format!("0 {} 1 1 *", settings.backup_schedule_start_hour)
-                }
-            };
+    let maybe_idle = md
+        .backups
+        .list()?
+        .into_iter()
+        .find(|b| b.status == backups::Status::Idle);
+    if let Some(backup) = maybe_idle {
+        return run_and_update(backup, db, md, cfg, &settings).await;
+    }
 
-            // let cron = "* * * * *";
-            let cron = Cron::new(&cron).parse().expect("cron schedule parse error");
-            let cur_time = Utc::now().naive_utc();
-            let cur_time = truncate_to_minute(&cur_time);
-            let next_time = cron
-                .find_next_occurrence(
-                    &DateTime::from_timestamp(cur_time.and_utc().timestamp(), 0).unwrap(),
-                    true,
-                )
-                .expect("find next occurrence error")
-                .naive_utc();
-            let next_time = truncate_to_minute(&next_time);
-            if cur_time != next_time {
-                continue;
-            }
+    let cron = match settings.backup_schedule_interval {
+        BackupScheduleInterval::Hourly => "0 * * * *".to_string(),
+        BackupScheduleInterval::Daily => {
+            format!("0 {} * * *", settings.backup_schedule_start_hour)
+        }
+        BackupScheduleInterval::Weekly => {
+            format!("0 {} * * 0", settings.backup_schedule_start_hour)
+        }
+        BackupScheduleInterval::Monthly => {
+            format!("0 {} 1 * *", settings.backup_schedule_start_hour)
+        }
+        BackupScheduleInterval::Yearly => {
+            format!("0 {} 1 1 *", settings.backup_schedule_start_hour)
+        }
+    };
 
-            let backups = md.backups.list().expect("list backups error");
-            if let Some(last) = backups.data.last() {
-                let cur_time = last.created_at.naive_utc();
-                let cur_time = truncate_to_minute(&cur_time);
-                if cur_time == next_time {
-                    continue;
-                }
-            }
+    // let cron = "* * * * *";
+    let cron = Cron::new(&cron)
+        .parse()
+        .map_err(|e| Error::BackupError(e.to_string()))?;
+    let cur_time = Utc::now().naive_utc();
+    let cur_time = truncate_to_minute(&cur_time);
+    let next_time = cron
+        .find_next_occurrence(
+            &DateTime::from_timestamp(cur_time.and_utc().timestamp(), 0).unwrap(),
+            true,
+        )
+        .map_err(|e| Error::BackupError(e.to_string()))?
+        .naive_utc();
+    let next_time = truncate_to_minute(&next_time);
+    if cur_time != next_time {
+        return Ok(());
+    }
 
-            let backup = create_backup(md.clone()).expect("create backup error");
-            match run_backup(
-                backup.clone(),
-                db_cloned.clone(),
-                md_cloned.clone(),
-                cfg.clone(),
-                &settings,
-            )
-            .await
-            {
-                Ok(b) => {
-                    md_cloned
-                        .backups
-                        .update_status(b.id, metadata::backups::Status::Completed)
-                        .expect("update status error");
-                }
-                Err(e) => {
-                    error!("backup error: {:?}", e);
-                    md_cloned
-                        .backups
-                        .update_status(backup.id, metadata::backups::Status::Failed(e.to_string()))
-                        .expect("update status error");
-                }
-            };
+    let backups = md.backups.list()?;
+    if let Some(last) = backups.data.last() {
+        let cur_time = last.created_at.naive_utc();
+        let cur_time = truncate_to_minute(&cur_time);
+        if cur_time == next_time {
+            return Ok(());
         }
-    });
+    }
+
+    let backup = create_backup(md, &settings)?;
+    run_and_update(backup, db, md, cfg, &settings).await
+}
+
+async fn run_and_update(
+    backup: Backup,
+    db: &Arc<OptiDBImpl>,
+    md: &Arc<MetadataProvider>,
+    cfg: &Config,
+    settings: &Settings,
+) -> Result<()> {
+    let status = match run_backup(
+        backup.clone(),
+        db.clone(),
+        md.clone(),
+        cfg.clone(),
+        settings,
+    )
+    .await
+    {
+        Ok(_) => backups::Status::Completed,
+        Err(e) => {
+            error!("backup error: {:?}", e);
+            backups::Status::Failed(e.to_string())
+        }
+    };
+    md.backups.update_status(backup.id, status)?;
     Ok(())
 }
 
@@ -197,15 +187,18 @@ async fn run_backup(
     let backup_cloned = backup.clone();
     let hnd = task::spawn_blocking(move || {
         let progress = |pct: usize| {
-            md_cloned
+            if let Err(e) = md_cloned
                 .backups
                 .update_status(backup_cloned.id, metadata::backups::Status::InProgress(pct))
-                .expect("update status error");
+            {
+                error!("update status error: {:?}", e);
+            }
         };
 
         backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress)
     });
-    hnd.await.unwrap()?;
+    hnd.await
+        .map_err(|e| Error::BackupError(e.to_string()))??;
     if matches!(backup.provider, Provider::Local(_)) {
         backup_local(&backup, &cfg, &tmp_path)?;
     } else if matches!(backup.provider, Provider::GCP(_)) {
@@ -217,15 +210,8 @@ async fn run_backup(
     Ok(backup)
 }
 
-fn create_backup(md: Arc<MetadataProvider>) -> Result<Backup> {
-    let settings = md.settings.load()?;
-    match settings.backup_provider {
-        BackupProvider::Local => {}
-        BackupProvider::GCP => {}
-        _ => panic!("invalid backup provider"),
-    }
-
-    let req = CreateBackupRequest::from_settings(&settings);
+fn create_backup(md: &Arc<MetadataProvider>, settings: &Settings) -> Result<Backup> {
+    let req = CreateBackupRequest::from_settings(settings);
     Ok(md.backups.create(req)?)
 }
 
@@ -277,7 +263,6 @@ fn backup_local(backup: &Backup, cfg: &Config, tmp_path: &PathBuf) -> Result<()>
     // Provider::S3(_) => panic!("invalid provider"),
     // Provider::GCP(_) => panic!("invalid provider")
     // };
-    dbg!(&tmp_path, &dst_path);
     fs::rename(tmp_path, &dst_path)?;
     Ok(())
 }
@@ -306,7 +291,7 @@ async fn backup_gcp(backup: &Backup, settings: &Settings, tmp_path: &PathBuf) ->
         }
         w.write(&buf[..n]);
     }
-    w.finish().await.unwrap();
+    w.finish().await?;
     fs::remove_file(tmp_path)?;
 
     Ok(())
-- 
2.43.0


From 50d897391b4892e32bbfad12298941d9bafd831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 057/113] fix: a backup that is not uploaded is not completed

---
 src/cmd/src/backup.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index d68ccac..ca2644d 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -199,12 +199,18 @@ async fn run_backup(
     });
     hnd.await
         .map_err(|e| Error::BackupError(e.to_string()))??;
-    if matches!(backup.provider, Provider::Local(_)) {
-        backup_local(&backup, &cfg, &tmp_path)?;
-    } else if matches!(backup.provider, Provider::GCP(_)) {
-        md.backups
-            .update_status(backup.id, backups::Status::Uploading)?;
-        backup_gcp(&backup, settings, &tmp_path).await?;
+    match backup.provider {
+        Provider::Local(_) => backup_local(&backup, &cfg, &tmp_path)?,
+        Provider::GCP(_) => {
+            md.backups
+                .update_status(backup.id, backups::Status::Uploading)?;
+            backup_gcp(&backup, settings, &tmp_path).await?;
+        }
+        Provider::S3(_) => {
+            return Err(Error::BackupError(
+                "S3 backup provider is not supported".to_string(),
+            ));
+        }
     };
     debug!("backup successful");
     Ok(backup)
-- 
2.43.0


From 92bd16bd6aa83e7a5ff3dd8b4fc14be9912d7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 058/113] fix: a backup does not stay in progress after its
 final state could not be written

---
 src/cmd/src/backup.rs | 65 ++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index ca2644d..33ad453 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -45,24 +45,7 @@ fn truncate_to_minute(dt: &NaiveDateTime) -> NaiveDateTime {
 }
 
 pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -> Result<()> {
-    let backups = md.backups.list()?;
-    // reset all in progress backups since they are stateless
-    for backup in backups {
-        if matches!(backup.status, backups::Status::InProgress(_)) {
-            let p = cfg
-                .data
-                .path
-                .join(DATA_PATH_BACKUP_TMP)
-                .join(backup.id.to_string());
-            if p.exists() {
-                fs::remove_file(p)?;
-            }
-            md.backups.update_status(
-                backup.id,
-                backups::Status::Failed("server restarted".to_string()),
-            )?;
-        };
-    }
+    reset_interrupted(&md, &cfg)?;
 
     // schedule backups
     tokio::spawn(async move {
@@ -77,11 +60,48 @@ pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -
     Ok(())
 }
 
+// reset all in progress backups since they are stateless
+fn reset_interrupted(md: &Arc<MetadataProvider>, cfg: &Config) -> Result<()> {
+    for backup in md.backups.list()? {
+        if matches!(
+            backup.status,
+            backups::Status::InProgress(_) | backups::Status::Uploading
+        ) {
+            remove_tmp(cfg, &backup)?;
+            md.backups.update_status(
+                backup.id,
+                backups::Status::Failed("backup was interrupted".to_string()),
+            )?;
+        };
+    }
+
+    Ok(())
+}
+
+fn tmp_path(cfg: &Config, backup: &Backup) -> PathBuf {
+    cfg.data
+        .path
+        .join(DATA_PATH_BACKUP_TMP)
+        .join(backup.id.to_string())
+}
+
+fn remove_tmp(cfg: &Config, backup: &Backup) -> Result<()> {
+    let path = tmp_path(cfg, backup);
+    if path.exists() {
+        fs::remove_file(path)?;
+    }
+
+    Ok(())
+}
+
 async fn run_scheduled(
     db: &Arc<OptiDBImpl>,
     md: &Arc<MetadataProvider>,
     cfg: &Config,
 ) -> Result<()> {
+    // nothing runs now, so these could not write their final status
+    reset_interrupted(md, cfg)?;
+
     let settings = md.settings.load()?;
     // cancel if not enabled
     if !settings.backup_enabled {
@@ -163,6 +183,9 @@ async fn run_and_update(
         Ok(_) => backups::Status::Completed,
         Err(e) => {
             error!("backup error: {:?}", e);
+            if let Err(e) = remove_tmp(cfg, &backup) {
+                error!("remove backup error: {:?}", e);
+            }
             backups::Status::Failed(e.to_string())
         }
     };
@@ -178,11 +201,7 @@ async fn run_backup(
     settings: &Settings,
 ) -> Result<Backup> {
     let md_cloned = md.clone();
-    let tmp_path = cfg
-        .data
-        .path
-        .join(DATA_PATH_BACKUP_TMP)
-        .join(backup.id.to_string());
+    let tmp_path = tmp_path(&cfg, &backup);
     let tmp_path_cloned = tmp_path.clone();
     let backup_cloned = backup.clone();
     let hnd = task::spawn_blocking(move || {
-- 
2.43.0


From 00d2ee5c500f6edf1b135ebb6526ab6f17390cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 059/113] fix: a schedule hour that does not exist is refused

---
 src/metadata/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index 2ebc261..fd3198b 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -81,6 +81,12 @@ impl Settings {
             ));
         }
 
+        if self.backup_schedule_start_hour > 23 {
+            return Err(MetadataError::BadRequest(
+                "backup schedule start hour must be less than 24".to_string(),
+            ));
+        }
+
         match self.backup_provider {
             BackupProvider::Local => {}
             BackupProvider::S3 => {
-- 
2.43.0


From 2820fee736e12f601a10a077b34a02075e0019e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 060/113] fix: read both path arguments of an event looked up
 by name

---
 src/platform/src/http/events.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/platform/src/http/events.rs b/src/platform/src/http/events.rs
index 0837c3c..064b794 100644
--- a/src/platform/src/http/events.rs
+++ b/src/platform/src/http/events.rs
@@ -38,8 +38,7 @@ async fn get_by_id(
 async fn get_by_name(
     ctx: Context,
     Extension(provider): Extension<Arc<Events>>,
-    Path(project_id): Path<u64>,
-    Path(event_name): Path<String>,
+    Path((project_id, event_name)): Path<(u64, String)>,
 ) -> Result<Json<Event>> {
     Ok(Json(
         provider.get_by_name(ctx, project_id, &event_name).await?,
-- 
2.43.0


From 2a97ec97aca9540caabc37945c1ffe6eed1cb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 061/113] fix: account update: leave out what is not to change

---
 src/platform/src/accounts.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..9e83618 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -162,13 +162,22 @@ pub struct CreateAccountRequest {
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub struct UpdateAccountRequest {
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub salt: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub password: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub email: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub name: OptionalProperty<Option<String>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub force_update_password: OptionalProperty<bool>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub role: OptionalProperty<Option<Role>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub organizations: OptionalProperty<Option<Vec<(u64, OrganizationRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub projects: OptionalProperty<Option<Vec<(u64, ProjectRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub teams: OptionalProperty<Option<Vec<(u64, Role)>>>,
 }
-- 
2.43.0


From a0cef9f152aa867fe241d1065137240e3adccae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 062/113] fix: account update: apply forceUpdatePassword

---
 src/platform/src/accounts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 9e83618..cdf4662 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -71,6 +71,7 @@ impl Accounts {
             updated_by: ctx.account_id,
             email: req.email,
             name: req.name,
+            force_update_password: req.force_update_password,
             role: req.role,
             organizations: req.organizations,
             projects: req.projects,
-- 
2.43.0


From 455623a6b9f1fd3b1593b442afda2cdef4bed42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 063/113] fix: sign up: refuse passwords that differ

---
 src/platform/src/auth/provider.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 7055321..8350977 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -60,6 +60,13 @@ impl Auth {
             return Err(PlatformError::invalid_field("email", "invalid email"));
         }
 
+        if req.password != req.password_repeat {
+            return Err(PlatformError::invalid_field(
+                "passwordRepeat",
+                "passwords do not match",
+            ));
+        }
+
         check_password_complexity(&req.password, &[req.email.as_str()])?;
 
         let password_hash = make_password_hash(req.password.as_str())
-- 
2.43.0


From 6f90e2b938357f7e2539554db3c432458fcb2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 064/113] fix: refuse addresses nobody can log in with

---
 src/platform/src/accounts.rs      | 12 ++++++++++++
 src/platform/src/auth/provider.rs |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index cdf4662..5d3cb16 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -10,11 +10,13 @@ use common::types::OptionalProperty;
 use metadata::accounts::Accounts as MDAccounts;
 use serde::Deserialize;
 use serde::Serialize;
+use validator::validate_email;
 
 use crate::auth::password::make_password_hash;
 use crate::auth::provider::Profile;
 use crate::Context;
 use crate::ListResponse;
+use crate::PlatformError;
 use crate::Result;
 
 pub struct Accounts {
@@ -29,6 +31,10 @@ impl Accounts {
     pub async fn create(&self, ctx: Context, req: CreateAccountRequest) -> Result<Account> {
         ctx.check_permission(Permission::ManageAccounts)?;
 
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
+
         let md_req = metadata::accounts::CreateAccountRequest {
             created_by: ctx.account_id,
             password_hash: make_password_hash(req.password.as_str())?,
@@ -67,6 +73,12 @@ impl Accounts {
     ) -> Result<Account> {
         ctx.check_permission(Permission::ManageAccounts)?;
 
+        if let OptionalProperty::Some(email) = &req.email {
+            if !validate_email(email) {
+                return Err(PlatformError::invalid_field("email", "invalid email"));
+            }
+        }
+
         let mut md_req = metadata::accounts::UpdateAccountRequest {
             updated_by: ctx.account_id,
             email: req.email,
diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 8350977..aad180c 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -306,6 +306,11 @@ impl Auth {
         if !account.force_update_email {
             return Err(PlatformError::Forbidden("forbidden".to_string()));
         }
+
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
+
         let md_req = UpdateAccountRequest {
             updated_by: ctx.account_id,
             name: OptionalProperty::None,
-- 
2.43.0


From a7d52c9ec119ae33c962213fdf019459afde2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 065/113] fix: log in to the organizations an account has a
 role in

---
 src/platform/src/auth/provider.rs | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index aad180c..24d0ede 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -55,6 +55,28 @@ impl Auth {
         })
     }
 
+    // organization the account starts in: the preferred one if the account belongs to it,
+    // the first one it belongs to otherwise, 0 if there is none
+    fn find_organization(
+        &self,
+        account: &metadata::accounts::Account,
+        preferred: Option<u64>,
+    ) -> Result<u64> {
+        let orgs = self.md.organizations.list()?;
+        let mut own = orgs.data.iter().filter(|org| {
+            org.is_member(account.id)
+                || account
+                    .organizations
+                    .iter()
+                    .flatten()
+                    .any(|(id, _)| *id == org.id)
+        });
+        let first = own.clone().next();
+        let org = own.find(|org| Some(org.id) == preferred).or(first);
+
+        Ok(org.map(|org| org.id).unwrap_or(0))
+    }
+
     pub async fn sign_up(&self, req: SignUpRequest) -> Result<TokensResponse> {
         if !validate_email(&req.email) {
             return Err(PlatformError::invalid_field("email", "invalid email"));
@@ -117,21 +139,7 @@ impl Auth {
         )
         .map_err(|_err| AuthError::InvalidCredentials)?;
 
-        // if org_id is provided, check if the account is a member of the org
-        let org_id = if let Some(org_id) = org_id {
-            let org = self.md.organizations.get_by_id(org_id)?;
-            if !org.is_member(account.id) {
-                0
-            } else {
-                org.id
-            }
-        } else {
-            // find first organization
-            let orgs = self.md.organizations.list()?;
-            let org = orgs.data.iter().find(|org| org.is_member(account.id));
-            if let Some(org) = org { org.id } else { 0 }
-        };
-
+        let org_id = self.find_organization(&account, org_id)?;
         let tokens = self.make_tokens(account.id, org_id)?;
 
         Ok(tokens)
-- 
2.43.0


From 564a15d6c0541c590ca2dc9ff676f6e6493d0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 066/113] fix: refresh tokens without a valid access token, and
 not for deleted accounts

---
 src/platform/src/auth/provider.rs | 19 +++++++++++++++++--
 src/platform/src/http/auth.rs     | 23 ++++++++++++-----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 24d0ede..50e814c 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -145,11 +145,26 @@ impl Auth {
         Ok(tokens)
     }
 
-    pub async fn refresh_token(&self, ctx: Context, refresh_token: &str) -> Result<TokensResponse> {
+    pub async fn refresh_token(
+        &self,
+        ctx: Option<Context>,
+        refresh_token: &str,
+        org_id: Option<u64>,
+    ) -> Result<TokensResponse> {
         let refresh_claims =
             parse_refresh_token(refresh_token, self.md.settings.load()?.auth_refresh_token)
                 .map_err(|err| err.wrap_into(AuthError::InvalidRefreshToken))?;
-        let tokens = self.make_tokens(refresh_claims.account_id, ctx.organization_id)?;
+        let account = self
+            .md
+            .accounts
+            .get_by_id(refresh_claims.account_id)
+            .map_err(|_err| AuthError::InvalidRefreshToken)?;
+        // the access token may have expired already
+        let org_id = match ctx {
+            Some(ctx) if ctx.account_id == account.id => ctx.organization_id,
+            _ => self.find_organization(&account, org_id)?,
+        };
+        let tokens = self.make_tokens(account.id, org_id)?;
 
         Ok(tokens)
     }
diff --git a/src/platform/src/http/auth.rs b/src/platform/src/http/auth.rs
index 2562978..87f15fe 100644
--- a/src/platform/src/http/auth.rs
+++ b/src/platform/src/http/auth.rs
@@ -83,6 +83,12 @@ async fn sign_up(
     Ok((StatusCode::CREATED, Json(tokens)))
 }
 
+fn organization_cookie(cookies: &Cookies) -> Option<u64> {
+    cookies
+        .get(COOKIE_NAME_ORGANIZATION_ID)
+        .and_then(|cookie| cookie.value().parse::<u64>().ok())
+}
+
 async fn log_in(
     cookies: Cookies,
     Extension(provider): Extension<Arc<Auth>>,
@@ -90,15 +96,7 @@ async fn log_in(
     Json(req): Json<LogInRequest>,
 ) -> Result<Json<TokensResponse>> {
     // check org id in cookies. Skip if none
-    let org_id = if let Some(cookie) = cookies.get(COOKIE_NAME_ORGANIZATION_ID) {
-        let org_id = cookie.value().parse::<u64>();
-        match org_id {
-            Ok(id) => Some(id),
-            Err(_) => None,
-        }
-    } else {
-        None
-    };
+    let org_id = organization_cookie(&cookies);
 
     let tokens = provider.log_in(req, org_id).await?;
     set_refresh_token_cookie(
@@ -111,7 +109,7 @@ async fn log_in(
 }
 
 async fn refresh_token(
-    ctx: Context,
+    ctx: Option<Context>,
     cookies: Cookies,
     Extension(provider): Extension<Arc<Auth>>,
     Extension(cfg): Extension<Config>,
@@ -128,7 +126,10 @@ async fn refresh_token(
         ));
     };
 
-    let tokens = provider.refresh_token(ctx, refresh_token.as_str()).await?;
+    let org_id = organization_cookie(&cookies);
+    let tokens = provider
+        .refresh_token(ctx, refresh_token.as_str(), org_id)
+        .await?;
     set_refresh_token_cookie(
         &cookies,
         tokens.refresh_token.as_str(),
-- 
2.43.0


From 412e37e791d8658591f3f52e8173a7b0af0b22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 067/113] fix: a role in an organization gives no right in
 projects of other organizations

---
 src/platform/src/context.rs  | 25 ++++++++++++++++++++++++-
 src/platform/src/http/mod.rs |  1 +
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/context.rs b/src/platform/src/context.rs
index 7ca36ff..20049e4 100644
--- a/src/platform/src/context.rs
+++ b/src/platform/src/context.rs
@@ -33,6 +33,8 @@ pub struct Context {
     pub organizations: Option<Vec<(u64, OrganizationRole)>>,
     pub projects: Option<Vec<(u64, ProjectRole)>>,
     pub teams: Option<Vec<(u64, Role)>>,
+    /// projects of the organization `organization_id`
+    pub organization_projects: Vec<u64>,
 }
 
 impl Context {
@@ -102,7 +104,15 @@ impl Context {
         if self.check_permission(Permission::ManageProjects).is_ok() {
             return Ok(());
         }
-        if let Ok(role) = self.get_organization_role(org_id) {
+        // a role in the organization covers the projects of that organization only
+        let org_role = if org_id == self.organization_id
+            && self.organization_projects.contains(&project_id)
+        {
+            self.get_organization_role(org_id)
+        } else {
+            Err(PlatformError::Forbidden("forbidden".to_string()))
+        };
+        if let Ok(role) = org_role {
             match role {
                 OrganizationRole::Owner => return Ok(()),
                 OrganizationRole::Admin => return Ok(()),
@@ -180,6 +190,18 @@ where S: Send + Sync
                 .map_err(|err| PlatformError::Internal(err.to_string()))?;
 
         let acc = md_acc_prov.get_by_id(claims.account_id)?;
+        let Extension(md_projects) =
+            Extension::<Arc<metadata::projects::Projects>>::from_request_parts(parts, state)
+                .await
+                .map_err(|err| PlatformError::Internal(err.to_string()))?;
+        let organization_projects = md_projects
+            .list()?
+            .data
+            .into_iter()
+            .filter(|project| project.organization_id == claims.organization_id)
+            .map(|project| project.id)
+            .collect();
+
         let ctx = Context {
             account_id: acc.id,
             organization_id: claims.organization_id,
@@ -189,6 +211,7 @@ where S: Send + Sync
             organizations: acc.organizations,
             projects: acc.projects,
             teams: acc.teams,
+            organization_projects,
         };
 
         Ok(ctx)
diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 101ac02..0e768a4 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -79,6 +79,7 @@ pub fn attach_routes(
         .layer(Extension(platform.backups.clone()))
         .layer(Extension(platform.settings.clone()))
         .layer(Extension(md.accounts.clone()))
+        .layer(Extension(md.projects.clone()))
         .layer(Extension(md.settings.clone()))
         .layer(Extension(platform.accounts.clone()))
         .layer(Extension(platform.auth.clone()))
-- 
2.43.0


From ce9ea01c119889b2eed247e78ee67f54de7a2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 068/113] fix: an event search keeps events that have no
 filters of their own

---
 src/query/src/event_records.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..544afee 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -577,19 +577,16 @@ pub fn fix_search_request(
         for event in events.iter() {
             let mut of = vec![];
             if let Some(filters) = &event.filters {
-                if filters.is_empty() {
-                } else {
-                    for filter in filters.iter() {
-                        let f = fix_filter(md, project_id, filter)?;
-                        of.push(f);
-                    }
+                for filter in filters.iter() {
+                    let f = fix_filter(md, project_id, filter)?;
+                    of.push(f);
                 }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
             }
+            let e = Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            };
+            oe.push(e);
         }
         out.events = Some(oe);
     }
-- 
2.43.0


From 8915291c70e178e1b2fc1f3874ea2623e9ae269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 069/113] fix: an event search applies the filters that are not
 bound to an event

---
 src/query/src/event_records.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 544afee..5670dad 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -298,6 +298,12 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
-- 
2.43.0


From d3b7f91335caafc9d73e845147994d1223346ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 070/113] fix: columns of an event search belong to the
 properties they are labelled with

---
 src/query/src/event_records.rs | 79 ++++++++++++++++------------------
 1 file changed, 36 insertions(+), 43 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 5670dad..b93ac78 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -203,6 +203,7 @@ impl EventRecordsProvider {
             .iter()
             .enumerate()
             .map(|(idx, field)| {
+                // columns of the result are in order of properties
                 let prop = &props[idx];
                 crate::Column {
                     property: Some(prop.reference()),
@@ -226,11 +227,8 @@ pub fn build_search_plan(
     input: LogicalPlan,
     req: EventRecordsSearchRequest,
 ) -> Result<(LogicalPlan, Vec<Property>)> {
-    let mut properties = vec![];
-    let mut exprs = vec![];
+    let mut properties: Vec<Property> = vec![];
     if let Some(props) = &req.properties {
-        let mut prop_names = vec![];
-
         for prop in props {
             let p = match prop {
                 PropertyRef::Group(n, group_id) => {
@@ -245,17 +243,43 @@ pub fn build_search_plan(
                     ));
                 }
             };
-            if prop_names.contains(&p.column_name()) {
+            if properties
+                .iter()
+                .any(|v| v.column_name() == p.column_name())
+            {
                 continue;
             }
-            prop_names.push(p.column_name());
-            properties.push(p.clone());
-            exprs.push(col(Column {
+            properties.push(p);
+        }
+
+        // event id is always a part of the result
+        if !properties
+            .iter()
+            .any(|v| v.column_name() == *COLUMN_EVENT_ID)
+        {
+            let p = metadata
+                .event_properties
+                .get_by_name(ctx.project_id, COLUMN_EVENT_ID)?;
+            properties.insert(0, p);
+        }
+    } else {
+        properties.append(&mut metadata.event_properties.list(ctx.project_id)?.data);
+        for g in 0..GROUPS_COUNT {
+            properties.append(&mut metadata.group_properties[g].list(ctx.project_id)?.data);
+        }
+        // the table has columns of all the projects
+        properties.retain(|p| input.schema().has_column_with_unqualified_name(&p.column_name()));
+    }
+
+    let exprs = properties
+        .iter()
+        .map(|p| {
+            col(Column {
                 relation: None,
                 name: p.column_name(),
-            }));
-        }
-    };
+            })
+        })
+        .collect::<Vec<_>>();
 
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = decode_filter_dictionaries(
@@ -309,24 +333,7 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        if !exprs.iter().any(|v| match v {
-            Expr::Column(c) => c.name == *COLUMN_EVENT_ID,
-            _ => unreachable!(),
-        }) {
-            exprs = [
-                vec![col(Column {
-                    relation: None,
-                    name: COLUMN_EVENT_ID.to_string(),
-                })],
-                exprs.to_vec(),
-            ]
-            .concat();
-        }
-        LogicalPlan::Projection(Projection::try_new(exprs.clone(), Arc::new(input))?)
-    };
+    let input = LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?);
 
     let input = {
         let s = Expr::Sort(expr::Sort {
@@ -342,26 +349,12 @@ pub fn build_search_plan(
         })
     };
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
-    };
     let input = LogicalPlan::Limit(Limit {
         skip: 0,
         fetch: Some(100),
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.event_properties.list(ctx.project_id)?.data;
-        properties.append(&mut (l));
-        for g in 0..GROUPS_COUNT {
-            let mut l = metadata.group_properties[g].list(ctx.project_id)?.data;
-            properties.append(&mut (l));
-        }
-    }
-
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
-- 
2.43.0


From cd4564804301d87a588411c1bf34a3c3b97d2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 071/113] fix: an event record that does not exist is not
 found, and properties it lacks are null

---
 src/platform/src/error.rs      |  1 +
 src/query/src/error.rs         |  2 ++
 src/query/src/event_records.rs | 56 +++-------------------------------
 3 files changed, 8 insertions(+), 51 deletions(-)

diff --git a/src/platform/src/error.rs b/src/platform/src/error.rs
index 00d467e..755e4ce 100644
--- a/src/platform/src/error.rs
+++ b/src/platform/src/error.rs
@@ -110,6 +110,7 @@ impl PlatformError {
             },
             PlatformError::Query(err) => match err {
                 QueryError::Internal(err) => ApiError::internal(err),
+                QueryError::NotFound(err) => ApiError::not_found(err),
                 QueryError::Plan(err) => ApiError::internal(err),
                 QueryError::Execution(err) => ApiError::internal(err),
                 QueryError::DataFusion(err) => ApiError::internal(err.to_string()),
diff --git a/src/query/src/error.rs b/src/query/src/error.rs
index 6932a31..e26d825 100644
--- a/src/query/src/error.rs
+++ b/src/query/src/error.rs
@@ -15,6 +15,8 @@ pub enum QueryError {
     Internal(String),
     #[error("unimplemented {0:?}")]
     Unimplemented(String),
+    #[error("not found {0:?}")]
+    NotFound(String),
     #[error("plan {0:?}")]
     Plan(String),
     #[error("execution {0:?}")]
diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index b93ac78..48b9f03 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::EventRef;
 use common::query::PropValueFilter;
@@ -24,8 +14,6 @@ use common::types::COLUMN_PROJECT_ID;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use common::GROUPS_COUNT;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
@@ -96,6 +84,10 @@ impl EventRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"event_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        if result.num_rows() == 0 {
+            return Err(QueryError::NotFound(format!("event {id} not found")));
+        }
+
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -119,45 +111,7 @@ impl EventRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
-
+                let value = ScalarValue::try_from_array(col, 0)?;
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
                     value,
-- 
2.43.0


From 174f51e6603d6b79120be9db9fc3a69d410d8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 072/113] fix: system properties of groups are not columns of
 an event search

---
 src/query/src/event_records.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 48b9f03..dbaad9a 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -219,7 +219,9 @@ pub fn build_search_plan(
     } else {
         properties.append(&mut metadata.event_properties.list(ctx.project_id)?.data);
         for g in 0..GROUPS_COUNT {
-            properties.append(&mut metadata.group_properties[g].list(ctx.project_id)?.data);
+            // system properties of groups are not a part of events
+            let props = metadata.group_properties[g].list(ctx.project_id)?.data;
+            properties.extend(props.into_iter().filter(|p| !p.is_system));
         }
         // the table has columns of all the projects
         properties.retain(|p| input.schema().has_column_with_unqualified_name(&p.column_name()));
-- 
2.43.0


From 4147c4d290082a1a54bbbff9f18cb9b1a5179888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 073/113] fix: a filter by a value that was never ingested
 selects nothing

---
 src/query/src/expr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..376d982 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -24,6 +24,7 @@ use datafusion_expr::Expr;
 use datafusion_expr::ExprSchemable;
 use datafusion_expr::Operator;
 use metadata::dictionaries::Dictionaries;
+use metadata::error::MetadataError;
 use metadata::properties::DictionaryType;
 use metadata::MetadataProvider;
 
@@ -177,14 +178,23 @@ pub fn encode_property_dict_values(
     for value in values.iter() {
         if let ScalarValue::Utf8(inner) = value {
             if let Some(str_value) = inner {
-                let key =
-                    dictionaries.get_key(ctx.project_id, tbl, col_name, str_value.as_str())?;
+                let key = match dictionaries.get_key(
+                    ctx.project_id,
+                    tbl,
+                    col_name,
+                    str_value.as_str(),
+                ) {
+                    Ok(key) => key as i64,
+                    // no row has a value that is not in the dictionary
+                    Err(MetadataError::NotFound(_)) => -1,
+                    Err(err) => return Err(err.into()),
+                };
 
                 let scalar_value = match dict_type {
                     DictionaryType::Int8 => ScalarValue::Int8(Some(key as i8)),
                     DictionaryType::Int16 => ScalarValue::Int16(Some(key as i16)),
                     DictionaryType::Int32 => ScalarValue::Int32(Some(key as i32)),
-                    DictionaryType::Int64 => ScalarValue::Int64(Some(key as i64)),
+                    DictionaryType::Int64 => ScalarValue::Int64(Some(key)),
                 };
 
                 ret.push(scalar_value);
-- 
2.43.0


From 822ab007a640b351e506c8840005bc4bec561486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 074/113] fix: a filter by several timestamps keeps one value
 per timestamp

---
 src/query/src/lib.rs | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..f57c3cd 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -585,36 +585,22 @@ pub fn fix_filter(
                 }
             };
 
-            let mut ev = vec![];
-            if let Some(value) = value {
-                for value in value {
-                    match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
-                            match filter.clone() {
-                                PropValueFilter::Property { value, .. } => {
-                                    for value in value.unwrap().iter() {
-                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
-                                            let sv = ScalarValue::TimestampMillisecond(
-                                                Some(*ts as i64),
-                                                None,
-                                            );
-                                            ev.push(sv);
-                                        } else {
-                                            unreachable!()
-                                        }
-                                    }
-                                }
-                            };
+            let value = value.as_ref().map(|values| {
+                values
+                    .iter()
+                    .map(|value| match (&prop.data_type, value) {
+                        (DType::Timestamp, ScalarValue::Decimal128(ts, _, _)) => {
+                            ScalarValue::TimestampMillisecond(ts.map(|ts| ts as i64), None)
                         }
-                        _ => ev.push(value.to_owned()),
-                    }
-                }
-            }
+                        _ => value.to_owned(),
+                    })
+                    .collect::<Vec<_>>()
+            });
 
             let filter = common::query::PropValueFilter::Property {
                 property: property.to_owned(),
                 operation: operation.to_owned(),
-                value: Some(ev),
+                value,
             };
             Ok(filter)
         }
-- 
2.43.0


From fba0173e5f6be2c640e0785aec6d26aa1d0e082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 075/113] fix: filters of one dictionary property by pattern
 and by value may be combined

---
 src/query/src/event_records.rs      |  6 ++--
 src/query/src/event_segmentation.rs | 14 ++++++----
 src/query/src/expr.rs               | 43 +++++++++++++++++------------
 src/query/src/funnel.rs             | 10 +++----
 src/query/src/group_records.rs      |  2 +-
 src/query/src/lib.rs                |  7 ++---
 src/query/src/properties.rs         |  3 +-
 7 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index dbaad9a..e8798d5 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -262,14 +262,14 @@ pub fn build_search_plan(
         let mut exprs = vec![];
         for event in events {
             // event expression
-            let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema(), &event.event)?;
             // apply event filters
             if let Some(filters) = &event.filters
                 && !filters.is_empty()
             {
                 expr = and(
                     expr.clone(),
-                    event_filters_expression(&ctx, &metadata, filters)?,
+                    event_filters_expression(&ctx, &metadata, input.schema(), filters)?,
                 )
             }
 
@@ -281,7 +281,7 @@ pub fn build_search_plan(
     if let Some(filters) = &req.filters
         && !filters.is_empty()
     {
-        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 127c8ea..bed5b34 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -264,7 +264,7 @@ impl LogicalPlanBuilder {
                 for conditions in segment.conditions {
                     let mut and: Option<SegmentExpr> = None;
                     for condition in conditions {
-                        let expr = builder.build_segment_condition(&condition, es.group_id)?;
+                        let expr = builder.build_segment_condition(&input, &condition, es.group_id)?;
                         and = match and {
                             None => Some(expr),
                             Some(e) => Some(SegmentExpr::And(Box::new(e), Box::new(expr))),
@@ -455,6 +455,7 @@ impl LogicalPlanBuilder {
 
     fn build_segment_condition(
         &self,
+        input: &LogicalPlan,
         condition: &SegmentCondition,
         group_id: usize,
     ) -> Result<SegmentExpr> {
@@ -469,6 +470,7 @@ impl LogicalPlanBuilder {
                 let filter = property_expression(
                     &self.ctx,
                     &self.metadata,
+                    input.schema(),
                     TABLE_EVENTS,
                     property,
                     operation,
@@ -491,12 +493,12 @@ impl LogicalPlanBuilder {
                 aggregate,
             } => {
                 // event expression
-                let mut event_expr = event_expression(&self.ctx, &self.metadata, event)?;
+                let mut event_expr = event_expression(&self.ctx, &self.metadata, input.schema(), event)?;
                 // apply event filters
                 if let Some(filters) = &filters {
                     event_expr = and(
                         event_expr.clone(),
-                        event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                        event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
                     )
                 }
                 match aggregate {
@@ -748,13 +750,13 @@ impl LogicalPlanBuilder {
         // event expression
         expr = and(
             expr,
-            event_expression(&self.ctx, &self.metadata, &event.event)?,
+            event_expression(&self.ctx, &self.metadata, input.schema(), &event.event)?,
         );
         // apply event filters
         if let Some(filters) = &event.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
             )
         }
 
@@ -762,7 +764,7 @@ impl LogicalPlanBuilder {
         if let Some(filters) = &self.es.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, input.schema(), filters)?,
             );
         }
 
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 376d982..c19be52 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -58,9 +58,10 @@ pub fn time_expression<S: ExprSchema>(
 }
 
 /// builds expression for event
-pub fn event_expression(
+pub fn event_expression<S: ExprSchema>(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &S,
     event: &EventRef,
 ) -> Result<Expr> {
     Ok(match &event {
@@ -85,20 +86,20 @@ pub fn event_expression(
             for event in e.events.iter() {
                 let mut expr = match &event.event {
                     EventRef::RegularName(name) => {
-                        event_expression(ctx, metadata, &EventRef::RegularName(name.to_owned()))?
+                        event_expression(ctx, metadata, schema, &EventRef::RegularName(name.to_owned()))?
                     }
                     EventRef::Regular(id) => {
-                        event_expression(ctx, metadata, &EventRef::Regular(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Regular(*id))?
                     }
                     EventRef::Custom(id) => {
-                        event_expression(ctx, metadata, &EventRef::Custom(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Custom(*id))?
                     }
                 };
 
                 if let Some(filters) = &event.filters {
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, filters)?,
+                        event_filters_expression(ctx, metadata, schema, filters)?,
                     );
                 }
 
@@ -116,9 +117,10 @@ pub fn event_expression(
 }
 
 /// builds event filters expression
-pub fn event_filters_expression(
+pub fn event_filters_expression<S: ExprSchema>(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &S,
     filters: &[PropValueFilter],
 ) -> Result<Expr> {
     // iterate over filters
@@ -137,7 +139,15 @@ pub fn event_filters_expression(
                         PropertyRef::Event(_) => TABLE_EVENTS.to_string(),
                         PropertyRef::Custom(_) => unimplemented!(),
                     };
-                    property_expression(ctx, metadata, &tbl, property, operation, value.clone())
+                    property_expression(
+                        ctx,
+                        metadata,
+                        schema,
+                        &tbl,
+                        property,
+                        operation,
+                        value.clone(),
+                    )
                 }
             }
         })
@@ -213,8 +223,9 @@ pub fn encode_property_dict_values(
     Ok(ret)
 }
 
-fn prop_expression(
+fn prop_expression<S: ExprSchema>(
     ctx: &Context,
+    schema: &S,
     tbl: &str,
     prop: &Arc<metadata::properties::Properties>,
     dicts: &Arc<metadata::dictionaries::Dictionaries>,
@@ -230,14 +241,9 @@ fn prop_expression(
         return named_property_expression(col, operation, None);
     }
 
-    match operation {
-        PropValueOperation::Like
-        | PropValueOperation::NotLike
-        | PropValueOperation::Regex
-        | PropValueOperation::NotRegex => {
-            return named_property_expression(col, operation, values);
-        }
-        _ => {}
+    // another filter may have the column already decoded
+    if schema.data_type(&Column::from_name(col_name.as_str()))? == &DataType::Utf8 {
+        return named_property_expression(col, operation, values);
     }
 
     if let Some(dict_type) = prop.dictionary_type {
@@ -256,9 +262,10 @@ fn prop_expression(
 }
 
 /// builds name [property] [operation] [value] expression
-pub fn property_expression(
+pub fn property_expression<S: ExprSchema>(
     ctx: &Context,
     md: &Arc<MetadataProvider>,
+    schema: &S,
     tbl: &str,
     property: &PropertyRef,
     operation: &PropValueOperation,
@@ -267,6 +274,7 @@ pub fn property_expression(
     match property {
         PropertyRef::Group(prop_name, group) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.group_properties[*group],
             &md.dictionaries,
@@ -276,6 +284,7 @@ pub fn property_expression(
         ),
         PropertyRef::Event(prop_name) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.event_properties,
             &md.dictionaries,
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..08ee71c 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -259,7 +259,7 @@ pub fn build(
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
     if let Some(filters) = &req.filters {
-        expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
+        expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?)
     }
     let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
 
@@ -273,9 +273,9 @@ pub fn build(
         for step in req.steps.iter() {
             let mut exprs = vec![];
             for event in step.events.iter() {
-                let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+                let mut expr = event_expression(&ctx, &metadata, input.schema(), &event.event)?;
                 if let Some(filters) = &event.filters {
-                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                    expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
                 }
                 exprs.push(expr)
             }
@@ -293,9 +293,9 @@ pub fn build(
     let exclude = if let Some(excludes) = &req.exclude {
         let mut out = vec![];
         for exclude in excludes {
-            let mut expr = event_expression(&ctx, &metadata, &exclude.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema(), &exclude.event)?;
             if let Some(filters) = &exclude.filters {
-                expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema(), filters)?);
             }
             let steps = if let Some(steps) = &exclude.steps {
                 let steps = match steps {
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..a8da732 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -265,7 +265,7 @@ pub fn build_search_plan(
     }
 
     if let Some(filters) = &req.filters {
-        let expr = event_filters_expression(&ctx, &metadata, filters)?;
+        let expr = event_filters_expression(&ctx, &metadata, input.schema(), filters)?;
         filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
     }
 
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index f57c3cd..370e039 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -481,6 +481,9 @@ pub fn decode_filter_single_dictionary(
                     return Ok(());
                 }
                 let col_name = prop.column_name();
+                if cols_hash.contains_key(col_name.as_str()) {
+                    return Ok(());
+                }
                 let dict = SingleDictionaryProvider::new(
                     ctx.project_id,
                     tbl,
@@ -489,10 +492,6 @@ pub fn decode_filter_single_dictionary(
                 );
                 let col = datafusion_common::Column::from_name(col_name);
                 decode_cols.push((col, Arc::new(dict)));
-
-                if cols_hash.contains_key(prop.column_name().as_str()) {
-                    return Ok(());
-                }
                 cols_hash.insert(prop.column_name(), ());
             }
             _ => {}
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..5f6404d 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -129,7 +129,7 @@ impl LogicalPlanBuilder {
         );
 
         if let Some(event) = &req.event {
-            expr = and(expr, event_expression(&ctx, &metadata, event)?);
+            expr = and(expr, event_expression(&ctx, &metadata, input.schema(), event)?);
         }
 
         let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
@@ -166,6 +166,7 @@ impl LogicalPlanBuilder {
                 property_expression(
                     &ctx,
                     &metadata,
+                    input.schema(),
                     TABLE_EVENTS,
                     &req.property,
                     &filter.operation,
-- 
2.43.0


From 7b1748bb2a6ce2461111418ed7ff3387414fe63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 076/113] fix: queries read the properties that filters of
 custom events are about

---
 src/query/src/event_records.rs      | 50 +++++++++---------
 src/query/src/event_segmentation.rs | 73 +++++++++++---------------
 src/query/src/expr.rs               | 33 +++++++++++-
 src/query/src/funnel.rs             | 81 ++++++++++-------------------
 src/query/src/properties.rs         | 45 +++++++++++++---
 5 files changed, 152 insertions(+), 130 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index e8798d5..dfceab2 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -44,6 +44,7 @@ use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
+use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
 use crate::expr::time_expression;
@@ -446,6 +447,23 @@ pub fn build_get_by_id_plan(
     Ok(input)
 }
 
+/// all the filters of a request
+fn filters(
+    ctx: &Context,
+    metadata: &Arc<MetadataProvider>,
+    events: Option<&Vec<Event>>,
+    filters: Option<&Vec<PropValueFilter>>,
+) -> Result<Vec<PropValueFilter>> {
+    let mut res = vec![];
+    for event in events.into_iter().flatten() {
+        res.append(&mut custom_event_filters(ctx, metadata, &event.event)?);
+        res.extend(event.filters.iter().flatten().cloned());
+    }
+    res.extend(filters.into_iter().flatten().cloned());
+
+    Ok(res)
+}
+
 fn decode_filter_dictionaries(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
@@ -456,26 +474,8 @@ fn decode_filter_dictionaries(
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
-    if let Some(events) = events {
-        for event in events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
-            }
-        }
-    }
-
-    if let Some(filters) = filters {
-        for filter in filters {
-            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
-        }
+    for filter in self::filters(ctx, metadata, events, filters)? {
+        decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, &filter)?;
     }
 
     if decode_cols.is_empty() {
@@ -497,12 +497,10 @@ fn projection(
         COLUMN_CREATED_AT.to_string(),
         COLUMN_EVENT_ID.to_string(),
     ];
-    if let Some(filters) = &req.filters {
-        for filter in filters {
-            match filter {
-                PropValueFilter::Property { property, .. } => {
-                    fields.push(col_name(ctx, property, md)?)
-                }
+    for filter in filters(ctx, md, req.events.as_ref(), req.filters.as_ref())? {
+        match filter {
+            PropValueFilter::Property { property, .. } => {
+                fields.push(col_name(ctx, &property, md)?)
             }
         }
     }
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index bed5b34..63c73c7 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -50,6 +50,7 @@ use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
 use crate::expr::breakdown_expr;
+use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
 use crate::expr::property_col;
@@ -163,6 +164,22 @@ impl EventSegmentationProvider {
     }
 }
 
+/// all the filters of a request
+fn filters(
+    ctx: &Context,
+    req: &EventSegmentationRequest,
+    md: &Arc<MetadataProvider>,
+) -> Result<Vec<PropValueFilter>> {
+    let mut res = vec![];
+    for event in &req.events {
+        res.append(&mut custom_event_filters(ctx, md, &event.event)?);
+        res.extend(event.filters.iter().flatten().cloned());
+    }
+    res.extend(req.filters.iter().flatten().cloned());
+
+    Ok(res)
+}
+
 fn projection(
     ctx: &Context,
     req: &EventSegmentationRequest,
@@ -175,17 +192,15 @@ fn projection(
         COLUMN_EVENT.to_string(),
     ];
 
-    for event in &req.events {
-        if let Some(filters) = &event.filters {
-            for filter in filters {
-                match filter {
-                    PropValueFilter::Property { property, .. } => {
-                        fields.push(col_name(ctx, property, md)?)
-                    }
-                }
+    for filter in filters(ctx, req, md)? {
+        match filter {
+            PropValueFilter::Property { property, .. } => {
+                fields.push(col_name(ctx, &property, md)?)
             }
         }
+    }
 
+    for event in &req.events {
         for query in &event.queries {
             match &query.agg {
                 Query::CountEvents => {}
@@ -213,16 +228,6 @@ fn projection(
         }
     }
 
-    if let Some(filters) = &req.filters {
-        for filter in filters {
-            match filter {
-                PropValueFilter::Property { property, .. } => {
-                    fields.push(col_name(ctx, property, md)?)
-                }
-            }
-        }
-    }
-
     if let Some(breakdowns) = &req.breakdowns {
         for breakdown in breakdowns {
             match breakdown {
@@ -553,30 +558,14 @@ impl LogicalPlanBuilder {
     ) -> Result<LogicalPlan> {
         let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
-        for event in &self.es.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        &self.ctx,
-                        &self.metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
-            }
-        }
-
-        if let Some(filters) = &self.es.filters {
-            for filter in filters {
-                decode_filter_single_dictionary(
-                    &self.ctx,
-                    &self.metadata,
-                    cols_hash,
-                    &mut decode_cols,
-                    filter,
-                )?;
-            }
+        for filter in filters(&self.ctx, &self.es, &self.metadata)? {
+            decode_filter_single_dictionary(
+                &self.ctx,
+                &self.metadata,
+                cols_hash,
+                &mut decode_cols,
+                &filter,
+            )?;
         }
 
         if decode_cols.is_empty() {
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index c19be52..db5fcf4 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -29,6 +29,7 @@ use metadata::properties::DictionaryType;
 use metadata::MetadataProvider;
 
 use crate::error::QueryError;
+use crate::fix_filter;
 use crate::logical_plan::expr::lit_timestamp;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
@@ -96,10 +97,16 @@ pub fn event_expression<S: ExprSchema>(
                     }
                 };
 
-                if let Some(filters) = &event.filters {
+                if let Some(filters) = &event.filters
+                    && !filters.is_empty()
+                {
+                    let filters = filters
+                        .iter()
+                        .map(|filter| fix_filter(metadata, ctx.project_id, filter))
+                        .collect::<Result<Vec<_>>>()?;
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, schema, filters)?,
+                        event_filters_expression(ctx, metadata, schema, &filters)?,
                     );
                 }
 
@@ -116,6 +123,28 @@ pub fn event_expression<S: ExprSchema>(
     })
 }
 
+/// filters of events the event consists of, when it is a custom one
+pub fn custom_event_filters(
+    ctx: &Context,
+    metadata: &Arc<MetadataProvider>,
+    event: &EventRef,
+) -> Result<Vec<PropValueFilter>> {
+    let mut res = vec![];
+    if let EventRef::Custom(id) = event {
+        let e = metadata.custom_events.get_by_id(ctx.project_id, *id)?;
+        for event in e.events.iter() {
+            if let Some(filters) = &event.filters {
+                for filter in filters {
+                    res.push(fix_filter(metadata, ctx.project_id, filter)?);
+                }
+            }
+            res.append(&mut custom_event_filters(ctx, metadata, &event.event)?);
+        }
+    }
+
+    Ok(res)
+}
+
 /// builds event filters expression
 pub fn event_filters_expression<S: ExprSchema>(
     ctx: &Context,
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 08ee71c..816ca12 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -52,6 +52,7 @@ use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
+use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
 use crate::expr::property_col;
@@ -434,26 +435,8 @@ fn decode_filter_dictionaries(
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
-    for step in &funnel.steps {
-        for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
-            }
-        }
-    }
-
-    if let Some(filters) = &funnel.filters {
-        for filter in filters {
-            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
-        }
+    for filter in filters(ctx, funnel, metadata)? {
+        decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, &filter)?;
     }
     if decode_cols.is_empty() {
         return Ok(input);
@@ -489,6 +472,26 @@ pub struct Response {
     pub steps: Vec<Step>,
 }
 
+/// all the filters of a request
+fn filters(
+    ctx: &Context,
+    req: &Funnel,
+    md: &Arc<MetadataProvider>,
+) -> Result<Vec<PropValueFilter>> {
+    let mut res = vec![];
+    for event in req.steps.iter().flat_map(|step| step.events.iter()) {
+        res.append(&mut custom_event_filters(ctx, md, &event.event)?);
+        res.extend(event.filters.iter().flatten().cloned());
+    }
+    for exclude in req.exclude.iter().flatten() {
+        res.append(&mut custom_event_filters(ctx, md, &exclude.event)?);
+        res.extend(exclude.filters.iter().flatten().cloned());
+    }
+    res.extend(req.filters.iter().flatten().cloned());
+
+    Ok(res)
+}
+
 fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result<Vec<String>> {
     let mut fields = vec![
         COLUMN_PROJECT_ID.to_string(),
@@ -497,16 +500,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
         COLUMN_EVENT.to_string(),
     ];
 
-    for step in &req.steps {
-        for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
-                    }
-                }
+    for filter in filters(ctx, req, md)? {
+        match filter {
+            PropValueFilter::Property { property, .. } => {
+                fields.push(col_name(ctx, &property, md)?)
             }
         }
     }
@@ -517,30 +514,6 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
         }
     }
 
-    if let Some(exclude) = &req.exclude {
-        for e in exclude {
-            if let Some(filters) = &e.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
-                    }
-                }
-            }
-        }
-    }
-
-    if let Some(filters) = &req.filters {
-        for filter in filters {
-            match filter {
-                PropValueFilter::Property { property, .. } => {
-                    fields.push(col_name(ctx, property, md)?)
-                }
-            }
-        }
-    }
-
     if let Some(breakdowns) = &req.breakdowns {
         for breakdown in breakdowns {
             match breakdown {
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 5f6404d..b4a265b 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -3,8 +3,10 @@ use std::sync::Arc;
 use std::time::Instant;
 
 use arrow::array::ArrayRef;
+use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::EventRef;
+use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
 use common::types::COLUMN_EVENT;
@@ -14,6 +16,7 @@ use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
 use datafusion_common::Column;
 use datafusion_common::DFSchema;
+use datafusion_common::ExprSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::and;
 use datafusion_expr::binary_expr;
@@ -37,9 +40,11 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
+use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::property_expression;
 use crate::initial_plan;
@@ -94,8 +99,10 @@ macro_rules! property_col {
         let agg_fn = Aggregate::try_new(Arc::new($input.clone()), vec![expr], vec![])?;
         let input = LogicalPlan::Aggregate(agg_fn);
 
+        let decoded = *input.schema().data_type(&Column::from_name(col_name.as_str()))?
+            == DataType::Utf8;
         match $prop.dictionary_type {
-            Some(_) => {
+            Some(_) if !decoded => {
                 let dict = SingleDictionaryProvider::new(
                     $ctx.project_id,
                     $tbl,
@@ -110,7 +117,7 @@ macro_rules! property_col {
                     )])?),
                 })
             }
-            None => input,
+            _ => input,
         }
     }};
 }
@@ -122,18 +129,34 @@ impl LogicalPlanBuilder {
         input: LogicalPlan,
         req: PropertyValues,
     ) -> Result<LogicalPlan> {
-        let mut expr = binary_expr(
+        let expr = binary_expr(
             col(COLUMN_PROJECT_ID),
             Operator::Eq,
             lit(ScalarValue::from(ctx.project_id as i64)),
         );
+        let mut input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
 
         if let Some(event) = &req.event {
-            expr = and(expr, event_expression(&ctx, &metadata, input.schema(), event)?);
+            let mut cols_hash: HashMap<String, ()> = HashMap::new();
+            let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
+            for filter in custom_event_filters(&ctx, &metadata, event)? {
+                decode_filter_single_dictionary(
+                    &ctx,
+                    &metadata,
+                    &mut cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
+            }
+            if !decode_cols.is_empty() {
+                input = LogicalPlan::Extension(Extension {
+                    node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols)?),
+                });
+            }
+            let expr = event_expression(&ctx, &metadata, input.schema(), event)?;
+            input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
         }
 
-        let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
-
         let (input, col_name) = match &req.property {
             PropertyRef::Group(prop_name, group) => {
                 let prop =
@@ -216,6 +239,16 @@ fn projection(
 ) -> Result<Vec<String>> {
     let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
     fields.push(col_name(ctx, &req.property, md)?);
+    if let Some(event) = &req.event {
+        for filter in custom_event_filters(ctx, md, event)? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
+                }
+            }
+        }
+    }
+    fields.sort();
     fields.dedup();
     Ok(fields)
 }
-- 
2.43.0


From c12d6f59b3df2c5fb0cdd9344dc705eea663d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 077/113] fix: queries read rows of the requested project only

---
 src/query/src/event_records.rs      | 17 +++++++++--------
 src/query/src/event_segmentation.rs | 18 +++++-------------
 src/query/src/expr.rs               | 14 ++++++++++++++
 src/query/src/funnel.rs             |  2 ++
 4 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index dfceab2..7cae552 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -47,6 +47,7 @@ use crate::execute;
 use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
+use crate::expr::project_plan;
 use crate::expr::time_expression;
 use crate::fix_filter;
 use crate::initial_plan;
@@ -238,6 +239,8 @@ pub fn build_search_plan(
         })
         .collect::<Vec<_>>();
 
+    // dictionaries are per project
+    let input = project_plan(&ctx, input)?;
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = decode_filter_dictionaries(
         &ctx,
@@ -248,14 +251,12 @@ pub fn build_search_plan(
         &mut cols_hash,
     )?;
 
-    let mut filter_exprs = vec![
-        binary_expr(
-            col(COLUMN_PROJECT_ID),
-            Operator::Eq,
-            lit(ScalarValue::from(ctx.project_id as i64)),
-        ),
-        time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?,
-    ];
+    let mut filter_exprs = vec![time_expression(
+        COLUMN_CREATED_AT,
+        input.schema(),
+        &req.time,
+        ctx.cur_time,
+    )?];
 
     if let Some(events) = &req.events
         && !events.is_empty()
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 63c73c7..4744bdf 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -21,8 +21,6 @@ use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
 use datafusion::functions::datetime::date_trunc::DateTruncFunc;
 use datafusion_common::Column;
-use datafusion_common::ScalarValue;
-use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr::Alias;
 use datafusion_expr::expr::ScalarFunction;
@@ -33,7 +31,6 @@ use datafusion_expr::ExprSchemable;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter;
 use datafusion_expr::LogicalPlan;
-use datafusion_expr::Operator;
 use datafusion_expr::ScalarUDF;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
@@ -55,6 +52,7 @@ use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
 use crate::expr::property_col;
 use crate::expr::property_expression;
+use crate::expr::project_plan;
 use crate::expr::time_expression;
 use crate::fix_filter;
 use crate::initial_plan;
@@ -262,6 +260,8 @@ impl LogicalPlanBuilder {
             es: es.clone(),
         };
 
+        // dictionaries and groups are per project
+        let input = project_plan(&ctx, input)?;
         let segment_inputs = if let Some(segments) = es.segments.clone() {
             let mut inputs = Vec::new();
             for segment in segments {
@@ -725,16 +725,8 @@ impl LogicalPlanBuilder {
     /// builds filter plan
     fn build_filter_logical_plan(&self, input: LogicalPlan, event: &Event) -> Result<LogicalPlan> {
         let cur_time = self.ctx.cur_time;
-        // todo add project_id filtering
-        let mut expr = binary_expr(
-            col(COLUMN_PROJECT_ID),
-            Operator::Eq,
-            lit(ScalarValue::from(self.ctx.project_id as i64)),
-        );
-        expr = and(
-            expr,
-            time_expression(COLUMN_CREATED_AT, input.schema(), &self.es.time, cur_time)?,
-        );
+        let mut expr =
+            time_expression(COLUMN_CREATED_AT, input.schema(), &self.es.time, cur_time)?;
 
         // event expression
         expr = and(
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index db5fcf4..b0c013d 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -11,6 +11,7 @@ use common::query::PropValueOperation;
 use common::query::PropertyRef;
 use common::query::QueryTime;
 use common::types::COLUMN_EVENT;
+use common::types::COLUMN_PROJECT_ID;
 use common::types::TABLE_EVENTS;
 use datafusion_common::Column;
 use datafusion_common::ExprSchema;
@@ -22,6 +23,8 @@ use datafusion_expr::lit;
 use datafusion_expr::or;
 use datafusion_expr::Expr;
 use datafusion_expr::ExprSchemable;
+use datafusion_expr::Filter;
+use datafusion_expr::LogicalPlan;
 use datafusion_expr::Operator;
 use metadata::dictionaries::Dictionaries;
 use metadata::error::MetadataError;
@@ -58,6 +61,17 @@ pub fn time_expression<S: ExprSchema>(
     Ok(and(from_expr, to_expr))
 }
 
+/// leaves only rows of the project
+pub fn project_plan(ctx: &Context, input: LogicalPlan) -> Result<LogicalPlan> {
+    let expr = binary_expr(
+        col(COLUMN_PROJECT_ID),
+        Operator::Eq,
+        lit(ScalarValue::from(ctx.project_id as i64)),
+    );
+
+    Ok(LogicalPlan::Filter(Filter::try_new(expr, Arc::new(input))?))
+}
+
 /// builds expression for event
 pub fn event_expression<S: ExprSchema>(
     ctx: &Context,
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 816ca12..4342916 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -56,6 +56,7 @@ use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::event_filters_expression;
 use crate::expr::property_col;
+use crate::expr::project_plan;
 use crate::expr::time_expression;
 use crate::fix_filter;
 use crate::initial_plan;
@@ -256,6 +257,7 @@ pub fn build(
     req: Funnel,
 ) -> Result<LogicalPlan> {
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
+    let input = project_plan(&ctx, input)?;
     let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
-- 
2.43.0


From cbb9d67e14167afcb0324f0505167a2308e049ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 078/113] fix: a negative filter with several values excludes
 each of them

---
 src/query/src/expr.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index b0c013d..a506176 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -398,7 +398,11 @@ pub fn named_property_expression(
                         })
                         .collect();
 
-                    multi_or(exprs)
+                    match operation {
+                        // none of the values
+                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
+                        _ => multi_or(exprs),
+                    }
                 }
             })
         }
@@ -424,7 +428,7 @@ pub fn named_property_expression(
             })
         }
         PropValueOperation::NotLike => {
-            // expressions for OR
+            // expressions for AND
             let values_vec = values.ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
@@ -440,7 +444,7 @@ pub fn named_property_expression(
                         .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
                         .collect();
 
-                    multi_or(exprs)
+                    multi_and(exprs)
                 }
             })
         }
-- 
2.43.0


From e7f2f47170a83300ca3f57a020f57aa266cb6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 079/113] fix: an event referenced by id is compared as it is
 stored

---
 src/query/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index a506176..36f1f3d 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -92,7 +92,7 @@ pub fn event_expression<S: ExprSchema>(
         EventRef::Regular(id) => binary_expr(
             col(COLUMN_EVENT),
             Operator::Eq,
-            lit(ScalarValue::from(*id as u16)),
+            lit(ScalarValue::from(*id as i64)),
         ),
 
         EventRef::Custom(id) => {
-- 
2.43.0


From 7f2d10474b88444f4f8d05359c44c23b61f19639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 080/113] fix: a query may have no filter groups

---
 src/platform/src/event_records.rs      |  6 +++---
 src/platform/src/event_segmentation.rs |  6 +++---
 src/platform/src/funnel.rs             | 15 +++++++++------
 src/platform/src/group_records.rs      |  6 +++---
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 4eed8b4..9fdc173 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -177,12 +177,12 @@ impl Into<event_records::EventRecordsSearchRequest> for EventRecordsSearchReques
             filters: self.filters.map_or_else(
                 || None,
                 |v| {
-                    if v.groups[0].filters.is_empty() {
+                    let filters = &v.groups.first()?.filters;
+                    if filters.is_empty() {
                         None
                     } else {
                         Some(
-                            v.groups[0]
-                                .filters
+                            filters
                                 .iter()
                                 .map(|v| v.to_owned().into())
                                 .collect::<Vec<_>>(),
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 095dfd0..628f0fb 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -467,12 +467,12 @@ impl Into<common::event_segmentation::EventSegmentationRequest> for EventSegment
             filters: self.filters.map_or_else(
                 || None,
                 |v| {
-                    if v.groups[0].filters.is_empty() {
+                    let filters = &v.groups.first()?.filters;
+                    if filters.is_empty() {
                         None
                     } else {
                         Some(
-                            v.groups[0]
-                                .filters
+                            filters
                                 .iter()
                                 .map(|v| v.to_owned().into())
                                 .collect::<Vec<_>>(),
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 5a64fe5..203df8e 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -745,12 +745,15 @@ impl Into<common::funnel::Funnel> for FunnelRequest {
             segments: self
                 .segments
                 .map(|s| s.iter().map(|s| s.to_owned().into()).collect::<Vec<_>>()),
-            filters: self.filters.map(|v| {
-                v.groups[0]
-                    .filters
-                    .iter()
-                    .map(|f| f.to_owned().into())
-                    .collect::<Vec<_>>()
+            filters: self.filters.and_then(|v| {
+                let group = v.groups.first()?;
+                Some(
+                    group
+                        .filters
+                        .iter()
+                        .map(|f| f.to_owned().into())
+                        .collect::<Vec<_>>(),
+                )
             }),
         }
     }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 4b3ddc2..6a0e0eb 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -116,12 +116,12 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
             filters: self.filters.map_or_else(
                 || None,
                 |v| {
-                    if v.groups[0].filters.is_empty() {
+                    let filters = &v.groups.first()?.filters;
+                    if filters.is_empty() {
                         None
                     } else {
                         Some(
-                            v.groups[0]
-                                .filters
+                            filters
                                 .iter()
                                 .map(|v| v.to_owned().into())
                                 .collect::<Vec<_>>(),
-- 
2.43.0


From db285371bd0f19f7e34dc9ee1e233f969202f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 081/113] fix: a property may be used more than once in a query

---
 src/query/src/event_segmentation.rs |  5 ++---
 src/query/src/funnel.rs             |  4 ++--
 src/query/src/lib.rs                | 15 +++++++++++++--
 src/query/src/properties.rs         |  6 +++---
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 4744bdf..fde2309 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -76,6 +76,7 @@ use crate::logical_plan::unpivot::UnpivotNode;
 use crate::logical_plan::SortField;
 use crate::segment_plan;
 use crate::segment_projection;
+use crate::unique;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -234,9 +235,7 @@ fn projection(
         }
     }
 
-    fields.dedup();
-
-    Ok(fields)
+    Ok(unique(fields))
 }
 
 pub struct LogicalPlanBuilder {
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4342916..200cef3 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -65,6 +65,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::funnel::FunnelNode;
 use crate::logical_plan::SortField;
+use crate::unique;
 use crate::Context;
 
 pub struct FunnelProvider {
@@ -524,8 +525,7 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
         }
     }
 
-    fields.dedup();
-    Ok(fields)
+    Ok(unique(fields))
 }
 
 pub fn fix_request(
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 370e039..e957121 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -539,9 +539,20 @@ fn segment_projection(
             }
         }
     }
-    fields.dedup();
 
-    Ok(fields)
+    Ok(unique(fields))
+}
+
+/// names without repetitions, in order of appearance
+pub(crate) fn unique(names: Vec<String>) -> Vec<String> {
+    let mut res: Vec<String> = Vec::with_capacity(names.len());
+    for name in names {
+        if !res.contains(&name) {
+            res.push(name);
+        }
+    }
+
+    res
 }
 
 pub fn col_name(ctx: &Context, prop: &PropertyRef, md: &Arc<MetadataProvider>) -> Result<String> {
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index b4a265b..2e33249 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -49,6 +49,7 @@ use crate::expr::event_expression;
 use crate::expr::property_expression;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
+use crate::unique;
 use crate::Context;
 
 pub struct PropertiesProvider {
@@ -248,7 +249,6 @@ fn projection(
             }
         }
     }
-    fields.sort();
-    fields.dedup();
-    Ok(fields)
+
+    Ok(unique(fields))
 }
-- 
2.43.0


From a4f4b40223ba65e075b876f169009b179261901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 082/113] fix: a property without a column is an error of a
 query, not a panic

---
 src/platform/src/event_segmentation.rs |  1 -
 src/query/src/event_records.rs         |  7 ++++---
 src/query/src/event_segmentation.rs    | 10 +++++-----
 src/query/src/funnel.rs                |  6 +++---
 src/query/src/group_records.rs         |  7 +++----
 src/query/src/properties.rs            |  5 +++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 628f0fb..18cbafa 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -57,7 +57,6 @@ impl EventSegmentation {
         validate_request(&self.md, project_id, &req)?;
         let lreq = req.into();
         let lreq = fix_request(&self.md, project_id, lreq)?;
-        dbg!(&lreq);
 
         let cur_time = match query.timestamp {
             None => Utc::now(),
diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 7cae552..723f014 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::result;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -78,7 +79,6 @@ impl EventRecordsProvider {
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, id)?;
-        println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let elapsed = start.elapsed();
         histogram!(METRIC_QUERY_EXECUTION_TIME_SECONDS, "query"=>"event_records_get_by_id")
@@ -134,7 +134,9 @@ impl EventRecordsProvider {
         let schema = self.db.schema1(TABLE_EVENTS)?;
         let mut proj = if req.properties.is_some() {
             let p = projection(&ctx, &req, &self.metadata)?;
-            p.iter().map(|x| schema.index_of(x).unwrap()).collect()
+            p.iter()
+                .map(|x| schema.index_of(x))
+                .collect::<result::Result<Vec<_>, _>>()?
         } else {
             (0..schema.fields.len()).collect::<Vec<_>>()
         };
@@ -143,7 +145,6 @@ impl EventRecordsProvider {
         // todo make tests for schema evolution: add property here. Move initial plan behind build_search_plan
         let (session_ctx, state, plan) = initial_plan(&self.db, TABLE_EVENTS.to_string(), proj)?;
         let (plan, props) = build_search_plan(ctx, self.metadata.clone(), plan, req.clone())?;
-        println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
         debug!("elapsed: {:?}", duration);
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index fde2309..40b2102 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::result;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -103,8 +104,8 @@ impl EventSegmentationProvider {
         let projection = projection(&ctx, &req, &self.metadata)?;
         let projection = projection
             .iter()
-            .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .map(|x| schema.index_of(x))
+            .collect::<result::Result<_, _>>()?;
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let _segment_plan = if let Some(segments) = &req.segments {
@@ -112,8 +113,8 @@ impl EventSegmentationProvider {
                 segment_projection(&ctx, segments, req.group_id, &self.metadata)?;
             let segment_projection = segment_projection
                 .iter()
-                .map(|x| schema.index_of(x).unwrap())
-                .collect();
+                .map(|x| schema.index_of(x))
+                .collect::<result::Result<_, _>>()?;
             Some(segment_plan(
                 &self.db,
                 TABLE_EVENTS.to_string(),
@@ -126,7 +127,6 @@ impl EventSegmentationProvider {
         let plan =
             LogicalPlanBuilder::build(ctx.clone(), self.metadata.clone(), plan, req.clone())?;
 
-        println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         histogram!(METRIC_QUERY_EXECUTION_TIME_SECONDS, "query"=>"event_segmentation")
             .record(start.elapsed().as_millis() as f64);
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 200cef3..3885933 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::result;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -84,14 +85,13 @@ impl FunnelProvider {
         let projection = projection(&ctx, &req, &self.metadata)?;
         let projection = projection
             .iter()
-            .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .map(|x| schema.index_of(x))
+            .collect::<result::Result<_, _>>()?;
 
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = build(ctx.clone(), self.metadata.clone(), plan, req.clone())?;
 
-        println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
         let elapsed = start.elapsed();
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index a8da732..f9e5a7e 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::result;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -88,7 +89,6 @@ impl GroupRecordsProvider {
 
         let (session_ctx, state, plan) = initial_plan(&self.db, group_col(group_id), projection)?;
         let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
-        println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
         debug!("elapsed: {:?}", duration);
@@ -173,8 +173,8 @@ impl GroupRecordsProvider {
             let projection = projection(&ctx, &req, &self.metadata)?;
             projection
                 .iter()
-                .map(|x| schema.index_of(x).unwrap())
-                .collect()
+                .map(|x| schema.index_of(x))
+                .collect::<result::Result<_, _>>()?
         } else {
             (0..schema.fields.len()).collect::<Vec<_>>()
         };
@@ -183,7 +183,6 @@ impl GroupRecordsProvider {
         let (session_ctx, state, plan) =
             initial_plan(&self.db, group_col(req.group_id), projection)?;
         let (plan, props) = build_search_plan(ctx, self.metadata.clone(), plan, req.clone())?;
-        println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
 
         let duration = start.elapsed();
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 2e33249..40d06f2 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::result;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -68,8 +69,8 @@ impl PropertiesProvider {
         let projection = projection(&ctx, &req, &self.metadata)?;
         let projection = projection
             .iter()
-            .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .map(|x| schema.index_of(x))
+            .collect::<result::Result<_, _>>()?;
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = LogicalPlanBuilder::build(ctx, self.metadata.clone(), plan, req.clone())?;
-- 
2.43.0


From 83fce15c87a66b442a2effd8654cad28caa42100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 083/113] fix: a group that does not exist is a bad request,
 not a panic

---
 src/platform/src/event_records.rs |  3 ++-
 src/platform/src/group_records.rs |  3 ++-
 src/platform/src/lib.rs           | 13 +++++++++++--
 src/platform/src/properties.rs    |  3 ++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 9fdc173..b50aa34 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -10,6 +10,7 @@ use query::event_records::fix_search_request;
 use serde::Deserialize;
 use serde::Serialize;
 
+use crate::group_properties;
 use crate::scalar_to_json;
 use crate::validate_event;
 use crate::validate_event_filter;
@@ -267,7 +268,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 6a0e0eb..191078b 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -13,6 +13,7 @@ use serde::Deserialize;
 use serde::Serialize;
 use serde_json::Value;
 
+use crate::group_properties;
 use crate::validate_event_filter;
 use crate::Context;
 use crate::EventGroupedFilters;
@@ -187,7 +188,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index d5e934b..c58b7ba 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1407,7 +1407,7 @@ pub fn validate_event_property(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
         }
@@ -1425,6 +1425,15 @@ pub fn validate_event_property(
     Ok(())
 }
 
+pub(crate) fn group_properties(
+    md: &Arc<MetadataProvider>,
+    group: usize,
+) -> crate::Result<&Arc<metadata::properties::Properties>> {
+    md.group_properties
+        .get(group)
+        .ok_or_else(|| PlatformError::BadRequest(format!("group {group} is out of range")))
+}
+
 pub fn validate_event_filter_property(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -1437,7 +1446,7 @@ pub fn validate_event_filter_property(
         PropertyRef::Group {
             property_name,
             group,
-        } => md.group_properties[*group]
+        } => group_properties(md, *group)?
             .get_by_name(project_id, property_name)
             .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?,
         PropertyRef::Event { property_name } => md
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 4b56e2f..3090e64 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -14,6 +14,7 @@ use serde::Deserialize;
 use serde::Serialize;
 use serde_json::Value;
 
+use crate::group_properties;
 use crate::array_ref_to_json_values;
 use crate::json_value_to_scalar;
 use crate::validate_event_filter_property;
@@ -398,7 +399,7 @@ pub(crate) fn validate_request(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err}")))?;
         }
-- 
2.43.0


From 583ff4aa5767ff5bbe9522bbda2619d271e3f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 084/113] fix: a filter may have a null value

---
 src/platform/src/lib.rs | 2 ++
 src/query/src/expr.rs   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index c58b7ba..1dbe6d6 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -314,12 +314,14 @@ pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
             ScalarValue::Decimal128(Some(dec.mantissa()), DECIMAL_PRECISION, dec.scale() as i8)
         }
         Value::String(v) => ScalarValue::Utf8(Some(v.to_string())),
+        Value::Null => ScalarValue::Null,
         _ => unreachable!("unexpected value"),
     }
 }
 
 pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
     match v {
+        ScalarValue::Null => Value::Null,
         ScalarValue::Decimal128(None, _, _) => Value::Null,
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 36f1f3d..dec1b39 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -254,6 +254,8 @@ pub fn encode_property_dict_values(
             } else {
                 ret.push(ScalarValue::try_from(DataType::from(dict_type.to_owned()))?);
             }
+        } else if value.is_null() {
+            ret.push(ScalarValue::try_from(DataType::from(dict_type.to_owned()))?);
         } else {
             #[allow(deprecated)]
             return Err(QueryError::Plan(format!(
-- 
2.43.0


From 83349ba9c15bbd3ce58f5c161e50918caa3dfd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 085/113] fix: numbers in filters of a custom event keep their
 scale

---
 src/metadata/src/custom_events.rs | 27 ++++++++++++++++++++++++---
 src/platform/src/lib.rs           | 14 +++++++++++---
 src/query/src/lib.rs              |  5 +++--
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 3a2e73a..4d8f4b2 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -348,6 +348,15 @@ pub struct UpdateCustomEventRequest {
     pub events: OptionalProperty<Vec<Event>>,
 }
 
+// decimals are stored with the scale of DECIMAL_SCALE
+fn to_decimal_scale(v: i128, scale: i8) -> i128 {
+    if scale <= DECIMAL_SCALE {
+        v * 10i128.pow((DECIMAL_SCALE - scale) as u32)
+    } else {
+        v / 10i128.pow((scale - DECIMAL_SCALE) as u32)
+    }
+}
+
 fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
     let status = match v.status {
         Status::Enabled => custom_event::Status::Enabled as i32,
@@ -429,13 +438,25 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         bool: v.map(|v| v as u32),
                                         timestamp: None,
                                     },
-                                    ScalarValue::Decimal128(v, _, _) => custom_event::Value {
+                                    // null
+                                    ScalarValue::Null => custom_event::Value {
+                                        string: None,
+                                        int8: None,
+                                        int16: None,
+                                        int32: None,
+                                        int64: None,
+                                        decimal: None,
+                                        bool: None,
+                                        timestamp: None,
+                                    },
+                                    ScalarValue::Decimal128(v, _, s) => custom_event::Value {
                                         string: None,
                                         int8: None,
                                         int16: None,
                                         int32: None,
                                         int64: None,
-                                        decimal: v.map(|v| v.to_le_bytes().to_vec()),
+                                        decimal: v
+                                            .map(|v| to_decimal_scale(v, *s).to_le_bytes().to_vec()),
                                         bool: None,
                                         timestamp: None,
                                     },
@@ -606,7 +627,7 @@ fn deserialize(data: &[u8]) -> Result<CustomEvent> {
                 } else if let Some(v) = value.timestamp {
                     ScalarValue::TimestampMillisecond(Some(v), None)
                 } else {
-                    unimplemented!()
+                    ScalarValue::Null
                 };
                 vals.push(v);
             }
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 1dbe6d6..fe79887 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -325,9 +325,17 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
         ScalarValue::Decimal128(None, _, _) => Value::Null,
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
-        ScalarValue::Decimal128(Some(v), _p, s) => Value::Number(
-            Number::from_f64(Decimal::new(*v as i64, *s as u32).to_f64().unwrap()).unwrap(),
-        ),
+        ScalarValue::Decimal128(Some(v), _p, s) => {
+            let (mut v, mut s) = (*v, *s);
+            while s > 0 && v % 10 == 0 {
+                v /= 10;
+                s -= 1;
+            }
+            let dec = Decimal::from_i128_with_scale(v, s as u32);
+            Value::Number(Number::from_f64(dec.to_f64().unwrap()).unwrap())
+        }
+        ScalarValue::TimestampMillisecond(None, _) => Value::Null,
+        ScalarValue::TimestampMillisecond(Some(v), _) => json!(v),
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Utf8(Some(v)) => Value::String(v.to_owned()),
         _ => unreachable!("unexpected value"),
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index e957121..c659679 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -599,8 +599,9 @@ pub fn fix_filter(
                 values
                     .iter()
                     .map(|value| match (&prop.data_type, value) {
-                        (DType::Timestamp, ScalarValue::Decimal128(ts, _, _)) => {
-                            ScalarValue::TimestampMillisecond(ts.map(|ts| ts as i64), None)
+                        (DType::Timestamp, ScalarValue::Decimal128(ts, _, scale)) => {
+                            let ts = ts.map(|ts| (ts / 10i128.pow(*scale as u32)) as i64);
+                            ScalarValue::TimestampMillisecond(ts, None)
                         }
                         _ => value.to_owned(),
                     })
-- 
2.43.0


From 8aecae85db02eb3db2503ccd1523f80b4700ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 086/113] fix: breakdowns by booleans and times are limited
 like others

---
 src/query/src/physical_plan/limit_groups.rs | 46 +++++----------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/src/query/src/physical_plan/limit_groups.rs b/src/query/src/physical_plan/limit_groups.rs
index deba152..06822b7 100644
--- a/src/query/src/physical_plan/limit_groups.rs
+++ b/src/query/src/physical_plan/limit_groups.rs
@@ -8,14 +8,13 @@ use std::task::Poll;
 
 use arrow::array::Array;
 use arrow::array::ArrayRef;
-use arrow::array::Decimal128Array;
-use arrow::array::Int64Array;
 use arrow::array::Int64Builder;
 use arrow::array::RecordBatch;
-use arrow::array::StringArray;
 use arrow::compute::take;
-use arrow::datatypes::DataType;
 use arrow::datatypes::SchemaRef;
+use arrow_row::OwnedRow;
+use arrow_row::RowConverter;
+use arrow_row::SortField;
 use async_trait::async_trait;
 use datafusion::execution::RecordBatchStream;
 use datafusion::execution::SendableRecordBatchStream;
@@ -33,13 +32,6 @@ use futures::StreamExt;
 use crate::error::QueryError;
 use crate::Result;
 
-#[derive(Clone, Debug, Hash, PartialEq, Eq)]
-enum Value {
-    Int64(Option<i64>),
-    Decimal(Option<i128>),
-    String(Option<String>),
-}
-
 #[derive(Debug)]
 pub struct LimitGroupsExec {
     input: Arc<dyn ExecutionPlan>,
@@ -149,33 +141,15 @@ impl Stream for AggregateAndSortColumnsStream {
                     .skip(self.skip) // skip segment col
                     .take(self.groups) // get all groups, ignore agg_name
                     .zip(batch.schema().fields().iter().skip(self.skip))
-                    .map(|(col, f)| match f.data_type() {
-                        DataType::Int64 => col
-                            .as_any()
-                            .downcast_ref::<Int64Array>()
-                            .unwrap()
-                            .iter()
-                            .map(Value::Int64)
-                            .collect::<Vec<_>>(),
-                        DataType::Decimal128(_, _) => col
-                            .as_any()
-                            .downcast_ref::<Decimal128Array>()
-                            .unwrap()
-                            .iter()
-                            .map(Value::Decimal)
-                            .collect::<Vec<_>>(),
-                        DataType::Utf8 => col
-                            .as_any()
-                            .downcast_ref::<StringArray>()
-                            .unwrap()
-                            .iter()
-                            .map(|v| Value::String(v.map(|v| v.to_string())))
-                            .collect::<Vec<_>>(),
-                        _ => unimplemented!(),
+                    .map(|(col, f)| {
+                        let mut converter =
+                            RowConverter::new(vec![SortField::new(f.data_type().to_owned())])?;
+                        let rows = converter.convert_columns(&[col.to_owned()])?;
+                        Ok(rows.iter().map(|row| row.owned()).collect::<Vec<_>>())
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<DFResult<Vec<_>>>()?;
 
-                let mut counters: Vec<HashMap<Value, usize>> =
+                let mut counters: Vec<HashMap<OwnedRow, usize>> =
                     vec![HashMap::default(); self.groups];
 
                 let mut to_take = Int64Builder::with_capacity(batch.num_rows());
-- 
2.43.0


From 6dd005e33a1e22d749ae06fe86c7c08577750a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 087/113] fix: average of segmentation columns of any numeric
 type

---
 .../aggregate_and_sort_columns.rs             | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/query/src/physical_plan/aggregate_and_sort_columns.rs b/src/query/src/physical_plan/aggregate_and_sort_columns.rs
index 052679a..6100ab3 100644
--- a/src/query/src/physical_plan/aggregate_and_sort_columns.rs
+++ b/src/query/src/physical_plan/aggregate_and_sort_columns.rs
@@ -10,6 +10,7 @@ use arrow::array::ArrayRef;
 use arrow::array::Decimal128Array;
 use arrow::array::Decimal128Builder;
 use arrow::array::RecordBatch;
+use arrow::compute::cast;
 use arrow::compute::sort_to_indices;
 use arrow::compute::take;
 use arrow::compute::SortOptions;
@@ -150,17 +151,31 @@ impl Stream for AggregateAndSortColumnsStream {
                     .columns()
                     .iter()
                     .skip(self.groups)
-                    .map(|col| col.as_any().downcast_ref::<Decimal128Array>().unwrap())
-                    .collect::<Vec<_>>();
+                    .map(|col| {
+                        // values may be of any numeric type
+                        let col = cast(
+                            col,
+                            &DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE),
+                        )?;
+                        Ok(col
+                            .as_any()
+                            .downcast_ref::<Decimal128Array>()
+                            .unwrap()
+                            .to_owned())
+                    })
+                    .collect::<DFResult<Vec<_>>>()?;
 
                 for row_id in 0..batch.num_rows() {
                     let mut v = 0;
                     let mut c = 0;
                     for arr in &arrs {
-                        v += arr.value(row_id);
+                        // missing value counts as zero
+                        if arr.is_valid(row_id) {
+                            v += arr.value(row_id);
+                        }
                         c += 1;
                     }
-                    res.append_value(v / c);
+                    res.append_value(if c == 0 { 0 } else { v / c });
                 }
                 let avg = res
                     .finish()
-- 
2.43.0


From a696fe1eb1993be6b2ca94f93fb1b8ea07368b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 088/113] fix: a compact segmentation is not aggregated by
 columns it does not have

---
 src/query/src/event_segmentation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 40b2102..c7ffe23 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -703,6 +703,11 @@ impl LogicalPlanBuilder {
             });
         }
 
+        // compact result isn't pivoted, so there are no columns to aggregate
+        if self.ctx.format == Format::Compact {
+            return Ok(input);
+        }
+
         input = LogicalPlan::Extension(Extension {
             node: Arc::new(AggregateAndSortColumnsNode::try_new(
                 input,
-- 
2.43.0


From c7238c76f42ae3d6078e1b298631b11375b91a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 089/113] fix: aggregates of a segmentation do not see zeros of
 other aggregates

---
 .../src/physical_plan/segmented_aggregate.rs  | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index d505d7d..fd630dd 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -24,8 +24,6 @@ use arrow::record_batch::RecordBatch;
 use arrow_row::SortField;
 use axum::async_trait;
 use common::types::COLUMN_PROJECT_ID;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::expressions::col;
 use datafusion::physical_expr::expressions::Column;
@@ -483,23 +481,8 @@ impl Stream for PartialAggregateStream {
                         |field| match batch.schema().index_of(field.name().as_str()) {
                             Ok(col_idx) => Ok(batch.column(col_idx).clone()),
                             Err(_) => {
-                                let v = match field.data_type() {
-                                    DataType::Int8 => ScalarValue::Int8(Some(0)),
-                                    DataType::Int16 => ScalarValue::Int16(Some(0)),
-                                    DataType::Int32 => ScalarValue::Int32(Some(0)),
-                                    DataType::Int64 => ScalarValue::Int64(Some(0)),
-                                    DataType::UInt8 => ScalarValue::UInt8(Some(0)),
-                                    DataType::UInt16 => ScalarValue::UInt16(Some(0)),
-                                    DataType::UInt32 => ScalarValue::UInt32(Some(0)),
-                                    DataType::UInt64 => ScalarValue::UInt64(Some(0)),
-                                    DataType::Decimal128(_, _) => ScalarValue::Decimal128(
-                                        Some(0),
-                                        DECIMAL_PRECISION,
-                                        DECIMAL_SCALE,
-                                    ),
-                                    DataType::Float64 => ScalarValue::Float64(Some(0.)),
-                                    _ => unimplemented!("{:?}", field.data_type()),
-                                };
+                                // null, because 0 is a value like any other for min and avg
+                                let v = ScalarValue::try_from(field.data_type())?;
                                 Ok(v.to_array_of_size(batch.column(0).len())?)
                             }
                         },
-- 
2.43.0


From 8268461809fb7c0f48b3607b9177bf1730b73298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 090/113] fix: events without the group of a query are in none
 of its groups

---
 .../expressions/aggregate/count.rs            | 16 ++------
 .../expressions/aggregate/mod.rs              | 16 ++------
 .../aggregate/partitioned/aggregate.rs        | 19 ++-------
 .../aggregate/partitioned/count.rs            | 41 +++++--------------
 .../src/physical_plan/segmented_aggregate.rs  |  5 +--
 5 files changed, 23 insertions(+), 74 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/count.rs b/src/query/src/physical_plan/expressions/aggregate/count.rs
index de99a9a..fa89973 100644
--- a/src/query/src/physical_plan/expressions/aggregate/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/count.rs
@@ -149,21 +149,11 @@ macro_rules! count {
                     .unwrap()
                     .clone();
 
-                let mut skip_partition = 0;
-                let mut skip = false;
                 for (row_id, val) in predicate.into_iter().enumerate() {
-                    if skip {
-                        if partitions.value(row_id) == skip_partition {
-                            continue;
-                        } else {
-                            skip = false;
-                        }
-                    }
                     if let Some(exists) = partition_exist {
-                        let pid = partitions.value(row_id);
-                        if !exists.contains_key(&pid) {
-                            skip = true;
-                            skip_partition = pid;
+                        if partitions.is_null(row_id)
+                            || !exists.contains_key(&partitions.value(row_id))
+                        {
                             continue;
                         }
                     }
diff --git a/src/query/src/physical_plan/expressions/aggregate/mod.rs b/src/query/src/physical_plan/expressions/aggregate/mod.rs
index 15367a9..e206ecb 100644
--- a/src/query/src/physical_plan/expressions/aggregate/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/mod.rs
@@ -237,21 +237,11 @@ macro_rules! agg {
                     .downcast_ref::<Int64Array>()
                     .unwrap()
                     .clone();
-                let mut skip_partition = 0;
-                let mut skip = false;
                 for (row_id, val) in predicate.into_iter().enumerate() {
-                    if skip {
-                        if partitions.value(row_id) == skip_partition {
-                            continue;
-                        } else {
-                            skip = false;
-                        }
-                    }
                     if let Some(exists) = partition_exist {
-                        let pid = partitions.value(row_id);
-                        if !exists.contains_key(&pid) {
-                            skip = true;
-                            skip_partition = pid;
+                        if partitions.is_null(row_id)
+                            || !exists.contains_key(&partitions.value(row_id))
+                        {
                             continue;
                         }
                     }
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..56839af 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -94,8 +94,6 @@ where
     groups: Option<Groups<Group<IT, OT>>>,
     single_group: Group<IT, OT>,
     partition_col: Column,
-    skip: bool,
-    skip_partition: i64,
     t: PhantomData<T>,
 }
 
@@ -122,8 +120,6 @@ where
             groups: Groups::maybe_from(groups)?,
             single_group: Group::new(inner_fn, outer_fn),
             partition_col,
-            skip: false,
-            skip_partition: 0,
             t: Default::default(),
         })
     }
@@ -205,17 +201,12 @@ macro_rules! agg {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
-                    if self.skip {
-                        if self.skip_partition != partition {
-                            self.skip = false;
-                        } else {
-                            continue;
-                        }
-                    }
+                    // the row doesn't belong to any of the partitions
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if let Some(exists) = partition_exist {
                         if !exists.contains_key(&partition) {
-                            self.skip = true;
                             continue;
                         }
                     }
@@ -305,8 +296,6 @@ macro_rules! agg {
                     outer_fn: self.outer_fn.make_new(),
                     groups,
                     partition_col: self.partition_col.clone(),
-                    skip: false,
-                    skip_partition: 0,
                     single_group: Group::new(self.inner_fn.make_new(), self.outer_fn.make_new()),
                     t: Default::default(),
                 };
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index 675796f..c04d7ff 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -64,8 +64,6 @@ where T: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display
     groups: Option<Groups<Group<T>>>,
     single_group: Group<T>,
     partition_col: Column,
-    skip: bool,
-    skip_partition: i64,
     distinct: bool,
 }
 
@@ -85,8 +83,6 @@ where T: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display
             groups: Groups::maybe_from(groups)?,
             single_group: Group::new(outer_fn),
             partition_col,
-            skip: false,
-            skip_partition: 0,
             distinct,
         })
     }
@@ -159,17 +155,12 @@ macro_rules! count {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
-                    if self.skip {
-                        if self.skip_partition != partition {
-                            self.skip = false;
-                        } else {
-                            continue;
-                        }
-                    }
+                    // the row doesn't belong to any of the partitions
+                    let Some(partition) = partition else {
+                        continue;
+                    };
                     if let Some(exists) = partition_exist {
                         if !exists.contains_key(&partition) {
-                            self.skip = true;
                             continue;
                         }
                     }
@@ -207,7 +198,6 @@ macro_rules! count {
 
                     if self.distinct {
                         bucket.count = 1;
-                        self.skip = true;
                         // bucket.hll.add(partition)
                     } else {
                         bucket.count += 1;
@@ -258,8 +248,6 @@ macro_rules! count {
                     outer_fn: self.outer_fn.make_new(),
                     groups,
                     partition_col: self.partition_col.clone(),
-                    skip: false,
-                    skip_partition: 0,
                     single_group: Group::new(self.outer_fn.make_new()),
                     distinct: self.distinct.clone(),
                 };
@@ -354,17 +342,12 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             .clone();
 
         for (row_id, partition) in partitions.into_iter().enumerate() {
-            let partition = partition.unwrap();
-            if self.skip {
-                if self.skip_partition != partition {
-                    self.skip = false;
-                } else {
-                    continue;
-                }
-            }
+            // the row doesn't belong to any of the partitions
+            let Some(partition) = partition else {
+                continue;
+            };
             if let Some(exists) = partition_exist {
                 if !exists.contains_key(&partition) {
-                    self.skip = true;
                     continue;
                 }
             }
@@ -398,10 +381,10 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
 
                 bucket.count = 0;
             }
-            bucket.count += 1;
             if self.distinct {
-                self.skip = true;
-                continue;
+                bucket.count = 1;
+            } else {
+                bucket.count += 1;
             }
         }
 
@@ -451,8 +434,6 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             outer_fn: self.outer_fn.make_new(),
             groups,
             partition_col: self.partition_col.clone(),
-            skip: false,
-            skip_partition: 0,
             single_group: Group::new(self.outer_fn.make_new()),
             distinct: self.distinct,
         };
diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index fd630dd..da9a159 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -377,9 +377,8 @@ impl Stream for PartialAggregateStream {
                                     .unwrap()
                                     .clone();
 
-                                for val in vals.iter() {
-                                    self.segment_partitions.borrow_mut()[id]
-                                        .insert(val.unwrap(), ());
+                                for val in vals.iter().flatten() {
+                                    self.segment_partitions.borrow_mut()[id].insert(val, ());
                                 }
                             }
                             Poll::Ready(None) => break,
-- 
2.43.0


From 6824ca792761dd0059b2fdb6a7e68d5fcb7c9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 091/113] fix: properties an event lacks are not aggregated as
 zeros

---
 .../aggregate/partitioned/aggregate.rs        | 59 +++++++++++++------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index 56839af..5bf1ab9 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -61,6 +61,9 @@ where
     inner_fn: AggregateFunction<IT>,
     outer_fn: AggregateFunction<OT>,
     first: bool,
+    // whether inner_fn and outer_fn have accumulated any values
+    inner_any: bool,
+    outer_any: bool,
     last_partition: i64,
 }
 
@@ -74,6 +77,8 @@ where
             inner_fn,
             outer_fn,
             first: true,
+            inner_any: false,
+            outer_any: false,
             last_partition: 0,
         }
     }
@@ -236,18 +241,25 @@ macro_rules! agg {
                     }
 
                     if bucket.last_partition != partition {
-                        let v = bucket.inner_fn.result();
-                        // for float multiply will be 1., which will be optimized in release mode
-                        bucket
-                            .outer_fn
-                            .accumulate(v as $outer_acc_ty * $mul as $outer_acc_ty);
+                        if bucket.inner_any {
+                            let v = bucket.inner_fn.result();
+                            // for float multiply will be 1., which will be optimized in release mode
+                            bucket
+                                .outer_fn
+                                .accumulate(v as $outer_acc_ty * $mul as $outer_acc_ty);
+                            bucket.outer_any = true;
+                        }
                         bucket.last_partition = partition;
 
                         bucket.inner_fn.reset();
+                        bucket.inner_any = false;
+                    }
+                    if predicate.is_valid(row_id) {
+                        bucket
+                            .inner_fn
+                            .accumulate(predicate.value(row_id) as $inner_acc_ty);
+                        bucket.inner_any = true;
                     }
-                    bucket
-                        .inner_fn
-                        .accumulate(predicate.value(row_id) as $inner_acc_ty);
                 }
 
                 Ok(())
@@ -259,11 +271,17 @@ macro_rules! agg {
                     let mut res_col_b = $b::with_capacity(groups.groups.len());
                     for (row, group) in groups.groups.iter_mut() {
                         rows.push(row.row());
-                        group
-                            .outer_fn
-                            .accumulate(group.inner_fn.result() as $outer_acc_ty * $mul);
-                        let res = group.outer_fn.result();
-                        res_col_b.append_value(res);
+                        if group.inner_any {
+                            group
+                                .outer_fn
+                                .accumulate(group.inner_fn.result() as $outer_acc_ty * $mul);
+                            group.outer_any = true;
+                        }
+                        if group.outer_any {
+                            res_col_b.append_value(group.outer_fn.result());
+                        } else {
+                            res_col_b.append_null();
+                        }
                     }
 
                     let group_col = groups.row_converter.convert_rows(rows)?;
@@ -272,10 +290,17 @@ macro_rules! agg {
                     Ok(vec![group_col, vec![res_col]].concat())
                 } else {
                     let mut res_col_b = $b::with_capacity(1);
-                    self.single_group
-                        .outer_fn
-                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty);
-                    res_col_b.append_value(self.single_group.outer_fn.result());
+                    if self.single_group.inner_any {
+                        self.single_group
+                            .outer_fn
+                            .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty * $mul);
+                        self.single_group.outer_any = true;
+                    }
+                    if self.single_group.outer_any {
+                        res_col_b.append_value(self.single_group.outer_fn.result());
+                    } else {
+                        res_col_b.append_null();
+                    }
                     let res_col = res_col_b.finish();
                     let res_col = Arc::new(res_col) as ArrayRef;
                     Ok(vec![res_col])
-- 
2.43.0


From 9be01b1fdc73a01cb19c8351f9fc9401e9e74aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 092/113] fix: average is not an average of averages of
 partitions

---
 src/query/src/physical_plan/segmented_aggregate.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index da9a159..88046f1 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -241,6 +241,14 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
     }
 
     fn required_input_distribution(&self) -> Vec<Distribution> {
+        // average can't be combined from averages of partitions
+        if self
+            .agg_expr
+            .iter()
+            .any(|(agg, _)| agg.lock().unwrap().op() == "avg")
+        {
+            return vec![Distribution::SinglePartition];
+        }
         // todo make it configurable, don't use project_id and user_id entities
         vec![Distribution::HashPartitioned(vec![
             Arc::new(Column::new_with_schema("project_id", &self.input.schema()).unwrap()),
-- 
2.43.0


From 20abd9e7e84ed6389025f08cbe15dd8681060462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 093/113] fix: an aggregate may have no value

---
 src/query/src/logical_plan/unpivot.rs  | 2 +-
 src/query/src/physical_plan/unpivot.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/logical_plan/unpivot.rs b/src/query/src/logical_plan/unpivot.rs
index 706273a..e9cabd1 100644
--- a/src/query/src/logical_plan/unpivot.rs
+++ b/src/query/src/logical_plan/unpivot.rs
@@ -49,7 +49,7 @@ impl UnpivotNode {
 
             let name_field = Arc::new(Field::new(name_col.as_str(), DataType::Utf8, false));
             fields.push(name_field);
-            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, false));
+            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, true));
             fields.push(value_field);
 
             Arc::new(DFSchema::from_unqualifed_fields(
diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 490af00..0b4477c 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -111,7 +111,7 @@ impl UnpivotExec {
 
             let name_field = Field::new(name_col.as_str(), DataType::Utf8, false);
             fields.push(FieldRef::new(name_field));
-            let value_field = Field::new(value_col.as_str(), value_type, false);
+            let value_field = Field::new(value_col.as_str(), value_type, true);
             fields.push(FieldRef::new(value_field));
 
             Arc::new(Schema::new(fields))
-- 
2.43.0


From 2e8db93f621266d53a8708aa9f47b1bbb3c176fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 094/113] fix: groups of a pivot are told apart by values, not
 by hashes

---
 src/query/src/physical_plan/pivot.rs | 29 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/query/src/physical_plan/pivot.rs b/src/query/src/physical_plan/pivot.rs
index 2a2b363..7fd2b6a 100644
--- a/src/query/src/physical_plan/pivot.rs
+++ b/src/query/src/physical_plan/pivot.rs
@@ -5,7 +5,6 @@ use std::sync::Arc;
 use std::task::Context;
 use std::task::Poll;
 
-use ahash::RandomState;
 use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::StringArray;
@@ -15,11 +14,13 @@ use arrow::datatypes::Schema;
 use arrow::datatypes::SchemaRef;
 use arrow::error::Result as ArrowResult;
 use arrow::record_batch::RecordBatch;
+use arrow_row::OwnedRow;
+use arrow_row::RowConverter;
+use arrow_row::SortField;
 use axum::async_trait;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::EquivalenceProperties;
 use datafusion::physical_plan::expressions::Column;
-use datafusion::physical_plan::hash_utils::create_hashes;
 use datafusion::physical_plan::metrics::BaselineMetrics;
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::metrics::MetricsSet;
@@ -205,8 +206,8 @@ struct PivotStream {
     name_col: Column,
     value_col: Column,
     value_type: DataType,
-    group_map: FnvHashMap<u64, u32>,
-    unique_groups: Vec<(u64, Vec<ScalarValue>)>,
+    group_map: FnvHashMap<OwnedRow, u32>,
+    unique_groups: Vec<Vec<ScalarValue>>,
     result_map: FnvHashMap<String, Vec<ScalarValue>>,
     finished: bool,
     baseline_metrics: BaselineMetrics,
@@ -247,9 +248,6 @@ impl RecordBatchStream for PivotStream {
 
 impl PivotStream {
     fn pivot_batch(&mut self, batch: &RecordBatch) -> ArrowResult<()> {
-        let random_state = RandomState::with_seeds(0, 0, 0, 0);
-        let mut batch_hashes = vec![0; batch.num_rows()];
-
         let c = arrow::compute::cast(batch.column(self.name_col.index()), &DataType::Utf8)?;
         let name_arr = c
             .as_any()
@@ -262,15 +260,22 @@ impl PivotStream {
             .iter()
             .map(|col| batch.column(col.index()).clone())
             .collect();
-        create_hashes(&group_arrs, &random_state, &mut batch_hashes)?;
+        // groups are compared by values, hashes of different groups may be equal
+        let converter = RowConverter::new(
+            group_arrs
+                .iter()
+                .map(|arr| SortField::new(arr.data_type().to_owned()))
+                .collect(),
+        )?;
+        let group_rows = converter.convert_columns(&group_arrs)?;
 
-        for (row, hash) in batch_hashes.into_iter().enumerate() {
-            let group_idx = *self.group_map.entry(hash).or_insert_with(|| {
+        for (row, group_row) in group_rows.iter().enumerate() {
+            let group_idx = *self.group_map.entry(group_row.owned()).or_insert_with(|| {
                 let group_values = group_arrs
                     .iter()
                     .map(|arr| ScalarValue::try_from_array(arr, row).unwrap())
                     .collect();
-                self.unique_groups.push((hash, group_values));
+                self.unique_groups.push(group_values);
                 self.unique_groups.len() as u32 - 1
             });
 
@@ -312,7 +317,7 @@ impl PivotStream {
                 let scalars: Vec<ScalarValue> = self
                     .unique_groups
                     .iter()
-                    .map(|(_, values)| values[idx].to_owned())
+                    .map(|values| values[idx].to_owned())
                     .collect();
                 ScalarValue::iter_to_array(scalars)
             })
-- 
2.43.0


From f5b638233d4d879b27b0f152e703cf09bc6e1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 095/113] fix: a pivot with thousands of groups has a place for
 each of them

---
 src/query/src/physical_plan/pivot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/physical_plan/pivot.rs b/src/query/src/physical_plan/pivot.rs
index 7fd2b6a..02c8494 100644
--- a/src/query/src/physical_plan/pivot.rs
+++ b/src/query/src/physical_plan/pivot.rs
@@ -292,7 +292,7 @@ impl PivotStream {
                 Some(values) => {
                     if values.len() - 1 < group_idx {
                         values.resize(
-                            values.len() + BUFFER_LENGTH,
+                            group_idx + BUFFER_LENGTH,
                             ScalarValue::try_from(&self.value_type)?,
                         );
                     }
-- 
2.43.0


From 5828692e555a25317ac31ccf6b398f85e28b8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 096/113] fix: tries of a funnel belong to one partition,
 whichever batches its rows come in

---
 .../aggregate/partitioned/funnel/funnel.rs    | 125 ++++++------------
 .../aggregate/partitioned/funnel/mod.rs       |  44 +++---
 2 files changed, 56 insertions(+), 113 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 5385def..1070629 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -3,6 +3,7 @@ use std::result;
 use std::sync::Arc;
 
 use ahash::RandomState;
+use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::Decimal128Builder;
 use arrow::array::Int64Array;
@@ -31,7 +32,6 @@ use num_traits::ToPrimitive;
 use rust_decimal::Decimal;
 
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::evaluate_batch;
-use crate::physical_plan::expressions::aggregate::partitioned::funnel::Batch;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::Count;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::Exclude;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::ExcludeExpr;
@@ -64,7 +64,8 @@ struct Step {
 #[derive(Debug)]
 struct Row {
     row_id: usize,
-    _batch_id: usize,
+    // columns of the batch the row is in
+    constants: Vec<StaticArray>,
 }
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -83,12 +84,8 @@ struct BucketResult {
 
 #[derive(Debug)]
 struct Group {
-    skip: bool,
     first: bool,
     cur_partition: i64,
-    _cur_row_id: i64,
-    partition_start: Row,
-    _partition_len: i64,
     const_row: Option<Row>,
     cur_step: usize,
     steps: Vec<Step>,
@@ -118,15 +115,8 @@ impl Group {
             .collect::<HashMap<_, _, RandomState>>();
 
         Self {
-            skip: false,
             first: true,
             cur_partition: 0,
-            _cur_row_id: 0,
-            partition_start: Row {
-                row_id: 0,
-                _batch_id: 0,
-            },
-            _partition_len: 0,
             const_row: None,
             cur_step: 0,
             steps: (0..steps_len)
@@ -166,9 +156,8 @@ impl Group {
 
     fn check_constants(&self, constants: &[StaticArray], cur_row_id: usize) -> bool {
         let const_row = self.const_row.as_ref().unwrap();
-        for (const_idx, first_const) in constants.iter().enumerate() {
+        for (first_const, cur_const) in const_row.constants.iter().zip(constants.iter()) {
             // compare the const values of current row and first row
-            let cur_const = &constants[const_idx];
             if !first_const.eq_values(const_row.row_id, cur_const, cur_row_id) {
                 return false;
             }
@@ -269,7 +258,6 @@ pub struct Funnel {
     filter: Option<Filter>,
     touch: Option<Touch>,
     partition_col: PhysicalExprRef,
-    buf: HashMap<usize, Batch, RandomState>,
     batch_id: usize,
     _processed_batches: usize,
     #[cfg(test)]
@@ -278,9 +266,8 @@ pub struct Funnel {
     time_interval: Option<TimeIntervalUnit>,
     // groups when group by
     groups: Option<Groups<Group>>,
-    cur_partition: i64,
-    skip_partition: bool,
-    first: bool,
+    // partition that doesn't count anymore
+    skip_partition: Option<i64>,
     // special case for non-group
     single_group: Group,
     steps_len: usize,
@@ -347,7 +334,6 @@ impl Funnel {
             filter: opts.filter,
             touch: opts.touch,
             partition_col: opts.partition_col,
-            buf: Default::default(),
             batch_id: 0,
             _processed_batches: 0,
             #[cfg(test)]
@@ -355,9 +341,7 @@ impl Funnel {
             buckets: buckets.clone(),
             time_interval: opts.time_interval.clone(),
             groups: Groups::maybe_from(opts.groups)?,
-            cur_partition: 0,
-            skip_partition: false,
-            first: true,
+            skip_partition: None,
             single_group: Group::new(opts.steps.len(), &buckets),
             steps_len: opts.steps.len(),
         })
@@ -465,9 +449,7 @@ impl Funnel {
             &self.exclude_expr,
             &self.constants,
             &self.ts_col,
-            &self.partition_col,
         )?;
-        self.buf.insert(self.batch_id, funnel_batch);
         let partitions = self
             .partition_col
             .evaluate(batch)?
@@ -490,32 +472,25 @@ impl Funnel {
         } else {
             None
         };
-        let mut to_remove = Vec::with_capacity(self.buf.len() - 1);
-        for (idx, batch) in &self.buf {
-            if batch.first_partition < self.cur_partition {
-                to_remove.push(idx.to_owned())
-            }
-        }
-
-        for idx in to_remove {
-            self.buf.remove(&idx);
-        }
+        let batch_id = self.batch_id;
+        let batch = &funnel_batch;
         let mut row_id = 0;
-        let mut batch_id = self.batch_id;
-        loop {
-            if self.skip_partition {
-                while self.cur_partition == partitions.value(row_id)
-                    && row_id < batch.num_rows() - 1
-                {
-                    row_id += 1;
-                }
-                self.skip_partition = false;
+        while row_id < batch.len() {
+            // the row doesn't belong to any of the partitions
+            if partitions.is_null(row_id) {
+                row_id += 1;
+                continue;
+            }
+            let partition = partitions.value(row_id);
+            // the partition is already counted, probably in one of previous batches
+            if self.skip_partition == Some(partition) {
+                row_id += 1;
+                continue;
             }
             if let Some(exists) = partition_exist {
-                while !exists.contains_key(&partitions.value(row_id))
-                    && row_id < batch.num_rows() - 1
-                {
+                if !exists.contains_key(&partition) {
                     row_id += 1;
+                    continue;
                 }
             }
             let group = if let Some(groups) = &mut self.groups {
@@ -526,20 +501,22 @@ impl Funnel {
             } else {
                 &mut self.single_group
             };
-            if self.first {
-                self.cur_partition = partitions.value(row_id);
-            }
 
             if group.first {
                 group.first = false;
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_partition = partitions.value(row_id);
+                group.cur_partition = partition;
+            }
+
+            // steps of another partition have nothing to do with this one
+            if partition != group.cur_partition {
+                group.push_result(&self.filter, &self.time_interval);
+                #[cfg(test)]
+                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
+                group.cur_partition = partition;
+                group.cur_step = 0;
+                group.steps_completed = 0;
             }
 
-            let batch = self.buf.get(&batch_id).unwrap();
             let cur_ts = batch.ts.value(row_id);
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
@@ -567,10 +544,10 @@ impl Funnel {
                 }
             }
             if group.cur_step == 0 {
-                if batch.constants.is_some() {
+                if let Some(constants) = &batch.constants {
                     group.const_row = Some(Row {
                         row_id,
-                        _batch_id: batch_id,
+                        constants: constants.clone(),
                     })
                 }
             } else {
@@ -590,20 +567,6 @@ impl Funnel {
                 }
             }
 
-            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
-                group.push_result(&self.filter, &self.time_interval);
-                #[cfg(test)]
-                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
-                group.cur_partition = partitions.value(row_id);
-                self.cur_partition = partitions.value(row_id);
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_step = 0;
-                group.skip = false;
-                group.steps_completed = 0;
-            }
             let mut matched = false;
             match &self.steps_orders[group.cur_step] {
                 StepOrder::Exact => {
@@ -636,22 +599,17 @@ impl Funnel {
 
                     let is_completed = group.push_result(&self.filter, &self.time_interval);
                     if is_completed && self.count == Count::Unique {
-                        self.skip_partition = true;
+                        self.skip_partition = Some(partition);
                     }
                     group.cur_step = 0;
                     group.steps_completed = 0;
                 }
             }
             row_id += 1;
-            if row_id >= batch.len() {
-                batch_id += 1;
-                row_id = 0;
-                if batch_id > self.batch_id {
-                    break;
-                }
-            }
             #[cfg(test)]
-            self.debug.push(batch_id, row_id, DebugStep::NextRow);
+            if row_id < batch.len() {
+                self.debug.push(batch_id, row_id, DebugStep::NextRow);
+            }
         }
 
         self.batch_id += 1;
@@ -678,7 +636,6 @@ impl Funnel {
             filter: self.filter.clone(),
             touch: self.touch.clone(),
             partition_col: self.partition_col.clone(),
-            buf: Default::default(),
             batch_id: 0,
             _processed_batches: 0,
             #[cfg(test)]
@@ -686,9 +643,7 @@ impl Funnel {
             buckets: self.buckets.clone(),
             time_interval: self.time_interval.clone(),
             groups,
-            cur_partition: 0,
-            skip_partition: false,
-            first: true,
+            skip_partition: None,
             single_group: Group::new(self.steps_len, &self.buckets),
             steps_len: self.steps_len,
         };
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
index 6d00086..315cb64 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
@@ -1,8 +1,9 @@
 use std::sync::Arc;
 
+use arrow::array::Array;
 use arrow::array::BooleanArray;
-use arrow::array::Int64Array;
 use arrow::array::TimestampMillisecondArray;
+use arrow::compute::prep_null_mask_filter;
 use arrow::datatypes::Schema;
 use arrow::record_batch::RecordBatch;
 use chrono::Duration;
@@ -99,7 +100,6 @@ pub struct Batch {
     pub ts: TimestampMillisecondArray,
     // timestamp
     pub batch: RecordBatch,
-    pub first_partition: i64,
 }
 
 impl Batch {
@@ -111,6 +111,16 @@ impl Batch {
     }
 }
 
+// calculate a condition for each row, null is not a match
+fn evaluate_mask(batch: &RecordBatch, expr: &PhysicalExprRef) -> Result<BooleanArray> {
+    let arr = expr.evaluate(batch)?.into_array(batch.num_rows())?;
+    let mask = arr.as_any().downcast_ref::<BooleanArray>().unwrap();
+    Ok(match mask.null_count() {
+        0 => mask.clone(),
+        _ => prep_null_mask_filter(mask),
+    })
+}
+
 // calculate expressions
 fn evaluate_batch(
     batch: RecordBatch,
@@ -118,19 +128,12 @@ fn evaluate_batch(
     exclude_expr: &Option<Vec<ExcludeExpr>>,
     constants: &Option<Vec<PhysicalExprRef>>,
     ts_col: &PhysicalExprRef,
-    partition_col: &PhysicalExprRef,
 ) -> Result<Batch> {
     let mut steps = vec![];
     // evaluate steps
     for expr in steps_expr.iter() {
         // evaluate expr to bool result
-        let arr = expr
-            .evaluate(&batch)?
-            .into_array(0)?
-            .as_any()
-            .downcast_ref::<BooleanArray>()
-            .unwrap()
-            .clone();
+        let arr = evaluate_mask(&batch, expr)?;
         // add steps to state
         steps.push(arr);
     }
@@ -138,14 +141,7 @@ fn evaluate_batch(
     let mut exclude = Some(vec![]);
     if let Some(exprs) = &exclude_expr {
         for expr in exprs.iter() {
-            let arr = expr
-                .expr
-                .evaluate(&batch)?
-                .into_array(0)?
-                .as_any()
-                .downcast_ref::<BooleanArray>()
-                .unwrap()
-                .clone();
+            let arr = evaluate_mask(&batch, &expr.expr)?;
             if let Some(exclude) = &mut exclude {
                 let excl = Exclude {
                     exists: arr,
@@ -165,7 +161,7 @@ fn evaluate_batch(
     let mut constants_out: Option<Vec<_>> = None;
     if let Some(cc) = constants {
         for c in cc.iter() {
-            let arr = c.evaluate(&batch)?.into_array(0)?;
+            let arr = c.evaluate(&batch)?.into_array(batch.num_rows())?;
             let arr = StaticArray::from(arr);
             if let Some(c) = &mut constants_out {
                 c.push(arr)
@@ -177,17 +173,10 @@ fn evaluate_batch(
     // timestamp column
     // Optiprism uses millisecond precision
     let ts = ts_col
-        .evaluate(&batch)?
-        .into_array(0)?
-        .as_any()
-        .downcast_ref::<TimestampMillisecondArray>()
-        .unwrap()
-        .clone();
-    let parr = partition_col
         .evaluate(&batch)?
         .into_array(batch.num_rows())?
         .as_any()
-        .downcast_ref::<Int64Array>()
+        .downcast_ref::<TimestampMillisecondArray>()
         .unwrap()
         .clone();
     let res = Batch {
@@ -196,7 +185,6 @@ fn evaluate_batch(
         constants: constants_out,
         ts,
         batch,
-        first_partition: parr.value(0),
     };
 
     Ok(res)
-- 
2.43.0


From d5196417ec5e32f38fe6b245b8e936df698336b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 097/113] fix: events excluded between certain steps of a
 funnel are excluded

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs           | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 1070629..4cb5b8f 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -139,7 +139,6 @@ impl Group {
             if let Some(steps) = &excl.steps {
                 if steps.from <= self.cur_step && steps.to >= self.cur_step {
                     to_check = true;
-                    break;
                 }
             } else {
                 // check anyway
-- 
2.43.0


From e053a48ba718247b7c7fc15e3cf45ffca925dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 098/113] fix: months differ in length, and each of them counts
 in a funnel

---
 .../aggregate/partitioned/funnel/funnel.rs    | 60 +++++++++++--------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 4cb5b8f..dfc308e 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -82,6 +82,22 @@ struct BucketResult {
     ts: i64,
 }
 
+impl BucketResult {
+    fn new(steps_len: usize, ts: i64) -> Self {
+        Self {
+            steps: (0..steps_len)
+                .map(|_| StepResult {
+                    total: 0,
+                    dropped_off: 0,
+                    total_time_to_convert: 0,
+                    total_time_to_convert_from_start: 0,
+                })
+                .collect::<Vec<_>>(),
+            ts,
+        }
+    }
+}
+
 #[derive(Debug)]
 struct Group {
     first: bool,
@@ -99,17 +115,7 @@ impl Group {
         let buckets = ts
             .iter()
             .map(|ts| {
-                let b = BucketResult {
-                    steps: (0..steps_len)
-                        .map(|_| StepResult {
-                            total: 0,
-                            dropped_off: 0,
-                            total_time_to_convert: 0,
-                            total_time_to_convert_from_start: 0,
-                        })
-                        .collect::<Vec<_>>(),
-                    ts: *ts,
-                };
+                let b = BucketResult::new(steps_len, *ts);
                 (*ts, b)
             })
             .collect::<HashMap<_, _, RandomState>>();
@@ -201,24 +207,26 @@ impl Group {
             *self.buckets.iter().next().unwrap().0
         };
 
-        // increment counters in bucket. Assume that bucket exist
-        self.buckets.entry(k).and_modify(|b| {
-            for idx in 0..self.steps_completed {
-                b.steps[idx].total += 1;
-                if idx > 0 {
-                    b.steps[idx].total_time_to_convert +=
-                        self.steps[idx].ts - self.steps[idx - 1].ts;
-                    b.steps[idx].total_time_to_convert_from_start +=
-                        self.steps[idx].ts - self.steps[0].ts;
-
-                    b.steps[idx].dropped_off = b.steps[idx - 1].total - b.steps[idx].total;
-                }
-            }
+        // increment counters in bucket
+        let b = self
+            .buckets
+            .entry(k)
+            .or_insert_with(|| BucketResult::new(steps_count, k));
+        for idx in 0..self.steps_completed {
+            b.steps[idx].total += 1;
+            if idx > 0 {
+                b.steps[idx].total_time_to_convert +=
+                    self.steps[idx].ts - self.steps[idx - 1].ts;
+                b.steps[idx].total_time_to_convert_from_start +=
+                    self.steps[idx].ts - self.steps[0].ts;
 
-            for idx in 1..self.steps.len() {
                 b.steps[idx].dropped_off = b.steps[idx - 1].total - b.steps[idx].total;
             }
-        });
+        }
+
+        for idx in 1..self.steps.len() {
+            b.steps[idx].dropped_off = b.steps[idx - 1].total - b.steps[idx].total;
+        }
 
         is_completed
     }
-- 
2.43.0


From ac6704010b25a4fea3d4ba55c4471d13d23aef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 099/113] fix: average times of a funnel are not percents

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index dfc308e..6f8da66 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -753,7 +753,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert as f64 / step.total as f64
                         } else {
                             0.
                         })
@@ -766,7 +766,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert_from_start as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert_from_start as f64 / step.total as f64
                         } else {
                             0.
                         })
-- 
2.43.0


From 33fced70a852bca5580c9109627d80854c45d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 100/113] fix: ratios of a funnel are not averages of ratios of
 partitions

---
 src/query/src/physical_plan/funnel.rs | 101 ++++++++++++++------------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/query/src/physical_plan/funnel.rs b/src/query/src/physical_plan/funnel.rs
index 0db852a..d2f1103 100644
--- a/src/query/src/physical_plan/funnel.rs
+++ b/src/query/src/physical_plan/funnel.rs
@@ -61,14 +61,27 @@ use crate::physical_plan::expressions::aggregate::partitioned::funnel::funnel::F
 #[derive(Debug, Clone)]
 enum Agg {
     Sum(i128),
-    Avg(i128, i128),
+    // the rest are ratios of sums, ids of the sums are stored
+    Percent { part: usize, whole: usize },
+    PercentLeft { part: usize, whole: usize },
+    Avg { sum: usize, count: usize },
 }
 
 impl Agg {
-    pub fn result(&self) -> i128 {
+    pub fn result(&self, aggs: &[Agg]) -> i128 {
+        let sum = |idx: usize| match &aggs[idx] {
+            Agg::Sum(sum) => *sum,
+            _ => unreachable!(),
+        };
+        let one = 10_i128.pow(DECIMAL_SCALE as u32);
+        let ratio = |a: i128, b: i128| if b == 0 { 0 } else { a * one / b };
         match self {
             Agg::Sum(sum) => *sum,
-            Agg::Avg(sum, count) => *sum / *count,
+            Agg::Percent { part, whole } => ratio(sum(*part) * 100, sum(*whole)),
+            Agg::PercentLeft { part, whole } => {
+                100 * one - ratio(sum(*part) * 100, sum(*whole))
+            }
+            Agg::Avg { sum: s, count } => ratio(sum(*s), sum(*count)),
         }
     }
 }
@@ -183,25 +196,11 @@ fn aggregate(
             &mut single_group
         };
         for (agg, arr) in group.aggs.iter_mut().zip(static_arrs.iter()) {
-            match arr {
-                StaticArray::Int64(arr) => match agg {
-                    Agg::Sum(sum) => {
-                        *sum += arr.value(row_id) as i128;
-                    }
-                    Agg::Avg(sum, count) => {
-                        *sum += arr.value(row_id) as i128;
-                        *count += 1;
-                    }
-                },
-                StaticArray::Decimal(arr) => match agg {
-                    Agg::Sum(sum) => {
-                        *sum += arr.value(row_id);
-                    }
-                    Agg::Avg(sum, count) => {
-                        *sum += arr.value(row_id);
-                        *count += 1;
-                    }
-                },
+            if let Agg::Sum(sum) = agg {
+                match arr {
+                    StaticArray::Int64(arr) => *sum += arr.value(row_id) as i128,
+                    StaticArray::Decimal(arr) => *sum += arr.value(row_id),
+                }
             }
         }
     }
@@ -213,10 +212,10 @@ fn aggregate(
             for (idx, agg) in group.aggs.iter().enumerate() {
                 match &mut builders[idx] {
                     StaticArrayBuilder::Int64(b) => {
-                        b.append_value(agg.result() as i64);
+                        b.append_value(agg.result(&group.aggs) as i64);
                     }
                     StaticArrayBuilder::Decimal(b) => {
-                        b.append_value(agg.result());
+                        b.append_value(agg.result(&group.aggs));
                     }
                 }
             }
@@ -240,10 +239,10 @@ fn aggregate(
         for (idx, agg) in single_group.aggs.iter().enumerate() {
             match &mut builders[idx] {
                 StaticArrayBuilder::Int64(b) => {
-                    b.append_value(agg.result() as i64);
+                    b.append_value(agg.result(&single_group.aggs) as i64);
                 }
                 StaticArrayBuilder::Decimal(b) => {
-                    b.append_value(agg.result());
+                    b.append_value(agg.result(&single_group.aggs));
                 }
             }
         }
@@ -687,28 +686,34 @@ impl Stream for FinalFunnelStream {
 
         let mut aggs = vec![];
         for i in 0..self.steps {
-            let cname = format!("step{}_total", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
-
-            let cname = format!("step{}_conversion_ratio", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_avg_time_to_convert", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_avg_time_to_convert_from_start", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_dropped_off", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
-
-            let cname = format!("step{}_drop_off_ratio", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Avg(0, 0)));
-
-            let cname = format!("step{}_time_to_convert", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
-            let cname = format!("step{}_time_to_convert_from_start", i);
-            aggs.push((col(&cname, &self.schema).unwrap(), Agg::Sum(0)));
+            // position of the first aggregate of the step
+            let step = aggs.len();
+            let step_aggs = vec![
+                ("total", Agg::Sum(0)),
+                ("conversion_ratio", Agg::Percent {
+                    part: step,
+                    whole: 0,
+                }),
+                ("avg_time_to_convert", Agg::Avg {
+                    sum: step + 6,
+                    count: step,
+                }),
+                ("avg_time_to_convert_from_start", Agg::Avg {
+                    sum: step + 7,
+                    count: step,
+                }),
+                ("dropped_off", Agg::Sum(0)),
+                ("drop_off_ratio", Agg::PercentLeft {
+                    part: step,
+                    whole: 0,
+                }),
+                ("time_to_convert", Agg::Sum(0)),
+                ("time_to_convert_from_start", Agg::Sum(0)),
+            ];
+            for (name, agg) in step_aggs {
+                let cname = format!("step{i}_{name}");
+                aggs.push((col(&cname, &self.schema).unwrap(), agg));
+            }
         }
         let groups = self
             .schema
-- 
2.43.0


From d8139e168c1c3f6025cb089774a266e5518fbac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 101/113] fix: filters of steps of a funnel and of its excluded
 events have types of properties

---
 src/query/src/funnel.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 3885933..c6eb8be 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -528,6 +528,22 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
     Ok(unique(fields))
 }
 
+fn fix_filters(
+    md: &Arc<MetadataProvider>,
+    project_id: u64,
+    filters: &[PropValueFilter],
+) -> crate::Result<Option<Vec<PropValueFilter>>> {
+    if filters.is_empty() {
+        return Ok(None);
+    }
+    let filters = filters
+        .iter()
+        .map(|filter| fix_filter(md, project_id, filter))
+        .collect::<crate::Result<Vec<_>>>()?;
+
+    Ok(Some(filters))
+}
+
 pub fn fix_request(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -538,9 +554,8 @@ pub fn fix_request(
     for (step_id, step) in req.steps.iter().enumerate() {
         for (event_id, event) in step.events.iter().enumerate() {
             if let Some(filters) = &event.filters {
-                if filters.is_empty() {
-                    out.steps[step_id].events[event_id].filters = None;
-                }
+                out.steps[step_id].events[event_id].filters =
+                    fix_filters(md, project_id, filters)?;
             }
         }
     }
@@ -552,9 +567,7 @@ pub fn fix_request(
             let mut out_exclude = exclude.to_vec();
             for (exclude_id, exclude) in exclude.iter().enumerate() {
                 if let Some(filters) = &exclude.filters {
-                    if filters.is_empty() {
-                        out_exclude[exclude_id].filters = None;
-                    }
+                    out_exclude[exclude_id].filters = fix_filters(md, project_id, filters)?;
                 }
             }
 
@@ -575,16 +588,7 @@ pub fn fix_request(
     }
 
     if let Some(filters) = &req.filters {
-        let mut of = vec![];
-        if filters.is_empty() {
-            out.filters = None;
-        } else {
-            for filter in filters.iter() {
-                let f = fix_filter(md, project_id, filter)?;
-                of.push(f);
-            }
-            out.filters = Some(of);
-        }
+        out.filters = fix_filters(md, project_id, filters)?;
     }
     Ok(out)
 }
-- 
2.43.0


From 07827129967ed5054d489f245b5c97962681abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 102/113] fix: a step of a funnel may be a custom event

---
 src/query/src/funnel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index c6eb8be..43ec12c 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -197,7 +197,12 @@ impl FunnelProvider {
             let name = match &step.events[0].event {
                 EventRef::RegularName(n) => n.clone(),
                 EventRef::Regular(id) => self.metadata.events.get_by_id(ctx.project_id, *id)?.name,
-                EventRef::Custom(_) => unimplemented!(),
+                EventRef::Custom(id) => {
+                    self.metadata
+                        .custom_events
+                        .get_by_id(ctx.project_id, *id)?
+                        .name
+                }
             };
             let mut step = Step {
                 step: name.clone(),
-- 
2.43.0


From 6ce538df5c970c70d70a4bb0d0075fe79ef09006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 103/113] fix: a funnel may have a breakdown by a dictionary
 property

---
 src/query/src/physical_plan/planner/funnel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index 5a15531..32a6f5f 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -93,9 +93,10 @@ pub(crate) fn build_funnel(
         Some(
             groups
                 .iter()
-                .map(|(expr, name, sort_field)| {
+                .map(|(expr, name, _)| {
                     let expr = create_physical_expr(expr, &dfschema, &execution_props)?;
-                    let sf = SortField::new(sort_field.data_type.clone());
+                    // values of a dictionary are not decoded yet
+                    let sf = SortField::new(expr.data_type(&schema)?);
                     Ok((expr, name.clone(), sf))
                 })
                 .collect::<Result<Vec<_>>>()?,
-- 
2.43.0


From ee648616f038d58067ed1a74a13f96a235c8e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 104/113] fix: a breakdown of a funnel by numbers may have no
 value

---
 src/query/src/funnel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 43ec12c..3543b9b 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -142,6 +142,11 @@ impl FunnelProvider {
                             .unwrap();
                         let mut builder = StringBuilder::new();
                         for i in 0..arr.len() {
+                            // value of a null is undefined
+                            if arr.is_null(i) {
+                                builder.append_null();
+                                continue;
+                            }
                             let v = arr.value(i);
                             let vv = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
                                 .round_dp(ROUND_DIGITS.into());
-- 
2.43.0


From 40f9cefb543465d56c6f8db5c7b3c054564375ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 105/113] fix: conditions of a funnel compare numbers of any
 scale

---
 src/query/src/physical_plan/planner/funnel.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index 32a6f5f..5a6ffee 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -4,9 +4,13 @@ use std::sync::Mutex;
 use arrow_row::SortField;
 use datafusion::execution::context::ExecutionProps;
 use datafusion::physical_expr::create_physical_expr;
+use datafusion::optimizer::simplify_expressions::ExprSimplifier;
 use datafusion::physical_expr::expressions::Column;
+use datafusion::physical_expr::PhysicalExprRef;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::ToDFSchema;
+use datafusion_expr::simplify::SimplifyContext;
+use datafusion_expr::Expr;
 use datafusion_expr::LogicalPlan;
 
 use crate::error::Result;
@@ -49,23 +53,29 @@ pub(crate) fn build_funnel(
     let schema = physical_inputs[0].schema();
     let dfschema = schema.clone().to_dfschema()?;
     let execution_props = ExecutionProps::new();
+    // conditions of the node aren't seen by analyzer, so make types of operands equal here
+    let simplifier = ExprSimplifier::new(SimplifyContext::new(&execution_props));
+    let condition = |expr: &Expr| -> Result<PhysicalExprRef> {
+        let expr = simplifier.coerce(expr.to_owned(), &dfschema)?;
+        Ok(create_physical_expr(&expr, &dfschema, &execution_props)?)
+    };
     let steps = f
         .steps
         .iter()
         .map(|(expr, order)| {
-            let expr = create_physical_expr(expr, &dfschema, &execution_props).unwrap();
+            let expr = condition(expr)?;
             let order = match order {
                 logical_plan::funnel::StepOrder::Exact => StepOrder::Exact,
                 logical_plan::funnel::StepOrder::Any(v) => StepOrder::Any(v.to_vec()),
             };
-            (expr, order)
+            Ok((expr, order))
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>>>()?;
 
     let exclude = if let Some(exclude) = f.exclude {
         let mut out = vec![];
         for exclude in exclude {
-            let expr = create_physical_expr(&exclude.expr, &dfschema, &execution_props)?;
+            let expr = condition(&exclude.expr)?;
             let steps = exclude.steps.map(|steps| ExcludeSteps {
                 from: steps.from,
                 to: steps.to,
-- 
2.43.0


From 8c78413ea74c1f9a8a169fe9a09b5795eb900656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 106/113] fix: get a group property by the group and the id in
 the path

---
 src/platform/src/http/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index c906d5e..8ad8c1e 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -29,7 +29,7 @@ async fn get_event_by_id(
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
-    Path((project_id, property_id, group_id)): Path<(u64, u64, usize)>,
+    Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
         provider.groups[group_id]
-- 
2.43.0


From b247e745c99f3e1044b0f4f0d6d4e2c7c494e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 107/113] fix: a group record that is not found or has no value
 of a property

---
 src/query/src/group_records.rs | 59 ++++------------------------------
 1 file changed, 7 insertions(+), 52 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index f9e5a7e..f321d4e 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -3,16 +3,6 @@ use std::result;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::PropValueFilter;
 use common::query::PropertyRef;
@@ -24,8 +14,6 @@ use common::types::GROUP_COLUMN_PROJECT_ID;
 use common::types::GROUP_COLUMN_VERSION;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
 use datafusion_expr::and;
@@ -88,7 +76,7 @@ impl GroupRecordsProvider {
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
         let (session_ctx, state, plan) = initial_plan(&self.db, group_col(group_id), projection)?;
-        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
+        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id.clone())?;
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
         debug!("elapsed: {:?}", duration);
@@ -97,6 +85,11 @@ impl GroupRecordsProvider {
             .record(elapsed);
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"group_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
+
+        if result.num_rows() == 0 {
+            return Err(QueryError::NotFound(format!("record {id} not found")));
+        }
+
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -112,45 +105,7 @@ impl GroupRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
-
+                let value = ScalarValue::try_from_array(col, 0)?;
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
                     value,
-- 
2.43.0


From 69bba4879d6330cb8299b04ca97ec1cb8ad36e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 108/113] fix: a search of group records keeps its time range
 when it has filters

---
 src/query/src/group_records.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index f321d4e..3399a6b 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -16,7 +16,6 @@ use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
-use datafusion_expr::and;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr;
@@ -220,7 +219,7 @@ pub fn build_search_plan(
 
     if let Some(filters) = &req.filters {
         let expr = event_filters_expression(&ctx, &metadata, input.schema(), filters)?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(expr);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
-- 
2.43.0


From 8f71d5334201358eb1c3c68100294d61cbdcf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 109/113] fix: group records are filtered by project before
 values are decoded

---
 src/query/src/group_records.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3399a6b..2985d3b 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -42,6 +42,7 @@ use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
 use crate::expr::event_filters_expression;
+use crate::expr::project_plan;
 use crate::expr::property_col;
 use crate::expr::time_expression;
 use crate::fix_filter;
@@ -204,13 +205,11 @@ pub fn build_search_plan(
         }
     };
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
+    // dictionaries are per project
+    let input = project_plan(&ctx, input)?;
     let input =
         decode_filter_dictionaries(&ctx, &metadata, req.filters.as_ref(), input, &mut cols_hash)?;
-    let mut filter_exprs = vec![binary_expr(
-        col(GROUP_COLUMN_PROJECT_ID),
-        Operator::Eq,
-        lit(ScalarValue::from(ctx.project_id as i64)),
-    )];
+    let mut filter_exprs = vec![];
 
     if let Some(time) = &req.time {
         let expr = time_expression(GROUP_COLUMN_CREATED_AT, input.schema(), time, ctx.cur_time)?;
@@ -222,10 +221,14 @@ pub fn build_search_plan(
         filter_exprs.push(expr);
     }
 
-    let input = LogicalPlan::Filter(PlanFilter::try_new(
-        multi_and(filter_exprs),
-        Arc::new(input),
-    )?);
+    let input = if filter_exprs.is_empty() {
+        input
+    } else {
+        LogicalPlan::Filter(PlanFilter::try_new(
+            multi_and(filter_exprs),
+            Arc::new(input),
+        )?)
+    };
 
     let input = if exprs.is_empty() {
         input
-- 
2.43.0


From b5f70d9bce905b4018c9c593463c1a058f87d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 110/113] fix: columns of found group records are of the
 properties of the project

---
 src/query/src/group_records.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 2985d3b..61baa93 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -177,8 +177,7 @@ pub fn build_search_plan(
     input: LogicalPlan,
     req: GroupRecordsSearchRequest,
 ) -> Result<(LogicalPlan, Vec<Property>)> {
-    let mut properties = vec![];
-    let mut exprs = vec![];
+    let mut properties: Vec<Property> = vec![];
     if let Some(props) = &req.properties {
         let mut prop_names = vec![];
 
@@ -197,13 +196,26 @@ pub fn build_search_plan(
                 continue;
             }
             prop_names.push(p.column_name());
-            properties.push(p.clone());
-            exprs.push(col(Column {
+            properties.push(p);
+        }
+    } else {
+        properties.append(
+            &mut metadata.group_properties[req.group_id]
+                .list(ctx.project_id)?
+                .data,
+        );
+        // the table has columns of all the projects
+        properties.retain(|p| input.schema().has_column_with_unqualified_name(&p.column_name()));
+    }
+    let exprs = properties
+        .iter()
+        .map(|p| {
+            col(Column {
                 relation: None,
                 name: p.column_name(),
-            }));
-        }
-    };
+            })
+        })
+        .collect::<Vec<_>>();
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     // dictionaries are per project
     let input = project_plan(&ctx, input)?;
@@ -258,12 +270,6 @@ pub fn build_search_plan(
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.group_properties[req.group_id]
-            .list(ctx.project_id)?
-            .data;
-        properties.append(&mut (l));
-    }
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
-- 
2.43.0


From 13578911ec11cff2d576f410a46c99db3eae8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 111/113] fix: a group record with an unknown id is not found

---
 src/query/src/group_records.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 61baa93..c4cc43f 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -29,6 +29,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -333,12 +334,18 @@ pub fn build_get_by_id_plan(
 ) -> Result<LogicalPlan> {
     let id_prop =
         metadata.group_properties[group_id].get_by_name(ctx.project_id, GROUP_COLUMN_ID)?;
-    let id_int = metadata.dictionaries.get_key(
-        ctx.project_id,
-        group_col(group_id).as_str(),
-        id_prop.column_name().as_str(),
-        id.as_str(),
-    )?;
+    let id_int = metadata
+        .dictionaries
+        .get_key(
+            ctx.project_id,
+            group_col(group_id).as_str(),
+            id_prop.column_name().as_str(),
+            id.as_str(),
+        )
+        .map_err(|err| match err {
+            MetadataError::NotFound(_) => QueryError::NotFound(format!("record {id} not found")),
+            err => err.into(),
+        })?;
     let filter_exprs = vec![
         binary_expr(
             col(GROUP_COLUMN_PROJECT_ID),
-- 
2.43.0


From 5baf13bd65e1b5ad92e61d9df8f65f6b98da2225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 112/113] fix: what a failed backup could not remove is removed
 later

---
 src/cmd/src/backup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 33ad453..ca26186 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -63,11 +63,12 @@ pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -
 // reset all in progress backups since they are stateless
 fn reset_interrupted(md: &Arc<MetadataProvider>, cfg: &Config) -> Result<()> {
     for backup in md.backups.list()? {
+        // also what a failed backup could not remove
+        remove_tmp(cfg, &backup)?;
         if matches!(
             backup.status,
             backups::Status::InProgress(_) | backups::Status::Uploading
         ) {
-            remove_tmp(cfg, &backup)?;
             md.backups.update_status(
                 backup.id,
                 backups::Status::Failed("backup was interrupted".to_string()),
-- 
2.43.0


From 58ddf448056e2510f17456a0e4f3740ec9b53179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 113/113] fix: values of a time property may be filtered

---
 src/query/src/properties.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 40d06f2..f90e3ab 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -48,6 +48,7 @@ use crate::execute;
 use crate::expr::custom_event_filters;
 use crate::expr::event_expression;
 use crate::expr::property_expression;
+use crate::fix_filter;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::unique;
@@ -187,18 +188,30 @@ impl LogicalPlanBuilder {
         };
 
         let input = match &req.filter {
-            Some(filter) => LogicalPlan::Filter(PlanFilter::try_new(
-                property_expression(
-                    &ctx,
-                    &metadata,
-                    input.schema(),
-                    TABLE_EVENTS,
-                    &req.property,
-                    &filter.operation,
-                    filter.value.clone(),
-                )?,
-                Arc::new(input),
-            )?),
+            Some(filter) => {
+                let filter = PropValueFilter::Property {
+                    property: req.property.clone(),
+                    operation: filter.operation.clone(),
+                    value: filter.value.clone(),
+                };
+                let PropValueFilter::Property {
+                    property,
+                    operation,
+                    value,
+                } = fix_filter(&metadata, ctx.project_id, &filter)?;
+                LogicalPlan::Filter(PlanFilter::try_new(
+                    property_expression(
+                        &ctx,
+                        &metadata,
+                        input.schema(),
+                        TABLE_EVENTS,
+                        &property,
+                        &operation,
+                        value,
+                    )?,
+                    Arc::new(input),
+                )?)
+            }
             None => input,
         };
 
-- 
2.43.0

