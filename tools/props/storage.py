import json,os
ST="src/storage/src/"
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,note=None,harness="h_storage"):
    a={"files":[ST+f for f in files],"mechanism":[{"name":n,"where":ST+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a,"_check":{"harness":harness,"note":note}}
base="Seeded search, not exhaustive. Real storage engine code runs unmodified on a simulated file system, scheduler and clock; arrow2/parquet2 are re-implemented shims. Crash model: process crash, completed writes are durable. "
L=[
p("C01","Acknowledged rows survive a crash of the process at any point",
 "After a process crash at any instant, including in the middle of a write, the database opens again and a scan returns every row whose insertion had been acknowledged, exactly once and with its values. A row whose insertion was in flight is either present completely or absent, and stays so in later restarts. The recovered database accepts further inserts, flushes, schema changes and restarts.",
 ["crash_points","schedules","inputs","histories"],"every crash point (before, inside, after any file system operation or scheduling point), every interleaving of clients with the flusher, compactor and garbage collector, every sequence of up to four process lives",
 "Existing storage tests run one thread to completion and reopen at rest; no crash, torn log record or half-created part is ever produced.",
 ["db.rs","memtable.rs"],[("log append","db.rs insert/log_op"),("recovery","db.rs try_recover_table/recover_op"),("flush","db.rs flush_log_"),("metadata replacement","db.rs write_metadata")],
 [("log","rows acknowledged but not yet in parts"),("table metadata","names the parts and the current log")],"db.scan after reopen",
 base+"Oracle: history of acknowledged rows with values derived from the row id; runs of up to 4 crashes each."),
p("C02","A scan sees one consistent moment of the table",
 "A scan returns every row acknowledged before it started, exactly once, with exactly its own values, and no row that was never inserted or was submitted only after the scan ended. If it shows a row, it shows every row acknowledged before that row was even submitted. Rows come out ordered by the table's key, whatever flushes, compactions, schema changes and other scans run at the same time, however slowly the scan is read, and whatever projection it asks for.",
 ["schedules","inputs","histories"],"every interleaving of concurrent inserts, scans, flushes, compactions and garbage collection, every projection and reading speed",
 "Tests scan a table no other thread touches; a snapshot taken between the memory table and the part list is never exercised.",
 ["db.rs","memtable.rs","parquet/arrow_merger.rs","compaction.rs"],[("snapshot of memtable and parts","db.rs scan"),("merge of sorted sources","arrow_merger"),("part in-use tracking","db.rs Fs")],
 None,"db.scan stream",base+"Oracle: per-row invocation/acknowledgement intervals, prefix (linearizable snapshot) check, order and value check."),
p("C03","Flushing and compaction never change the content of a table",
 "However rows are distributed over the log, the memory table, level-0 parts and compacted levels, and whatever sizes of pages, row groups, chunks and parts are configured, a scan of the table returns the same set of rows with the same values in key order. This holds before, between and after any number of flushes, compactions and restarts.",
 ["configurations","inputs","schedules","histories"],"every engine configuration (levels, limits, page and chunk sizes), every key distribution including duplicate keys, and every timing of the background compactor",
 "The merger tests check a few hand-written part layouts with fixed sizes; the product of sizes, null patterns and overlapping key ranges is out of their reach.",
 ["compaction.rs","parquet/parquet_merger.rs","parquet/arrow_merger.rs","memtable.rs"],[("part selection","compaction.rs determine_compaction"),("page merge","parquet_merger"),("sorting the memtable","memtable.rs chunk")],
 None,"db.scan after flush/compaction",base+"Swarm over engine options; oracle as C02."),
p("C04","A failed I/O operation loses and corrupts nothing",
 "When a read or write fails or is cut short, or the disk is full for a while, the affected call may report an error, but no row acknowledged before or afterwards is lost, duplicated or changed, and a scan either reports an error or returns the complete content. Once the disk works again the running database, and the database after a restart, accept writes, flushes and scans normally.",
 ["fault_sequences","schedules","histories"],"every placement of one to three read/write errors, short reads and writes and disk-full periods, under every interleaving with background work",
 "No test makes an I/O operation fail.",
 ["db.rs","compaction.rs","parquet/arrow_merger.rs"],[("log append","db.rs insert"),("flush","db.rs flush_log_"),("compaction commit","compaction.rs")],
 None,"API results and db.scan",base+"Oracle as C01/C02 with errors allowed only while faults are armed."),
p("C05","Background maintenance keeps running and leaves no garbage",
 "Whatever clients do, and also when disk operations fail for a time or the process is killed and started again, the background threads never die, and once the load and the faults stop the table reaches, within a bounded time, a state where level 0 is within its configured limit, every part the table lists exists on disk exactly once, and no obsolete part or log file is left (but for an empty log that an interrupted flush started and the next one starts over). No combination of operations deadlocks.",
 ["schedules","fault_sequences","crash_points","histories","configurations"],"every interleaving of clients, abandoned scans and backups with the compactor and garbage collector, with disk errors, full disks and crashes meanwhile, bounded by seven simulated seconds of rest",
 "Tests do not observe the background threads at all.",
 ["db.rs","compaction.rs"],[("compactor loop","compaction.rs Compactor::run"),("garbage collection of files","db.rs Fs try_drop/gc"),("part in-use tracking","db.rs Fs open/close")],
 None,"parts_path and the file system",base+"Liveness: bounded by seven simulated seconds after load stops; deadlock and panic detection by the scheduler."),
p("C06","A backup restores to exactly one moment of the database",
 "A full backup taken while clients and maintenance run restores, into an empty database or over an existing one, to exactly the content the database had at one moment during the backup, and the restored database works. A truncated backup is refused and leaves the database as it was, and a crash or disk error during a restore leaves either the old or the restored content.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of a backup with inserts, flushes, compactions and schema changes; every truncation; every crash or fault point of a restore",
 "The existing test backs up an idle table.",
 ["db.rs","compaction.rs"],[("backup","db.rs full_backup"),("restore","db.rs full_restore")],
 None,"scan of the restored database",base+"Oracle: scan of the restored store judged as a snapshot between backup start and end."),
p("C07","Columns can be added at any time without disturbing rows",
 "Adding a column while rows are being inserted, scanned, flushed and compacted never fails, never changes a stored value, and makes the column null in rows that did not supply it. An acknowledged column is still there after a crash, with the values inserted into it.",
 ["schedules","crash_points","histories"],"every interleaving of column additions with inserts, scans, flushes and compactions, and every crash point",
 "Tests add columns before the first row or while nothing else runs.",
 ["db.rs","memtable.rs","parquet/parquet_merger.rs"],[("schema change","db.rs add_field"),("log recovery with older rows","db.rs recover_op"),("missing columns in parts","parquet_merger / arrow_merger")],
 None,"db.schema, db.scan",base+"Oracle as C01 plus a registry of acknowledged columns."),
p("C08","A point lookup finds a stored row wherever it lives",
 "A lookup by key or key prefix returns a row with that key whenever one was acknowledged before the lookup started, with all its values, and returns nothing or a row in flight otherwise; this holds whether the row is in memory, in a fresh part or in a compacted level.",
 ["inputs","schedules","histories"],"every key distribution, row location and interleaving with flushes and compactions",
 "The existing tests look up a handful of keys in one layout.",
 ["db.rs","memtable.rs"],[("lookup","db.rs get"),("part statistics","db.rs part min/max")],
 None,"db.get",base+"Oracle: history of rows by key."),
p("C09","A replacing table always shows the newest version of every key",
 "In a table that keeps only the newest version of each key, a scan always shows, for every key, the newest version acknowledged before the scan, with exactly that version's values, and never loses a key, even when versions arrive out of order. This holds through flushes, compactions and restarts.",
 ["inputs","schedules","histories"],"every order of arrival of versions over parts and levels and every interleaving with maintenance",
 "The existing tests merge two or three hand-written parts.",
 ["memtable.rs","parquet/parquet_merger.rs","parquet/arrow_merger.rs"],[("dedup in memory","memtable.rs chunk"),("dedup in part merges","parquet_merger"),("dedup in scans","arrow_merger")],
 None,"db.scan",base+"Oracle: newest acknowledged version per key."),
]
json.dump(L,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"storage.json"),"w"),indent=1)
