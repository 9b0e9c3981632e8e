F = "src/storage/src/"
D, T, K, PM, L = F+"db.rs", F+"table.rs", F+"compaction.rs", F+"parquet/parquet_merger.rs", F+"lib.rs"
P = [
 dict(id="S01", title="A table holds exactly the rows inserted into it",
  statement="A scan returns every row whose insert succeeded exactly once, ordered by key, and nothing else, whatever inserts, flushes, new columns and reopenings of the database preceded it. Rows older than a column have null in it, and inserts may leave out nullable columns and give values in any order.",
  over=["histories", "inputs"], text="every history of inserts, flushes, added columns and reopenings, over all column types",
  why="The tests run a few fixed scripts over integer columns; a lost or repeated row depends on the history.",
  files=[D, F+"memtable.rs", T, F+"parquet/arrow_merger.rs"], mech=[("log, memtable and flush", D), ("merging scan", F+"parquet/arrow_merger.rs")],
  technique="stateful model-based testing of random histories against a list of rows",
  note="One table, up to 40 operations and 9 columns per history; replacing tables are not covered."),
 dict(id="S02", title="Compaction changes where rows are stored and nothing else",
  statement="While and after parts are merged or moved between levels, scans return exactly the rows they returned before; a scan already running keeps its rows. When writing stops, level 0 shrinks to its limit and only files that are in use remain.",
  over=["histories", "schedules"], text="every history and compaction configuration, with scans running across compactions",
  why="Tests compact fixed parts synchronously; the background thread's timing against scans, flushes and gc is not explored.",
  files=[K, PM, D], mech=[("choice and merge of parts", K), ("file reference counts", L)],
  technique="stateful model-based testing with background compaction, and a settling invariant on the files",
  note="Thread timing is sampled, with the one-second pauses of the background threads shortened to 12 ms in the build under test."),
 dict(id="S03", title="A crash or failed write loses no acknowledged row",
  statement="After a stop at any point, including inside an insert, a flush, a compaction or the creation of a table, the database opens and holds every acknowledged row and column exactly once, besides at most the operation that was under way, and stays usable. An operation that fails on an I/O error leaves earlier and later rows intact.",
  over=["crash_points", "fault_sequences", "histories"], text="every crash point between file-system changes (log writes also torn) and every failing write of random histories",
  why="No test stops the process or fails a write; the outcome depends on the order of file-system changes.",
  files=[D, K, L], mech=[("log replay and metadata", D+" try_recover_table"), ("order of file changes in flush", D+" flush"), ("order of file changes in compaction", K)],
  technique="crash-point enumeration over recorded file-system changes of random histories, and I/O fault injection",
  note="Process-crash model: completed system calls survive. Metadata writes are taken as atomic; loss of unsynced pages is not explored."),
 dict(id="S04", title="A scan of some columns agrees with a scan of all",
  statement="Scanning any selection of columns that includes the key returns, for every row, the same values in the selected columns as a full scan, in key order, whether rows are in memory or in parts written before some columns existed.",
  over=["inputs", "histories"], text="every selection and order of columns over random tables",
  why="Tests scan all columns or one fixed selection.",
  files=[D, T, F+"parquet/arrow_merger.rs"], mech=[("projection of memtable and parts", D+" scan")],
  technique="metamorphic and model-based testing over random tables and projections",
  note="Projections contain the key columns, as every query's does."),
 dict(id="S05", title="A rejected call reports an error and changes nothing",
  statement="An insert that lacks a mandatory column, names one that doesn't exist, or gives a value of another type, and a duplicate table or column, are refused with an error; the table's rows and definition stay as they were, also after reopening.",
  over=["inputs", "histories"], text="every kind of invalid call at any point of a random history",
  why="Tests cover single invalid calls on empty tables and not what is left behind.",
  files=[D, T], mech=[("validation before logging", D+" insert")],
  technique="stateful model-based testing with invalid calls mixed in",
  note="The invalid calls are those the code classifies as such."),
 dict(id="S06", title="Looking up a key returns the row stored under it",
  statement="get with a full key returns the stored values of that row, from memory or any part at any level, and nothing for a key that is not stored.",
  over=["inputs", "histories"], text="every present and absent key over random tables, before and after flush and compaction",
  why="The test looks up a few keys of fixed parts.",
  files=[D], mech=[("candidate parts and row lookup", D+" get")],
  technique="model-based testing over random tables and keys",
  note="Unique Int64 keys."),
 dict(id="S08", title="A restored backup is the database as it was",
  statement="A backup taken while the database is written to restores, into an empty or another database, tables with the rows of one moment between the start and end of the backup, each once, and remains usable. A truncated backup is refused.",
  over=["histories", "inputs", "schedules"], text="every history before the backup, every cut of the stream, and writes and compactions during it",
  why="The test backs up one idle table once.",
  files=["src/storage/src/db.rs"], mech=[("metadata snapshot and file pins", D+" full_backup_local"), ("restore", D+" full_restore_local")],
  technique="model-based round trip over random histories, concurrent writers and truncated streams",
  note="Backups are streamed through the same calls the backup service makes."),
 dict(id="S09", title="Concurrent use loses, repeats or invents no row",
  statement="With several writers, scanners and flushers at once, every scan contains all rows acknowledged before it began and only rows whose insert has begun, each once; at the end, and after a crash during such use, exactly the acknowledged rows are there (besides those under way).",
  over=["schedules", "crash_points"], text="every interleaving of writers, scans, flushes and compaction",
  why="The tests are single-threaded.",
  files=[D, "src/storage/src/memtable.rs"], mech=[("log and memtable locking", D)],
  technique="randomized concurrent histories checked against per-scan lower and upper bounds",
  note="Interleavings are sampled by running real threads, not enumerated."),
 dict(id="S10", title="Damaged files are reported, never served as data",
  statement="A log, metadata or part file with changed or missing bytes makes opening or scanning fail with an error or, for a cut log, drop whole records from its end; it never crashes, exhausts memory or yields rows that were not inserted.",
  over=["fault_sequences", "inputs"], text="every byte change or cut of log and metadata files and every cut of part files",
  why="No test damages files.",
  files=[D], mech=[("checksums of log records and metadata", D)],
  technique="fault-injecting property-based testing (corruption of generated databases)",
  note="Changed bytes inside part files are not covered: the format has no checksum there."),
 dict(id="S11", title="A table's definition survives and is reported faithfully",
  statement="Name, options and columns (name, type, nullability, order) of every table are reported as created and extended, in both schema representations, before and after reopening, with several tables kept apart.",
  over=["inputs", "histories"], text="every definition, sequence of added columns and reopening",
  why="Tests use fixed schemas.",
  files=[D, T, F+"arrow_conversion.rs"], mech=[("metadata file", D)],
  technique="model-based testing over random definitions",
  note="Up to three tables."),
 dict(id="S12", title="Merging sorted parts yields all their rows in order",
  statement="Merging any number of sorted part files, of the same or earlier schemas, yields part files that together hold every row once in key order, with nulls in columns a part lacked, and whose reported size, row count and key range are those of the file; a scan merges the same files, and the rows still in memory, into every row once in key order.",
  over=["inputs"], text="every set of sorted parts, column types including lists, row-group and page sizes",
  why="Tests merge fixed tables with one page layout each.",
  files=[PM, F+"parquet/arrow_merger.rs", F+"parquet/mod.rs", F+"parquet/merge_data_arrays.rs"], mech=[("k-way merge of index pages and reordering of data pages", PM), ("merging of the chunks of a scan", F+"parquet/arrow_merger.rs")],
  technique="property-based testing of the merger against a sorted multiset",
  note="One or two integer key columns, up to five inputs of 200 rows."),
 dict(id="S13", title="Columns cross between the two arrow libraries unchanged",
  statement="Converting a column, whole or sliced, with or without nulls, and a schema between the storage and query representations keeps every value, null, type and field, and converting back restores the column.",
  over=["inputs"], text="every column type the store can hold, lists of them, and slices",
  why="The tests convert two fixed arrays.",
  files=[F+"arrow_conversion.rs"], mech=[("FFI transfer and type table", F+"arrow_conversion.rs")],
  technique="property-based round trip and differential test on values",
  note="Types of stored tables and lists of them."),
]
