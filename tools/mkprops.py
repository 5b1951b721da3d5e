#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
C="crates/core/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook="object store registry in Storage::new (cfg hudi_sim)"):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("P01","Snapshot read equals the latest committed table state",
 "A snapshot read on a newly opened handle returns exactly the latest committed state: every live record once, in its winning version and with all its field values, and nothing else. This holds after any history of inserts, upserts, compactions (finished or pending), clusterings, insert-overwrites, partition deletes, rollbacks, cleanings and timeline archivings, on copy-on-write and merge-on-read tables, partitioned or not.",
 ["histories","schedules","configurations"],
 "For every table configuration, every writer history of completed and uncompleted actions, and every completion order of the reader's storage requests.",
 "Tests read a dozen fixed fixture tables (1-3 commits each) from a local disk; the property quantifies over all histories and storage orders.",
 [C+"table/mod.rs",C+"table/fs_view.rs",C+"table/listing.rs",C+"timeline/mod.rs",C+"file_group/mod.rs",C+"file_group/reader.rs"],
 [("pinned completed timeline","Timeline::new_from_storage"),("latest slice <= timestamp per file group","FileGroup::get_file_slice_as_of"),("replaced file groups excluded","Timeline::get_replaced_file_groups_as_of")],
 ["Table::read_snapshot"],[dict(name="completed_commits",meaning="instants visible to the handle",where="Timeline"),dict(name="partition_to_file_groups",meaning="listed file groups",where="FileSystemView")])

p("P02","Uncommitted, failed and rolled-back writes are never visible",
 "Data written by an action that has not completed (in progress, crashed at any point of its protocol, being rolled back, or rolled back) contributes no row, file slice or schema to any snapshot, time-travel, incremental or planning result. Its leftovers (partial base files, duplicate files from retried tasks, complete log blocks, empty or half-written pending timeline files) never make a query on the committed data fail.",
 ["crash_points","histories","schedules"],
 "For every crash point of every writer action, every interleaving of several writers with readers, and every point of the subsequent rollback.",
 "Fixtures hold only finished histories plus one completed rollback; no test has an in-flight action whose instant precedes a completed one, or a crash at each write step.",
 [C+"table/listing.rs",C+"table/fs_view.rs",C+"file_group/log_file/scanner.rs",C+"timeline/mod.rs"],
 [("only completed instants are loaded","TimelineSelector::try_create_instant"),("rollback command blocks","LogFileScanner::scan"),("slices/blocks of instants that are not completed are ignored","FileLister / LogFileScanner")],
 ["Table::read_snapshot","Table::read_snapshot_as_of","Table::read_incremental_records","Table::get_file_slices*"])

p("P03","A handle keeps answering from the state it was opened on",
 "Every query on one handle answers from one fixed set of completed actions, namely those complete when the handle was opened: repeating a query returns the same rows whatever other writers start, finish, roll back, compact or cluster in the meantime, as long as the files it needs have not been cleaned. A handle opened after an action completed does reflect that action.",
 ["schedules","histories"],
 "For every interleaving of queries on long-lived handles with concurrent writers, including writers whose instant time precedes already completed ones.",
 "All tests read static tables; none changes the table between or during queries.",
 [C+"table/mod.rs",C+"table/fs_view.rs",C+"timeline/mod.rs",C+"table/listing.rs"],
 [("timeline loaded once per handle","TableBuilder::build"),("range lookup bounded by the handle's latest commit","FileGroup::get_file_slice_as_of")],
 ["Table::read_snapshot","Table::get_file_slices"])

p("P04","Time travel returns the state as of the requested time",
 "A read as of time T returns exactly the records resulting from the completed actions with instant time at or before T, for any T between, at, before or after instants and in either accepted timestamp precision, and no later action (compaction, clustering, overwrite, rollback of other writes) changes that answer while the files it needs are retained. A malformed T is answered with an error or a well-defined result, never a panic.",
 ["histories","inputs","schedules"],
 "For every history, every query timestamp, and every later suffix of the history.",
 "Tests use as-of times of a few fixed commits of fixture tables.",
 [C+"table/mod.rs",C+"timeline/selector.rs",C+"timeline/instant.rs",C+"file_group/mod.rs",C+"file_group/reader.rs"],
 [("as-of slice lookup","FileGroup::get_file_slice_as_of"),("replacecommit range","TimelineSelector::select"),("log block instant range","InstantRange::is_in_range")],
 ["Table::read_snapshot_as_of","Table::get_file_slices_as_of"])

p("P05","Incremental reads return exactly the changes of their window",
 "An incremental read over (start, end] inside the active timeline, on a table that stores the record metadata fields, returns, for each live record last changed by an action completed with instant time in that window, its version as of end, and no record whose version was written at or before start or after end. (A version of the window that an older one outranks by ordering value is not a change of the record.) An omitted end means the handle's latest commit, and consecutive windows neither lose a change nor report one outside its window.",
 ["histories","inputs","schedules"],
 "For every history (with compaction, clustering, overwrite, rollback, log rollover) and every pair of window bounds.",
 "Tests cover two or three windows of fixture tables with upserts and one table overwrite.",
 [C+"table/mod.rs",C+"timeline/mod.rs",C+"file_group/builder.rs",C+"file_group/reader.rs"],
 [("file groups changed in window","Timeline::get_file_groups_between"),("commit-time mask","FileGroupReader::create_filtering_mask_for_base_file_records"),("log block instant range","LogFileReader::should_skip_block")],
 ["Table::read_incremental_records","Table::get_file_slices_between"])

p("P06","Storage faults give an error or the right answer, never a wrong one",
 "Under any combination of failing, slow, stalled, reordered or disconnecting storage requests (an error or disconnect may come in the middle of a body), each operation either returns the complete correct result or an error; it never panics, never hangs once its requests have been answered, and never returns partial data as success. After faults stop, the same handle (or a reopened one) answers correctly again within a bounded number of storage requests.",
 ["fault_sequences","schedules"],
 "For every assignment of faults to the storage requests of every operation, and every request completion order.",
 "No test injects a storage fault; all run on a healthy local disk.",
 [C+"storage/mod.rs",C+"storage/reader.rs",C+"table/listing.rs",C+"table/fs_view.rs",C+"timeline/mod.rs",C+"file_group/reader.rs"],
 [("error propagation with ?","Storage::*"),("view cache only replaced by complete listings","FileSystemView::load_file_groups")],
 ["all public Table / FileGroupReader operations"])

p("P07","Concurrent queries on one handle are independent and all finish",
 "Any number of queries run concurrently on one shared handle (or on clones of it) all finish and each returns what it would return alone. The result does not depend on scheduling, on the order in which storage answers or lists, or on tuning options such as listing parallelism, however small or large.",
 ["schedules","configurations"],
 "For every interleaving of concurrent operations at await points, every storage completion and listing order, and every value of the tuning options.",
 "Tests issue one query at a time with default options on a disk that lists in a fixed order.",
 [C+"table/fs_view.rs",C+"table/listing.rs",C+"table/mod.rs"],
 [("shared map of file groups","FileSystemView::partition_to_file_groups"),("bounded concurrent listing","FileLister::list_file_groups_for_relevant_partitions"),("concurrent slice reads","Table::read_snapshot_internal")],
 ["Table::*"],[dict(name="partition_to_file_groups",meaning="map shared by all clones of the handle",where="FileSystemView")])

p("P08","Dropping a query part-way leaves the handle intact",
 "A query abandoned at any suspension point (timeout, disconnect, cancelled task) has no effect on later or concurrent queries of the same handle: they finish and return the right result.",
 ["schedules","fault_sequences"],
 "For every suspension point at which any operation can be dropped.",
 "No test drops a query future before completion.",
 [C+"table/fs_view.rs",C+"table/listing.rs",C+"table/mod.rs"],
 [("listing collected into a private map before publication","FileLister / FileSystemView::load_file_groups")],
 ["Table::*"])

p("P09","Merge-on-read merging picks the right version of every record",
 "Reading a file slice with log files yields one row per record key, the version with the greatest ordering value and, among equals, the latest commit, over the base file and all committed log blocks up to the read time; with the append-only strategy it yields all of them. The outcome does not depend on how the writes were cut into log blocks, log files, versions or formats, nor on rolled-back blocks in between, and an unsupported kind of block within the read range is reported as an error instead of being ignored.",
 ["histories","inputs","configurations"],
 "For every sequence of base and log writes, block layout, file version numbering, rollback placement, ordering values (ties, negatives, late arrivals) and merge configuration.",
 "Fixtures hold at most three log files of one record each; merger unit tests use hand-made batches.",
 [C+"file_group/reader.rs",C+"file_group/log_file/scanner.rs",C+"file_group/log_file/reader.rs",C+"file_group/log_file/content.rs",C+"merge/record_merger.rs"],
 [("descending lexsort then first per key","RecordMerger::merge_record_batches"),("rollback targets","LogFileScanner::scan"),("block parsing","LogFileReader::read_next_block")],
 ["FileGroupReader::read_file_slice","Table::read_snapshot"])

p("P10","Partition pruning never drops a matching record",
 "A read with partition filters returns every committed record whose partition column values satisfy all filters, and only whole partitions: every partition of the unfiltered result either appears completely or not at all, and partitions that provably fail a filter are left out. This holds for every operator, column type, number and order of partition fields, hive-style and plain, URL-encoded and raw paths, and null/default partitions.",
 ["inputs","configurations","histories"],
 "For every partition layout and value, every filter conjunction, and every sequence of differently filtered queries on one handle.",
 "Tests use two or three fixture tables with simple values and a handful of filters.",
 [C+"table/partition.rs",C+"expr/filter.rs",C+"table/listing.rs",C+"table/fs_view.rs"],
 [("typed comparison of path segments","PartitionPruner::should_include"),("pruned listing","FileLister::list_relevant_partition_paths")],
 ["Table::read_snapshot(filters)","Table::get_file_slices(filters)","Table::get_file_slices_splits(filters)"])

p("P11","SQL over the table equals filtering the snapshot",
 "A SQL query through the DataFusion provider returns the same rows as evaluating its projection, predicate, aggregate or limit over the snapshot's rows (the read-optimized rows on merge-on-read tables), whatever the predicate shape, the number of input partitions, or the scheduling of scan tasks. Under storage faults it returns that result or an error.",
 ["inputs","schedules","fault_sequences","configurations"],
 "For every query, every table state, every scan parallelism and every interleaving and fault of the scan's storage requests.",
 "Tests run a few fixed queries on fixture tables from local disk without faults.",
 ["crates/datafusion/src/lib.rs","crates/datafusion/src/util/expr.rs",C+"table/mod.rs"],
 [("file slices to parquet scan groups","HudiDataSource::scan"),("predicate to partition filter translation","exprs_to_filters")],
 ["SessionContext::sql on HudiDataSource"])

p("P12","Planned file slices partition the snapshot exactly",
 "The file slices planned for a timestamp and filters, and their n-way splits for every n (including 0 and more than there are slices), cover every slice of that state exactly once with no empty split when there is work, and carry correct paths, sizes and record counts. Reading them one by one, in any order and in a separate reader, yields exactly the corresponding read's rows.",
 ["histories","inputs","schedules"],
 "For every table state, filter, timestamp and split count, and concurrently with writers.",
 "Tests check split sizes for a few n on fixture tables.",
 [C+"table/mod.rs",C+"table/fs_view.rs",C+"file_group/file_slice.rs",C+"file_group/reader.rs",C+"storage/mod.rs"],
 [("chunked split","Table::get_file_slices_splits_internal"),("lazy file metadata","FileSlice::load_metadata_if_needed")],
 ["Table::get_file_slices*","Table::get_file_slices_splits*","FileGroupReader::read_file_slice*"])

p("P13","The timeline lists exactly the completed actions in order",
 "The timeline of a handle holds exactly the completed commit, deltacommit and replacecommit instants present when it was opened, in ascending time order, each once and with its full metadata retrievable; the per-kind listings return the matching subset in the requested order. This holds whatever order storage lists in, whatever other files lie in the metadata folder, for either timestamp precision and in any timeline time zone including daylight-saving transitions.",
 ["histories","inputs","configurations","schedules"],
 "For every set of timeline files (pending, foreign, malformed), listing order and time zone.",
 "Tests parse a few file names and fixture timelines in UTC (and one fixed local case).",
 [C+"timeline/mod.rs",C+"timeline/instant.rs",C+"timeline/selector.rs"],
 [("file name parsing","TimelineSelector::try_create_instant"),("sort by epoch millis","Timeline::load_instants")],
 ["Table::get_timeline","Timeline::get_completed_*","Timeline::get_instant_metadata_in_json"])

p("P14","Damaged files are reported, never misread",
 "When a log, base or timeline file is truncated inside its content, torn (its tail zeroed), or vanishes between planning and reading, any operation that needs it fails with an error or returns the right answer; it never returns silently shortened data. Whatever bytes a log file's structure, a timeline file or a properties file holds, no operation panics, aborts or hangs. Damage to pending or foreign files does not affect results at all.",
 ["fault_sequences","inputs"],
 "For every file of a table, every damage kind and offset that storage or the format can reveal, and every operation.",
 "No test damages a file.",
 [C+"file_group/log_file/reader.rs",C+"file_group/log_file/content.rs",C+"file_group/log_file/avro.rs",C+"storage/mod.rs",C+"timeline/mod.rs",C+"config/util.rs"],
 [("structural checks of log blocks","LogFileReader::read_next_block"),("parquet footer checks","Storage::get_parquet_file_data")],
 ["all public Table / FileGroupReader operations"])

p("P15","Reading never changes the table and stays inside its path",
 "No read operation, successful, failing, concurrent or cancelled, issues a write, delete, copy or rename to storage, and every request it issues is for an object under the table's base path (or the documented global configuration file). Equal inputs lead to the table bytes being unchanged afterwards.",
 ["schedules","fault_sequences","histories"],
 "For every operation under every history, schedule and fault.",
 "Tests do not observe storage requests.",
 [C+"storage/mod.rs",C+"table/listing.rs",C+"table/builder.rs"],
 [("only get/head/list used","Storage")],
 ["object store request trace"])

p("P16","Read-optimized mode returns the base-file state",
 "With read-optimized mode on, a snapshot or time-travel read returns exactly the rows of the latest committed base file of each live file group at the read time, ignores log files however damaged or unsupported they are, and equals the plain read on copy-on-write tables and after everything is compacted.",
 ["histories","configurations","fault_sequences"],
 "For every merge-on-read history and every fault on log files.",
 "One test reads one fixture in this mode.",
 [C+"file_group/reader.rs",C+"config/read.rs",C+"table/mod.rs"],
 [("base file only branch","FileGroupReader::read_file_slice")],
 ["Table::read_snapshot with hoodie.read.use.read_optimized.mode"])

p("P17","Opening a table resolves its configuration or fails cleanly",
 "Opening a table succeeds exactly when its properties are readable and supported, taking table properties over user options over global defaults, and failing with an error otherwise: missing, empty or unreadable properties, missing required keys, unsupported versions or types never lead to a panic or to a handle with wrong settings. The global defaults are optional: an unreadable one does not fail the opening. Absent optional properties take Hudi's defaults, and options given by the caller take effect on every later operation.",
 ["inputs","fault_sequences","configurations"],
 "For every properties content, option set, global configuration and storage fault during opening.",
 "Tests open fixture tables and a few invalid property sets.",
 [C+"table/builder.rs",C+"config/mod.rs",C+"config/table.rs",C+"config/read.rs",C+"config/util.rs"],
 [("layered option resolution","TableBuilder::resolve_options"),("validation","TableBuilder::validate_configs")],
 ["Table::new_with_options","Table::hudi_options"])

p("P18","Field values survive every storage form",
 "For every supported column type, nested and nullable combination, and value (extremes, nulls, empty, unicode), a record reads back with the same values and types whether it sits in a base file, a parquet log block or an avro log block, and a merged read of mixed forms has the table's column types. A type that cannot be represented is reported as an error.",
 ["inputs","configurations"],
 "For every schema and every value of its types, in every storage form and block cut.",
 "One fixture has an avro log block of one flat record; parquet fixtures contain a few rows.",
 [C+"avro_to_arrow/arrow_array_reader.rs",C+"avro_to_arrow/schema.rs",C+"file_group/log_file/content.rs",C+"storage/mod.rs"],
 [("avro to arrow conversion","AvroArrowArrayReader"),("batch concatenation","Storage::get_parquet_file_data")],
 ["FileGroupReader::read_file_slice","Table::read_snapshot"])

p("P19","The reported schema is that of the latest committed data",
 "The table schema, its avro form and the partition schema reported by a handle are those of the latest completed write that carries one, regardless of which file, partition or action kind that write touched first, of pending or failed later writes, and of empty commits, compactions or partition deletes on top. Columns added by a later commit appear, with older files still readable.",
 ["histories","schedules"],
 "For every history mixing schema changes with empty, delete-partition, compaction and uncommitted actions.",
 "Tests read the schema of fixtures whose last commit is an ordinary write.",
 [C+"timeline/mod.rs",C+"table/mod.rs"],
 [("schema from latest commit's first file","Timeline::get_latest_schema")],
 ["Table::get_schema","Table::get_avro_schema","Table::get_partition_schema"])

p("P20","The Python API returns what the Rust API returns",
 "For every operation exposed to Python, the result (rows, file slices, schema, error) is the one the Rust API gives for the same arguments, also when called from several threads.",
 ["inputs","schedules"],
 "For every exposed operation, argument and thread schedule.",
 "Python tests compare a few results on fixture tables.",
 ["python/src/internal.rs","python/hudi/_internal.pyi"],
 [("blocking bridge over a global runtime","rt() in python/src/internal.rs, replaced under cfg(hudi_sim)")],
 ["hudi.HudiTable","hudi.HudiTableBuilder","hudi.HudiFileGroupReader"],hook=None)

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("ok",len(P))
except ImportError: print("written",len(P))
