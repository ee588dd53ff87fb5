"""Writes properties.jsonl (a convenience; the jsonl is what counts)."""
import json
S = "python/src/space/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text),
      why_tests_cant=why,
      anchors=dict(files=[S + f for f in files],
                   state=[dict(name=n, meaning=m, where=S + w) for n, m, w in (state or [])],
                   mechanism=[dict(name=n, where=S + w) for n, w in mech],
                   observe_at=observe, hook_needed=None)))


p("C01", "Writes change the dataset exactly like a table with a primary key",
  "After any sequence of append, append_from, insert, upsert and delete, through any handle, reading the dataset returns exactly the multiset of rows (including record field bytes and nulls) that the same sequence produces on a plain in-memory table: append adds the given rows, insert adds them only if no primary key exists or repeats, upsert replaces the rows with the given primary keys, delete removes exactly the rows for which the filter is true.",
  ["histories", "inputs", "configurations"],
  "every history of write operations, every supported schema (key types and positions, composite keys, nested and record fields), every data, delete filter and file layout",
  "Tests run a few fixed histories on one or two schemas with one file per write; the interplay of several files per manifest, partially and completely deleted files, multi-column keys, nulls and nested columns is a product no fixed list covers.",
  ["core/runners.py", "core/ops/append.py", "core/ops/insert.py", "core/ops/delete.py", "core/ops/utils.py", "core/storage.py", "core/manifests/index.py"],
  [("append writes index/record files and a manifest", "core/ops/append.py"), ("delete re-inserts survivors and carries over untouched files", "core/ops/delete.py"), ("upsert = delete + append in one patch", "core/ops/insert.py"), ("manifest list patching", "core/storage.py")],
  ["local().read_all()", "JobResult.state"])

p("C02", "Committed snapshots never change (time travel)",
  "Reading a dataset at a snapshot ID or tag returns exactly the rows, including record bytes, that were current when that snapshot was committed, no matter which writes, deletes, branch or tag operations happen afterwards or which handle reads. A version that does not exist is reported as not found.",
  ["histories", "inputs"],
  "every history of commits, every version in it, read at every later point",
  "Tests read one or two earlier versions after one or two writes; later deletes that rewrite shared manifests, several branches and stale handles are not sampled.",
  ["core/storage.py", "core/runners.py", "core/ops/read.py", "core/ops/delete.py", "core/ops/append.py"],
  [("snapshots keep their own manifest lists", "core/storage.py"), ("files are never modified in place", "core/ops/delete.py"), ("version resolution", "core/storage.py")],
  ["local().read_all(version=...)", "index_files(version)", "versions()"],
  [("snapshots", "snapshot ID -> manifest files", "core/storage.py")])

p("C03", "Branches are isolated; tags, branches and snapshot IDs are reliable",
  "A write changes only the branch that is current for its handle; all other branches and every tag keep their contents. Creating and removing tags and branches is durable for every handle, affects only that name, is refused when the name is empty, reserved, taken, missing or of the wrong kind, and every commit gets a snapshot ID greater than every ID used before in the dataset.",
  ["histories", "inputs"],
  "every history of writes, branch/tag create/remove/switch operations through several handles",
  "Tests cover a single branch and a handful of reference operations from one handle; removing branches, stale handles and interleaved commits on several branches are not covered.",
  ["core/storage.py", "core/datasets.py"],
  [("reference add/remove rewrites metadata after reload", "core/storage.py"), ("commit moves only the current branch", "core/storage.py"), ("snapshot ID allocation", "core/storage.py")],
  ["versions()", "read_all(version=branch or tag)", "raised errors"],
  [("refs", "tags and branches", "core/storage.py"), ("current branch", "per handle", "core/storage.py")])

p("C04", "A filtered or projected read returns exactly the matching rows",
  "read/read_all with a filter, a field list, a version and any batch size returns exactly the rows of that version for which the filter evaluates to true, with exactly the requested fields and unchanged values, independent of how rows are spread over files, row groups and manifests; file pruning and batching are never observable, except that no batch exceeds the batch size.",
  ["inputs", "configurations", "histories"],
  "every supported filter expression (comparisons, and/or, not over non-key fields, field-to-field, null tests, isin), field subset, batch size, data and layout",
  "Tests use a few filters on data where the pruned file is obvious; a pruning rule that is wrong for boundary values, nulls, reversed or nested operands only shows on specific data ranges.",
  ["core/ops/read.py", "core/manifests/falsifiable_filters.py", "core/manifests/index.py", "core/storage.py", "core/schema/substrait.py", "core/schema/arrow.py", "core/runners.py"],
  [("filter to manifest (min/max) filter translation", "core/manifests/falsifiable_filters.py"), ("column stats collection", "core/manifests/index.py"), ("column selection and record lookup", "core/ops/read.py")],
  ["local().read(filter_, fields, version, batch_size)"])

p("C05", "diff returns exactly what each snapshot changed",
  "For any ancestor and descendant versions, diff returns, in commit order, for every snapshot first the primary keys of exactly the rows it deleted and then exactly the rows it added, so that replaying the changes on the ancestor's contents gives the descendant's contents. If the start version is not an ancestor of the end version, it is refused.",
  ["histories", "inputs", "configurations"],
  "every history and every pair of versions, across branches and batch sizes",
  "Tests check three hand-written histories with single-file snapshots; change bitmaps of partially deleted files, repeated deletes, upserts over several files and branches are not sampled.",
  ["core/ops/change_data.py", "core/ops/append.py", "core/ops/delete.py", "core/ops/utils.py", "core/ops/read.py", "core/storage.py"],
  [("change log written with each commit", "core/storage.py"), ("deleted-row bitmaps", "core/ops/delete.py"), ("ancestor walk", "core/ops/change_data.py")],
  ["local().diff(start, end)"],
  [("change log", "added/deleted row bitmaps per snapshot", "core/ops/change_data.py")])

p("C06", "A crash at any point leaves the state before or after the operation",
  "If the writing process dies at any point of create, append, insert, upsert, delete, a load of external files, or a tag/branch operation, then loading the dataset from its files afterwards shows either exactly the state before the operation or exactly the state after it (for every version, tag and branch), and the dataset accepts further operations. A crash while a view is materialized or refreshed leaves a materialized view that holds the view's rows at a source version from where it was up to the target, and that can be refreshed on.",
  ["crash_points", "histories"],
  "every crash point (observable change of the files) inside every kind of operation, over generated prior histories",
  "No test kills an operation half way.",
  ["core/storage.py", "core/fs/arrow.py", "core/ops/append.py", "core/ops/delete.py", "core/runners.py"],
  [("files are written before the metadata that refers to them", "core/storage.py"), ("metadata and entry point are replaced by write-to-temporary and move", "core/fs/arrow.py")],
  ["Dataset.load() on a copy of the files at the crash point"])

p("C07", "A failed operation changes nothing and leaves the handle usable",
  "If an operation fails (invalid or conflicting input, an error in the caller's data source, or an I/O error at any file system access), no version, tag or branch changes its contents, and the same handle and all others keep working afterwards; an operation that reports success is visible and durable.",
  ["fault_sequences", "inputs", "histories"],
  "every kind of operation, every failing file system access inside it and every failing element of its input, over generated prior histories",
  "Tests check a handful of rejected inputs; none injects an I/O error or checks the state and the handle afterwards.",
  ["core/storage.py", "core/runners.py", "core/fs/arrow.py", "core/ops/append.py", "core/ops/insert.py", "core/ops/delete.py"],
  [("transaction wrapper", "core/runners.py"), ("metadata replaced last; in-memory metadata updated after the files", "core/storage.py")],
  ["read_all() of all versions through old and new handles", "JobResult", "raised errors"])

p("C08", "Concurrent commits never lose updates",
  "If another handle commits to the same branch while an operation is running, the operation reports failure and changes nothing; if only other branches, tags or versions changed meanwhile, it succeeds and keeps all of these changes. A handle that was opened before other handles' commits reads and writes on top of them.",
  ["schedules", "histories"],
  "every interleaving of one operation with operations of other handles at the points where the operation consumes input or accesses its files",
  "One test exercises a single conflicting append; interleavings with other operation kinds, branches and reference operations are not covered.",
  ["core/storage.py", "core/runners.py"],
  [("optimistic check of the snapshot at commit", "core/storage.py"), ("reload before each operation", "core/runners.py")],
  ["JobResult.state", "read_all() through every handle"],
  [("transaction start snapshot", "detects conflicting commits", "core/storage.py")])

p("C09", "Job results, statistics and manifests tell the truth",
  "Every operation reports SUCCEEDED, SKIPPED or FAILED according to what it did, and its reported row change equals the real one. For every snapshot the stored row count equals the number of readable rows, byte statistics equal the totals of the manifests, each manifest entry describes an existing file with exact row counts and primary key bounds that contain every key in it, and no file is listed twice. versions() lists every snapshot with the time of its commit.",
  ["histories", "inputs", "configurations"],
  "every history of operations, every schema and file layout",
  "Tests compare statistics after single operations with constants; sums that drift over histories, several files or row groups per manifest, and bounds over many row groups are not covered.",
  ["core/manifests/index.py", "core/manifests/record.py", "core/ops/append.py", "core/ops/delete.py", "core/ops/utils.py", "core/storage.py", "core/jobs.py"],
  [("manifest writers", "core/manifests/index.py"), ("statistics updates and merging", "core/ops/utils.py"), ("job results", "core/storage.py")],
  ["JobResult", "storage.snapshot(id).storage_statistics", "storage.index_manifest()", "storage.record_manifest()", "index_files()", "versions()"])

p("C10", "Schemas survive storage exactly; bad definitions are refused",
  "A dataset created with any supported schema, primary keys and record fields reports the same schema, keys and record fields after loading, and its reads return tables with those fields and types. Invalid definitions (missing or unsupported keys, unknown or unsupported record fields) and creating over an existing dataset are refused without changing any existing data.",
  ["inputs", "configurations"],
  "every schema built from the supported types, nested to several levels, in every field order; invalid variations of it",
  "Tests convert a few fixed schemas; field order, depth and nesting combinations (which determine field IDs and column mapping) are not enumerated.",
  ["core/schema/arrow.py", "core/schema/substrait.py", "core/schema/field_ids.py", "core/schema/utils.py", "core/storage.py", "core/schema/types/files.py", "core/schema/types/tf_features.py"],
  [("Arrow <-> Substrait conversion", "core/schema/substrait.py"), ("field ID assignment", "core/schema/field_ids.py"), ("validation", "core/schema/utils.py")],
  ["Dataset.load().schema/primary_keys/record_fields", "read_all().schema", "raised errors"])

p("C11", "Record fields return the bytes stored, by read and by random access",
  "For every row, each record field reads back the exact bytes written, through normal reads, through address (reference) reads resolved by the random access data source in any order, singly or in batches, with one or several feature fields, and after deletes, upserts and record file rollover; serialized features deserialize to the values that were serialized.",
  ["inputs", "histories", "configurations"],
  "every history, record sizes, rollover limits, index lists and data source configuration",
  "Tests use a few rows in one or two record files and read them in order; address arithmetic across batches, files, deletes and non-contiguous rows is not sampled.",
  ["core/ops/append.py", "core/ops/read.py", "core/random_access.py", "core/fs/array_record.py", "core/ops/utils.py", "core/serializers/base.py", "core/schema/types/tf_features.py"],
  [("record address columns", "core/ops/utils.py"), ("record lookup grouped by file", "core/ops/read.py"), ("file instructions", "core/random_access.py")],
  ["read_all()", "read_all(reference_read=True)", "RandomAccessDataSource", "serializer()"])

p("C12", "Loading external files equals appending their rows, without touching them",
  "append_parquet and append_array_record of any set of files make exactly the rows of the matched files part of the dataset (as if appended), with working filters, diffs, deletes and upserts afterwards, and never modify, copy over or delete the external files. Patterns that match nothing or only empty files leave the dataset unchanged.",
  ["inputs", "histories", "configurations"],
  "every set of external files (number, sizes, row groups, empty files, relative or absolute patterns) and later operations",
  "Tests load one or two files with one schema and do not operate on them afterwards.",
  ["core/loaders/parquet.py", "core/loaders/array_record.py", "core/ops/append.py", "core/manifests/index.py"],
  [("manifest entries for external Parquet files", "core/loaders/parquet.py"), ("addresses into external ArrayRecord files", "core/loaders/array_record.py")],
  ["append_parquet/append_array_record", "read_all", "diff", "bytes of the external files"])

p("C13", "A catalog finds exactly the datasets and views created in it",
  "A directory catalog lists exactly the datasets created in it, opens each by name with the schema, keys and data it was created with, opens materialized views with their data, refuses to create a name twice without harming the existing one, and reports unknown names as not found.",
  ["histories", "inputs"],
  "every history of catalog operations, names, and writes to the opened datasets",
  "Tests create two datasets and a view with fixed names.",
  ["catalogs/directory.py", "catalogs/base.py", "core/views.py", "core/storage.py"],
  [("name to location mapping", "catalogs/directory.py"), ("storage type dispatch", "catalogs/directory.py")],
  ["DirCatalog.create_dataset/materialize/dataset/datasets"])

p("C14", "The Ray runner does what the local runner does",
  "For any history of append, append_from, insert, upsert and delete and any read (filter, fields, version, batch size) or diff, the Ray runner with any parallelism and options yields the same job outcomes, contents, statistics and changes as the local runner.",
  ["histories", "inputs", "configurations"],
  "every history and read on both runners, every parallelism, row range option and file layout",
  "Tests for Ray run a few fixed histories with one option set and need a Ray cluster.",
  ["ray/runners.py", "ray/ops/append.py", "ray/ops/delete.py", "ray/ops/insert.py", "ray/ops/change_data.py", "ray/ops/utils.py", "ray/data_sources.py"],
  [("parallel append merge", "ray/ops/append.py"), ("per-file delete tasks and patch merge", "ray/ops/delete.py"), ("row range read tasks", "ray/data_sources.py")],
  ["ds.ray(...)", "ds.local()"])

p("C15", "A view is its function applied to the rows of its source",
  "Reading a view built from any chain of map_batches and filter over a dataset returns exactly the rows obtained by applying these functions to the source rows at that version, with the declared output schema, for any batch size and parallelism; diff of the view applies them to the added rows. Loading a materialized view restores a view that computes the same.",
  ["programs", "inputs", "configurations"],
  "every chain of transforms, field selections, source history, version and batch size",
  "Tests use one or two fixed transforms on a few rows.",
  ["core/views.py", "core/transform/udfs.py", "core/transform/plans.py", "core/transform/utils.py", "ray/runners.py"],
  [("transform application", "core/transform/udfs.py"), ("logical plan building and loading", "core/transform/plans.py")],
  ["view.ray().read_all()", "view.ray().diff()", "MaterializedView.load().view"])

p("C16", "A refreshed materialized view equals its view",
  "After refresh to a target version (default: latest), a materialized view contains exactly the rows its view yields on the source at that version, at any point of any history of source writes (appends, upserts, deletes, several snapshots at once, commits on branches), through any handle including re-loaded ones; refreshing again changes nothing, and a target that is ahead of the source's main branch is refused. When two refreshes of the same view overlap (outside the window between the conflict check and the replacement of the entry point), the view still holds what it yields at one source version, not before those reported as done, and further refreshes work.",
  ["histories", "programs", "configurations"],
  "every source history with refreshes in between, every view and target version",
  "One test refreshes twice over a fixed history and needs a Ray cluster.",
  ["ray/runners.py", "core/views.py", "core/transform/udfs.py", "ray/ops/change_data.py", "core/ops/change_data.py", "core/storage.py"],
  [("refresh applies diffs snapshot by snapshot", "ray/runners.py"), ("view snapshot IDs follow the source", "core/storage.py")],
  ["mv.ray().refresh()", "mv.ray().read_all()", "mv.local().read_all()"])

p("C17", "A join is the relational inner join",
  "Joining two datasets or views on a shared primary key returns exactly one row per matching pair of rows, with the selected fields of both sides, for every partitioning of the key range, parallelism, and key type; partitioning is never observable.",
  ["inputs", "configurations", "programs"],
  "every pair of contents, key distribution, field selection and partition function that covers the key range",
  "Tests join two small tables with one partition function.",
  ["ray/ops/join.py", "core/transform/join.py", "core/views.py", "ray/ops/utils.py"],
  [("key range computation and partition filters", "ray/ops/join.py"), ("join schema", "core/transform/join.py")],
  ["left.join(right, keys).ray().read_all(join_options=...)"])

p("C18", "A dataset is self-contained and layout options never show",
  "A dataset's directory can be copied or moved as a whole and opened elsewhere with all versions, tags, branches and diffs intact, and a handle that loads it fresh sees the same as the handle that wrote it. Running the same history with different file options (row group, file and record file sizes) gives the same contents, changes and row counts for every version.",
  ["configurations", "histories"],
  "every history, every file option, relocation at any point",
  "Tests never move a dataset and use default file options.",
  ["core/utils/paths.py", "core/ops/append.py", "core/storage.py", "core/options.py", "core/loaders/parquet.py"],
  [("paths stored relative to the dataset", "core/utils/paths.py"), ("file rollover", "core/ops/append.py")],
  ["Dataset.load() at a new place", "read_all/diff of all versions"])

p("C19", "Reading has no effects, and arguments are left as they were",
  "Reading, diffing, listing versions and files, loading, random access, and building and reading views and joins create, change or remove no file of a dataset, and give the same result when they are repeated, however they are used (filters, fields, versions, references, batch sizes, iterators given up early, local or Ray). No operation, reading or writing, changes the objects it gets as arguments: data, schemas, lists of fields and keys, filters, options.",
  ["inputs", "histories", "configurations"],
  "every reading operation with every combination of options at any point of a history, and every argument of reads, writes and definitions",
  "Tests use literal arguments once and compare only results, so an argument that is changed in place, or a file that reading leaves behind or touches, goes unseen.",
  ["core/ops/read.py", "core/runners.py", "core/random_access.py", "core/views.py", "core/transform/join.py", "ray/runners.py", "ray/ops/join.py", "core/storage.py", "core/datasets.py"],
  [("read options are passed down through views", "core/views.py"), ("join field lists", "core/transform/join.py"), ("feature fields and addresses", "core/random_access.py")],
  ["files of the dataset before and after", "the arguments before and after", "the results of two runs"])

p("C20", "An open reader keeps to the version it was opened at",
  "What a local read, a diff or a random access source returns over its whole life is exactly what its version held when it was opened (the head of the handle's branch, or the given version), also when commits, branch and tag operations, switching or reloading through the same or another handle happen between its batches. Record addresses obtained by a reference read stay valid. A write may be fed by a reader of the dataset it writes to.",
  ["histories", "schedules"],
  "every interleaving of the batches of open readers with operations of any handle",
  "Tests drain every reader before the next write, so a reader that resolves its version or files late, or files that go away or change below it, are not seen.",
  ["core/runners.py", "core/ops/read.py", "core/ops/change_data.py", "core/random_access.py", "core/storage.py", "core/ops/delete.py"],
  [("files and versions are resolved when a reader is opened", "core/runners.py"), ("files of old snapshots are kept and never modified", "core/ops/delete.py"), ("addresses are resolved lazily", "core/random_access.py")],
  ["local().read(...) and diff(...) iterators", "RandomAccessDataSource", "append_from of a reader"])

with open("/verif/properties.jsonl", "w") as f:
  for x in P:
    f.write(json.dumps(x) + "\n")
print(len(P))
