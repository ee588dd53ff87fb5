From 2bf8b1962f7f0abce280b5acd5ffc6fc532e19fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 01/30] fix: keep the other files of a manifest when a delete
 empties a file

When every deleted row belongs to files that become empty, the re-insert
patch was dropped because it adds no row, although it carries the manifest
of the unmodified files. Those files disappeared from the dataset.
---
 python/src/space/core/ops/append.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..96c8aaa 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,10 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    # An external index manifest (see `append_index_manifest`) is a modification
+    # even when no new row is written.
+    if (self._patch.storage_statistics_update.num_rows == 0 and
+        not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From e4bf10be8c3e5dc521b502692a679deab64284bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 02/30] fix: delete must keep the rows on which the filter
 evaluates to null

---
 python/src/space/core/ops/delete.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..769013b 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -73,8 +73,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
           f"Invalid input file set for delete op:\n{file_set}")
 
     self._file_set = file_set
-    # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # Rows not matching the filter will be reinserted. A row also does not match
+    # when the filter is evaluated to null on it.
+    self._reinsert_filter = ~filter_ | filter_.is_null()
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From d4c581be2786bb144113cd82d7a0f73ad189ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 03/30] fix: storage statistics of a delete only account for
 rewritten files

Unmodified files were subtracted (when in the input file set) or added (when
only in the manifest), so the bytes of a snapshot drifted from its manifests.
---
 python/src/space/core/ops/delete.py | 30 ++++++-----------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 769013b..db92054 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -92,9 +92,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -108,6 +105,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
         continue
 
       # Collect statistics.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -161,17 +160,13 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       patch.deletion.index_manifest_files.append(f)
 
     # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
-    deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
+    deleted_uncompressed_bytes = (reinsert_stats.index_uncompressed_bytes -
+                                  stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -188,19 +183,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From 4a414162b4abe16afc0f96451b972924a8f3ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 04/30] fix: a delete matching no file is a no-op instead of a
 failure

---
 python/src/space/core/runners.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/runners.py b/python/src/space/core/runners.py
index 32e0744..18fb785 100644
--- a/python/src/space/core/runners.py
+++ b/python/src/space/core/runners.py
@@ -280,7 +280,11 @@ class LocalRunner(BaseReadWriteRunner):
 
   @StorageMixin.transactional
   def delete(self, filter_: pc.Expression) -> Optional[rt.Patch]:
+    data_files = self._storage.data_files(filter_)
+    # No file may contain matched rows, there is nothing to delete.
+    if not data_files.index_files:
+      return None
+
     op = FileSetDeleteOp(self._storage.location, self._storage.metadata,
-                         self._storage.data_files(filter_), filter_,
-                         self._file_options)
+                         data_files, filter_, self._file_options)
     return op.delete()
-- 
2.43.0


From c079e44829d127439ad2a0c1b945db414c455388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 05/30] fix: write column stats with the primary key type
 (int32, float32)

---
 python/src/space/core/manifests/index.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..04013e6 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -69,6 +69,7 @@ class _FieldStats:
   """A local cache for merging stats from row groups."""
 
   def __init__(self, type_: pa.DataType):
+    self._type = type_
     self._fields = _stats_subfields(type_)
 
     self._min: Any = None
@@ -98,7 +99,10 @@ class _FieldStats:
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
     return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
+        [
+            pa.array(self._min_list, self._type),
+            pa.array(self._max_list, self._type)
+        ],
         fields=self._fields)
 
 
-- 
2.43.0


From ccb758f7c55edffe6fa005c00c63f9e4611071ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 06/30] fix: read column stats of the right Parquet column

The ID of a top level column was used as the Parquet (leaf) column ID, which
is another column when a struct or record field precedes a primary key.
---
 python/src/space/core/manifests/index.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 04013e6..2341452 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -133,6 +133,7 @@ class IndexManifestWriter:
     # Key is column ID.
     self._field_stats_dict: Dict[int, _FieldStats] = {}
 
+    self._column_names = schema.names
     column_id_dict = field_id_to_column_id_dict(schema)
     for field_id_, type_ in self._stats_fields:
       column_id = column_id_dict[field_id_]
@@ -163,10 +164,18 @@ class IndexManifestWriter:
     index_compressed_bytes = 0
     index_uncompressed_bytes = 0
 
+    # Parquet columns are the leaves of the schema. Their positions are not the
+    # column IDs when there are nested fields, or in external Parquet files.
+    parquet_column_ids = {
+        parquet_metadata.schema.column(i).path: i
+        for i in range(parquet_metadata.num_columns)
+    }
+
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
       for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+        column_stats = rg_metadata.column(
+            parquet_column_ids[self._column_names[column_id]])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
-- 
2.43.0


From 1c14d01ee730d94a14f35e2467113262d7cb3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 07/30] fix: resolve filter fields by top level names for file
 pruning

The Substrait names also list nested fields, so a filter on a field after a
struct was resolved to a wrong field.
---
 .../core/manifests/falsifiable_filters.py     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..d6c7e40 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -30,7 +30,6 @@ import pyarrow.substrait as ps
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
-from substrait.type_pb2 import NamedStruct
 
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
@@ -62,7 +61,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   expr = _substrait_expr(schema, filter_)
 
   try:
-    ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -95,15 +94,15 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, primary_keys: Set[str],
-    field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
+    filter_: ExtendedExpression, field_names: List[str],
+    primary_keys: Set[str], field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
         f"Expect 1 referred expr, found: {len(filter_.referred_expr)}")
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      filter_.base_schema,
+      field_names,
       primary_keys,
       field_name_ids,
       filter_.referred_expr[0].expression)
@@ -111,7 +110,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 base_schema: NamedStruct,
+                                 field_names: List[str],
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  expr: Expression) -> Optional[pc.Expression]:
@@ -124,8 +123,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
           f"Single arg expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  base_schema, primary_keys, field_name_ids)
-  min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
+                                  field_names, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -295,10 +294,11 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(base_schema, primary_keys, field_name_ids,
+def _min_max(field_names, primary_keys, field_name_ids,
              v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
+  # Not using Substrait names that also contain the names of nested fields.
   field_index = v.selection.direct_reference.struct_field.field
-  field_name = base_schema.names[field_index]
+  field_name = field_names[field_index]
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From 8abb96adbfe70f0117bd6219d0cad02ace5e8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 08/30] fix: only prune a file for field != field when all
 values are the same

---
 python/src/space/core/manifests/falsifiable_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index d6c7e40..9cc1948 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -228,7 +228,7 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    return (l_min == r_max) & (l_max == r_min)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From 973cb45254f2482dfc69b0915ad9a021fd170f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 09/30] fix: skip file pruning for filters that can't be
 converted

Filters such as isin, string functions or implicit casts raised an error in
read and delete, instead of only disabling pruning.
---
 .../space/core/manifests/falsifiable_filters.py   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 9cc1948..781703e 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -58,16 +58,15 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
-  expr = _substrait_expr(schema, filter_)
-
   try:
+    expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
 
     return ~ff  # pylint: disable=invalid-unary-operand-type
-  except _ExpressionException as e:
+  except (_ExpressionException, pa.ArrowException) as e:
     logging.warning(
         f"Fail to build index manifest filter, query may be slower; error: {e}"
     )
@@ -122,6 +121,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
       raise _ExpressionException(
           f"Single arg expression is not supported: {expr}")
 
+    raise _ExpressionException(f"Expression is not supported: {expr}")
+
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   field_names, primary_keys, field_name_ids)
   min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
@@ -289,9 +290,11 @@ def _falsifiable_condition_field_literal(
 
 
 def _value(v: Expression):
-  return pc.scalar(
-      getattr(v.literal,
-              v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
+  literal_type = v.literal.WhichOneof("literal_type")
+  if literal_type == "null":
+    raise _ExpressionException(f"Null literal is not supported: {v}")
+
+  return pc.scalar(getattr(v.literal, literal_type))  # type: ignore[arg-type]
 
 
 def _min_max(field_names, primary_keys, field_name_ids,
-- 
2.43.0


From 28b6a4a9ca4116fcd145e8da959395ce4d3a4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 10/30] fix: insert and upsert of more than a few tens of rows

The primary key filter was a chain as deep as the number of rows; converting
it takes exponential time and exceeds the Protobuf nesting limit.
---
 python/src/space/core/ops/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 82244be..ae9ac62 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -63,7 +63,7 @@ def primary_key_filter(primary_keys: List[str],
   for key in primary_keys:
     columns.append(data.column(key).combine_chunks())
 
-  filter_ = None
+  row_filters: List[pc.Expression] = []
   filter_strs: Set[str] = set()
   for i_row in range(data.num_rows):
     row_filter = None
@@ -82,13 +82,17 @@ def primary_key_filter(primary_keys: List[str],
           f"Found duplicated primary key: {filter_str}")
 
     filter_strs.add(filter_str)
+    row_filters.append(row_filter)
 
-    if filter_ is None:
-      filter_ = row_filter
-    else:
-      filter_ |= row_filter
+  # Combine as a balanced tree; the cost of processing an expression is
+  # exponential in its depth.
+  while len(row_filters) > 1:
+    row_filters = [
+        row_filters[i] if i + 1 == len(row_filters) else row_filters[i] |
+        row_filters[i + 1] for i in range(0, len(row_filters), 2)
+    ]
 
-  return filter_
+  return row_filters[0] if row_filters else None
 
 
 def merge_patches(patches: List[Optional[rt.Patch]]) -> Optional[rt.Patch]:
-- 
2.43.0


From 2b7fb100f657c05ddb368fcd8f0c3eda88b70a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 11/30] fix: adding or removing a tag or branch must not drop
 newer commits

---
 python/src/space/core/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..7784107 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -257,6 +257,9 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # Metadata is rewritten, must not drop the changes made by other writers.
+    self.reload()
+
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -298,6 +301,9 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # Metadata is rewritten, must not drop the changes made by other writers.
+    self.reload()
+
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From b0b55a19ef857b630bb00d48c848a36a39b92cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 12/30] fix: never reuse the snapshot ID of a removed branch's
 snapshot

---
 python/src/space/core/storage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7784107..1df99c9 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -85,9 +85,8 @@ class Storage(paths.StoragePathsMixin):
 
     self._primary_keys = set(self._metadata.schema.primary_keys)
     self._current_branch = current_branch or _MAIN_BRANCH
-    self._max_snapshot_id = max(
-        [ref.snapshot_id for ref in self._metadata.refs.values()] +
-        [self._metadata.current_snapshot_id])
+    # Snapshots of removed branches are not referenced but must not be replaced.
+    self._max_snapshot_id = max(self._metadata.snapshots)
 
   @property
   def metadata(self) -> meta.StorageMetadata:
-- 
2.43.0


From dec856be69b6a09b2060734f2c0d9660d6b1056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 13/30] fix: append_parquet writes a change log, so its rows
 are in diff

---
 python/src/space/core/loaders/parquet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..aacac53 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -58,6 +58,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
       stats = _write_index_manifest(index_manifest_writer, f)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
     index_manifest_full_path = index_manifest_writer.finish()
     if index_manifest_full_path is not None:
-- 
2.43.0


From e409ebfb2db64d9fe9768862c58017fa827ba033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 14/30] fix: writing a dataset whose record field is not the
 last field

---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 96c8aaa..ea8a3a8 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -182,7 +182,6 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
 
     # Write record fields into files.
     # TODO: to parallelize it.
-    # TODO: to preserve the field order in schema.
     if self._record_address_input:
       for f in self._record_fields:
         index_data = index_data.append_column(f.name, data.column(
@@ -197,6 +196,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Index files have the field order of the physical schema.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From 5db1e2c6423c7a29eb7b84a3c89515ec350db1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 15/30] fix: append_parquet skips files without rows

An empty file in the manifests made later deletes and upserts fail. Loading
no row is skipped, as in other appends, instead of committing a snapshot.
---
 python/src/space/core/loaders/parquet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index aacac53..3243d86 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -55,12 +55,19 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch = rt.Patch()
 
     for f in self._input_files:
+      # Index files always contain rows.
+      if pq.read_metadata(f).num_rows == 0:
+        continue
+
       stats = _write_index_manifest(index_manifest_writer, f)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
       patch.change_log.added_rows.append(
           meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
+    if patch.storage_statistics_update.num_rows == 0:
+      return None
+
     index_manifest_full_path = index_manifest_writer.finish()
     if index_manifest_full_path is not None:
       patch.addition.index_manifest_files.append(
-- 
2.43.0


From 4f333b62b611e913d8f0961acba719a70c7bfa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 16/30] fix: loading external files by a relative path pattern

---
 python/src/space/core/loaders/array_record.py | 4 +++-
 python/src/space/core/loaders/parquet.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..344a308 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -16,6 +16,7 @@
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
 import glob
+from os import path
 
 import pyarrow as pa
 from typing_extensions import TypeAlias
@@ -66,7 +67,8 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    # Relative paths in metadata are relative to the dataset location.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 3243d86..7e3874c 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -16,6 +16,7 @@
 
 from typing import Optional
 import glob
+from os import path
 
 import pyarrow.parquet as pq
 
@@ -45,7 +46,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    # Relative paths in metadata are relative to the dataset location.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
-- 
2.43.0


From 09af41efabe0e75710a4641714df8b5497296862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 17/30] fix: do not prune files whose column stats are unknown

Parquet does not write min and max of large (> 4 KB) primary key values, then
the files could not be written, or their rows were missing in filtered reads,
deletes and upserts.
---
 python/src/space/core/manifests/index.py | 34 ++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 2341452..a0e38f3 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -31,6 +31,10 @@ from space.core.schema.arrow import field_id, field_id_to_column_id_dict
 from space.core.utils import paths
 
 
+# Parquet does not write larger min and max values.
+_PARQUET_MAX_STATS_BYTES = 4096
+
+
 def _stats_subfields(type_: pa.DataType) -> List[pa.Field]:
   """Column stats struct field sub-fields."""
   return [
@@ -74,14 +78,28 @@ class _FieldStats:
 
     self._min: Any = None
     self._max: Any = None
+    # True if the values of the current file may not be in [_min, _max].
+    self._unknown = False
 
     # _min and _max cache the stats of one file; after finalizing they are
     # moved to _min_list and _max_list that cache stats of all files.
     self._min_list: List[Any] = []
     self._max_list: List[Any] = []
 
-  def merge(self, stats: pq.Statistics) -> None:
-    """Merge the cached stats with a new stats."""
+  def merge(self, column: pq.ColumnChunkMetaData) -> None:
+    """Merge the cached stats with the stats of a Parquet column chunk."""
+    stats = column.statistics
+    if stats is None or not stats.has_min_max:
+      self._unknown = True
+      return
+
+    # A max value (string, binary) that is too large is not written by Parquet
+    # and is read as empty.
+    if (stats.max in ("", b"") and
+        column.total_uncompressed_size > _PARQUET_MAX_STATS_BYTES):
+      self._unknown = True
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -90,11 +108,13 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    # Null stats are not used for pruning.
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
@@ -176,7 +196,7 @@ class IndexManifestWriter:
       for column_id, field_stats in self._field_stats_dict.items():
         column_stats = rg_metadata.column(
             parquet_column_ids[self._column_names[column_id]])
-        field_stats.merge(column_stats.statistics)
+        field_stats.merge(column_stats)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
 
@@ -246,6 +266,10 @@ def read_index_manifests(manifest_path: str,
   Returns:
     A file set of data files in the manifest file.
   """
+  # The filter is null on the files that have no column stats, keep them.
+  if filter_ is not None:
+    filter_ = filter_ | filter_.is_null()
+
   table = pq.read_table(manifest_path,
                         filters=filter_)  # type: ignore[arg-type]
 
-- 
2.43.0


From 5c643f4c2e977b157ebbfa06bad2956b5f0859d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 18/30] fix: Ray delete of rows in several files of the same
 manifest

Every file was processed by its own task, and each task carried over the
other files of the manifest, so deleted rows came back and rows were
duplicated.
---
 python/src/space/ray/ops/delete.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..24664ad 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,7 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from typing import Dict, List, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -45,11 +45,18 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     metadata = self._storage.metadata
     matched_file_set = self._storage.data_files(self._filter)
 
-    remote_delete_patches = []
+    # A task must process all matched files of a manifest, because it rewrites
+    # the manifest and carries over the files it does not modify.
+    manifest_index_files: Dict[int, List[rt.DataFile]] = {}
     for index_file in matched_file_set.index_files:
+      manifest_index_files.setdefault(index_file.manifest_file_id,
+                                      []).append(index_file)
+
+    remote_delete_patches = []
+    for index_files in manifest_index_files.values():
       # Deletion only needs index file information (no record file information).
       file_set = rt.FileSet(
-          index_files=[index_file],
+          index_files=index_files,
           # TODO: attach all manifest files here, to select related manifests.
           index_manifest_files=matched_file_set.index_manifest_files)
 
-- 
2.43.0


From 6cdfe389b40cbc86111cdda23dfbb3c082619798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 19/30] fix: refresh of a materialized view uses the latest
 snapshots

A stale handle missed source changes or applied the changes that were already
applied by another handle. Refreshing an up-to-date view is a no-op.
---
 python/src/space/ray/runners.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..a6cd447 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -179,6 +179,10 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    # The changes to apply are computed from the latest snapshots.
+    self._source_storage.reload()
+    self._storage.reload()
+
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
@@ -193,6 +197,9 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     start_snapshot_id = self._storage.metadata.current_snapshot_id
 
     job_results: List[JobResult] = []
+    if start_snapshot_id == end_snapshot_id:
+      return job_results
+
     patches: List[Optional[rt.Patch]] = []
     previous_snapshot_id: Optional[int] = None
 
-- 
2.43.0


From 47ecde1dea9b23b54300042739f7ced7438e0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 20/30] fix: refresh after deleting source rows that are not in
 the view

---
 python/src/space/ray/runners.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index a6cd447..b24467c 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -252,9 +252,13 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     if filter_ is None:
       return None
 
+    data_files = self._storage.data_files(filter_)
+    # The rows may not be in the view, e.g., they are filtered out.
+    if not data_files.index_files:
+      return None
+
     op = FileSetDeleteOp(self._storage.location, self._storage.metadata,
-                         self._storage.data_files(filter_), filter_,
-                         self._file_options)
+                         data_files, filter_, self._file_options)
     return op.delete()
 
   def _process_append(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
-- 
2.43.0


From 6f05e745e1c924fb4871abf4a3a4d18e0be2f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 21/30] fix: refresh keeps the snapshot ID of a view in sync
 with its source

Refresh resumes from the source snapshot whose ID is the view's snapshot ID,
but the view's IDs were assigned consecutively. They diverged when source
changes do not modify the view, or source snapshot IDs have gaps (branches),
then changes were applied twice or refresh failed.
---
 python/src/space/core/storage.py | 23 ++++++++++++++++++-----
 python/src/space/ray/runners.py  |  5 +++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 1df99c9..fdd1d75 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -317,7 +317,10 @@ class Storage(paths.StoragePathsMixin):
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
 
-  def commit(self, patch: rt.Patch, branch: str) -> None:
+  def commit(self,
+             patch: rt.Patch,
+             branch: str,
+             snapshot_id: Optional[int] = None) -> None:
     """Commit changes to the storage.
 
     TODO: only support a single writer; to ensure atomicity in commit by
@@ -326,10 +329,18 @@ class Storage(paths.StoragePathsMixin):
     Args:
       patch: a patch describing changes made to the storage.
       branch: the branch this commit is writing to.
+      snapshot_id: the ID of the new snapshot, default to the next ID.
     """
     new_metadata = meta.StorageMetadata()
     new_metadata.CopyFrom(self._metadata)
-    new_snapshot_id = self._next_snapshot_id()
+    if snapshot_id is None:
+      new_snapshot_id = self._next_snapshot_id()
+    elif snapshot_id > self._max_snapshot_id:
+      new_snapshot_id = self._max_snapshot_id = snapshot_id
+    else:
+      raise errors.SpaceRuntimeError(
+          f"Snapshot ID {snapshot_id} is not higher than existing snapshots")
+
     if branch != _MAIN_BRANCH:
       branch_snapshot = self.lookup_reference(branch)
       # To block the case delete branch and add a tag during commit
@@ -558,8 +569,10 @@ class Transaction:
     self._branch = storage.current_branch
     self._result: Optional[JobResult] = None
 
-  def commit(self, patch: Optional[rt.Patch]) -> None:
-    """Commit the transaction."""
+  def commit(self,
+             patch: Optional[rt.Patch],
+             snapshot_id: Optional[int] = None) -> None:
+    """Commit the transaction, optionally as a given new snapshot ID."""
     assert self._result is None
 
     # Check that no other commit has taken place.
@@ -577,7 +590,7 @@ class Transaction:
       self._result = JobResult(JobResult.State.SKIPPED)
       return
 
-    self._storage.commit(patch, self._branch)
+    self._storage.commit(patch, self._branch, snapshot_id)
     self._result = JobResult(JobResult.State.SUCCEEDED,
                              patch.storage_statistics_update)
 
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index b24467c..cefafa2 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -210,7 +210,8 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       # Commit when changes from the same snapshot end.
       if (previous_snapshot_id is not None and
           change.snapshot_id != previous_snapshot_id):
-        txn.commit(utils.merge_patches(patches))
+        # The view's snapshot ID is the ID of the source snapshot it is synced to.
+        txn.commit(utils.merge_patches(patches), previous_snapshot_id)
         patches.clear()
 
         # Stop early when something is wrong.
@@ -237,7 +238,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       previous_snapshot_id = change.snapshot_id
 
     if patches:
-      txn.commit(utils.merge_patches(patches))
+      txn.commit(utils.merge_patches(patches), previous_snapshot_id)
       job_results.append(txn.result())
 
     return job_results
-- 
2.43.0


From 4e686766765a3091da610af9fe91691c7a3571f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 22/30] fix: join when a side has no rows in a join key range

---
 python/src/space/ray/ops/join.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..e3a081b 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -96,7 +96,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema))
 
     return ray.data.from_arrow_refs(results)
 
@@ -110,10 +110,11 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_schema: pa.Schema) -> pa.Table:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
   if left_data is None or right_data is None:
-    return None
+    # A Ray block can't be None.
+    return output_schema.empty_table()
 
   # PyArrow does not support joining struct, so tables are flattened.
   # TODO: we only flatten/fold record addresses field. If any other fields are
@@ -133,8 +134,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
   if right.reference_read:
     result = _fold_addresses(result, right.record_fields)
 
-  # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  # output_schema is used for re-ordering fields.
+  return result.select(output_schema.names)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From d16f64d92456c0b89f626e933653813d8f0461a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 23/30] fix: join of a view whose field IDs differ from its
 source dataset

---
 python/src/space/ray/ops/join.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index e3a081b..5dd6ded 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -147,7 +147,9 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
-  schema = input_.view.schema
+  # Column stats use the field IDs of the storage, not the ones of the view.
+  storage = singleton_storage(input_.view)
+  schema = storage.physical_schema
   field_name_ids = arrow.field_name_to_id_dict(schema)
   if field_name not in field_name_ids:
     raise errors.UserInputError(
@@ -157,7 +159,7 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
+  for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-- 
2.43.0


From 2d51a85bc3d69a3ad345b002f154620418218e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 24/30] fix: loading an empty ArrayRecord file

---
 python/src/space/core/ops/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index ae9ac62..41a89bd 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -47,7 +47,8 @@ def address_column(file_path: str, start_row: int,
   """Construct an record address column by a file path and row ID range."""
   return pa.StructArray.from_arrays(
       [
-          [file_path] * num_rows,  # type: ignore[arg-type]
+          pa.array([file_path] * num_rows,
+                   pa.string()),  # type: ignore[arg-type]
           np.arange(start_row, start_row + num_rows, dtype=np.int32)
       ],
       fields=arrow.record_address_types())  # type: ignore[arg-type]
-- 
2.43.0


From 5a0deaf84fa5b7ed4c9be57303c9fc22b40c1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 25/30] fix: random access drops records that are addressed
 more than once

---
 python/src/space/core/random_access.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..b9f37c8 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -271,7 +271,8 @@ def build_file_instructions(
       if i == len(indexes) - 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
-      elif indexes[i + 1] > idx + 1:
+      elif indexes[i + 1] != idx + 1:
+        # Not consecutive, or the same record is addressed again.
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
         start = indexes[i + 1]
-- 
2.43.0


From ff92f8fe67c8c37bfe949c7838168f8f10c1f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 26/30] fix: reference reads return batches larger than the
 batch size

---
 python/src/space/core/ops/read.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index 9094b91..9b9ed1d 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -110,7 +110,13 @@ class FileSetReadOp(BaseReadOp, StoragePathsMixin):
         index_data = index_data.slice(file.row_slice.start, length)
 
       if self._options.reference_read:
-        yield index_data
+        if row_range_read:
+          yield index_data
+        else:
+          for batch in index_data.to_batches(
+              max_chunksize=self._options.batch_size):
+            yield pa.table(batch)
+
         continue
 
       index_column_ids: List[int] = []
-- 
2.43.0


From 673ff75412c71f40558bdf05b0de01e35e6492cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 27/30] fix: join does not modify the caller's lists of fields

---
 python/src/space/core/views.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/views.py b/python/src/space/core/views.py
index be15326..9f6b5c1 100644
--- a/python/src/space/core/views.py
+++ b/python/src/space/core/views.py
@@ -200,20 +200,23 @@ class View(ABC):
     if not (join_key in left.primary_keys and join_key in right.primary_keys):
       raise errors.UserInputError("Join key must be primary key on both sides")
 
-    def _sanitize_fields(field_names: List[str]) -> None:
+    def _sanitize_fields(field_names: List[str]) -> List[str]:
       nonlocal join_key
       if not field_names or field_names == [join_key]:
         raise errors.UserInputError(
             "Join requires reading at least one non-join key")
 
+      # The list belongs to the caller, do not modify it.
       if join_key not in field_names:
-        field_names.append(join_key)
+        return field_names + [join_key]
+
+      return field_names
 
     if left_fields is not None:
-      _sanitize_fields(left_fields)
+      left_fields = _sanitize_fields(left_fields)
 
     if right_fields is not None:
-      _sanitize_fields(right_fields)
+      right_fields = _sanitize_fields(right_fields)
 
     # pylint: disable=cyclic-import,import-outside-toplevel
     from space.core.transform.join import JoinTransform
-- 
2.43.0


From 483902245d882eeec6ee5b2ab0d62279988802e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 28/30] fix: views do not modify the caller's read options

---
 python/src/space/core/transform/udfs.py  | 4 ++--
 python/src/space/core/transform/utils.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/transform/udfs.py b/python/src/space/core/transform/udfs.py
index ff2ad05..744a255 100644
--- a/python/src/space/core/transform/udfs.py
+++ b/python/src/space/core/transform/udfs.py
@@ -16,7 +16,7 @@
 
 from __future__ import annotations
 from abc import abstractmethod
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from os import path
 from typing import Dict, List, Tuple
 
@@ -110,7 +110,7 @@ class BaseUdfTransform(View):
           "`fields` is not supported for views, use `input_fields` of "
           "transforms (map_batches, filter) instead")
 
-    read_options.fields = self.input_fields
+    read_options = replace(read_options, fields=self.input_fields)
     return self._transform(
         transform_utils.ray_dataset(self.input_, ray_options, read_options))
 
diff --git a/python/src/space/core/transform/utils.py b/python/src/space/core/transform/utils.py
index eba2bf7..b6ee082 100644
--- a/python/src/space/core/transform/utils.py
+++ b/python/src/space/core/transform/utils.py
@@ -15,6 +15,7 @@
 """Utilities for transforms."""
 
 from __future__ import annotations
+from dataclasses import replace
 from typing import TYPE_CHECKING
 
 from space.core.datasets import Dataset
@@ -37,7 +38,7 @@ def ray_dataset(view: View, ray_options: RayOptions,
 
   # For non-dataset views, fields can't be pushed down to storage.
   fields = read_options.fields
-  read_options.fields = None
+  read_options = replace(read_options, fields=None)
   ds = view._ray_dataset(ray_options, read_options, empty_join_options)  # pylint: disable=protected-access
 
   return ds if fields is None else ds.select_columns(fields)
-- 
2.43.0


From c67806b7fb91a2bd62c53daa02c9f367774fe892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 29/30] fix: random access does not modify the caller's feature
 fields

---
 python/src/space/core/random_access.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index b9f37c8..adbed76 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -162,6 +162,8 @@ class RandomAccessDataSource(AbcSequence):
       use_array_record_data_source: use ArrayRecordDataSource if true, it only
         supports one feature field.
     """
+    # The dict belongs to the caller, do not modify it.
+    feature_fields = dict(feature_fields)
     storages: Dict[str, Storage] = {}
     for field, storage_or_location in feature_fields.items():
       if isinstance(storage_or_location, str):
-- 
2.43.0


From 0541ee1f080c9e646638a4d896a8e68adef3d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 30/30] fix: a refresh can be repeated after its commit failed

An explicit snapshot ID was taken for used before the commit was written, so
after an I/O error the same handle refused to commit it again.
---
 python/src/space/core/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index fdd1d75..49a1dcf 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -336,7 +336,7 @@ class Storage(paths.StoragePathsMixin):
     if snapshot_id is None:
       new_snapshot_id = self._next_snapshot_id()
     elif snapshot_id > self._max_snapshot_id:
-      new_snapshot_id = self._max_snapshot_id = snapshot_id
+      new_snapshot_id = snapshot_id
     else:
       raise errors.SpaceRuntimeError(
           f"Snapshot ID {snapshot_id} is not higher than existing snapshots")
@@ -381,6 +381,7 @@ class Storage(paths.StoragePathsMixin):
     self._write_metadata(new_metadata_path, new_metadata)
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
+    self._max_snapshot_id = new_snapshot_id
 
   def data_files(self,
                  filter_: Optional[pc.Expression] = None,
-- 
2.43.0

