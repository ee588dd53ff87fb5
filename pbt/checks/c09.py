"""C09: job results, statistics and manifests tell the truth."""

import os
import time

from hypothesis import strategies as st
import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq

from engine import Suite
from lib import TYPES, call, canon_value, check
import opsgen
from sim import FAILED, OK, Sim

from array_record.python import array_record_module as ar
from space import RayOptions

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "A case is a generated history of writes, loads of external files and "
    "branches (a fifth of the cases use the Ray runner). After every operation "
    "the job result is compared with the model and with the change of the "
    "stored statistics; at the end, for every snapshot, the statistics are "
    "compared with the model's rows, with the sums over the manifests, and every "
    "manifest entry with the file it names, read with pyarrow and ArrayRecord "
    "directly. Non-trivial: a snapshot with at least two index files, and a "
    "delete or upsert that removed rows.")
ASSUMPTIONS = [
    "byte statistics count primary key columns and the record bytes given to "
    "append (pinned by the repository's tests); external ArrayRecord "
    "files are in no record manifest, their bytes are counted as they are",
    "record files are not removed from statistics by deletes (documented TODO)",
]
INDEX_BYTES = ["index_compressed_bytes", "index_uncompressed_bytes"]
STATS = ["num_rows"] + INDEX_BYTES + ["record_uncompressed_bytes"]


def stats_of(s):
  return {n: getattr(s, n) for n in STATS}


def full(sim, path):
  return path if os.path.isabs(path) else os.path.join(sim.loc, path)


def check_job(sim, what, ds):
  """The result of the operation that was just run."""
  r = sim.last_result
  if r is None:
    return
  if r.state == FAILED:
    check(r.error_message, f"{what}: FAILED without an error message")
  if r.state != OK:
    return
  sid = sim.max_id
  snap = sim.snaps[sid]
  upd = r.storage_statistics_update
  check(upd is not None, f"{what}: SUCCEEDED without a statistics update")
  check(upd.num_rows == len(snap.adds) - len(snap.dels),
        lambda: f"{what}: reported row change {upd.num_rows}, real one "
        f"{len(snap.adds)} added, {len(snap.dels)} deleted")
  new = stats_of(ds.storage.snapshot(sid).storage_statistics)
  old = stats_of(ds.storage.snapshot(snap.parent).storage_statistics)
  for n in STATS:
    check(getattr(upd, n) == new[n] - old[n],
          lambda: f"{what}: reported {n} change {getattr(upd, n)}, stored "
          f"{old[n]} -> {new[n]}")


def check_times(what, ds, times):
  """Snapshots are listed with the time of their commit."""
  t = call(what, ds.versions)
  check(str(t.schema.field("create_time").type) == "timestamp[s, tz=UTC]",
        lambda: f"{what}: create_time is {t.schema.field('create_time').type}")
  for sid, at in zip(t["snapshot_id"].to_pylist(),
                     t["create_time"].cast(pa.int64()).to_pylist()):
    lo, hi = times[sid]
    check(int(lo) <= at <= hi,
          lambda: f"{what}: snapshot {sid} was created at {at}, committed "
          f"between {lo} and {hi}")


def check_snapshot(sim, ds, sid, ctx, files_seen, loaded):
  what = f"snapshot {sid}"
  schema = sim.schema
  snap = call(what, ds.storage.snapshot, sid)
  stats = stats_of(snap.storage_statistics)
  rows = sim.snaps[sid].rows
  check(stats["num_rows"] == len(rows),
        lambda: f"{what}: num_rows {stats['num_rows']}, has {len(rows)} rows")

  entries = []
  for t in call(what, lambda: list(ds.storage.index_manifest(snapshot_id=sid))):
    check(t.num_rows > 0, f"{what}: empty index manifest")
    entries += t.to_pylist()
  paths = [e["_FILE"] for e in entries]
  check(len(paths) == len(set(full(sim, p) for p in paths)),
        lambda: f"{what}: a file is listed twice: {sorted(paths)}")
  check(sorted(call(what, ds.index_files, sid)) == sorted(
      full(sim, p) for p in paths),
        lambda: f"{what}: index_files() differs from the manifests")
  if len(paths) > 1:
    ctx.label("several_files")
  pks = [n for n in schema.names if n in schema.pks]
  addresses = {r: {} for r in schema.records}
  for e in entries:
    w = f"{what}: {e['_FILE']}"
    p = full(sim, e["_FILE"])
    if p not in files_seen:
      check(os.path.isfile(p), f"{w} does not exist")
      md = pq.read_metadata(p)
      t = pq.read_table(p)
      comp = uncomp = 0
      for g in range(md.num_row_groups):
        for c in range(md.num_columns):
          col = md.row_group(g).column(c)
          if col.path_in_schema in pks:
            comp += col.total_compressed_size
            uncomp += col.total_uncompressed_size
      files_seen[p] = (t, comp, uncomp, md.num_row_groups)
    t, comp, uncomp, groups = files_seen[p]
    if groups > 1:
      ctx.label("several_row_groups")
    check(e["_NUM_ROWS"] == t.num_rows,
          lambda: f"{w}: {e['_NUM_ROWS']} rows listed, has {t.num_rows}")
    check(t.num_rows > 0, f"{w}: no rows")
    check(e["_INDEX_COMPRESSED_BYTES"] == comp and
          e["_INDEX_UNCOMPRESSED_BYTES"] == uncomp,
          lambda: f"{w}: bytes {e['_INDEX_COMPRESSED_BYTES']}, "
          f"{e['_INDEX_UNCOMPRESSED_BYTES']}, columns have {comp}, {uncomp}")
    bounds = [n for n in e if n.startswith("_STATS")]
    check(len(bounds) == len(pks), lambda: f"{w}: statistics {bounds}")
    for n, b in zip(pks, bounds):
      lo, hi = e[b]["_MIN"], e[b]["_MAX"]
      values = t.column(n).cast(TYPES[schema.types[n]]).to_pylist()
      check(lo is None or all(lo <= v for v in values),
            lambda: f"{w}: minimum of {n} is {lo!r}, has {min(values)!r}")
      check(hi is None or all(v <= hi for v in values),
            lambda: f"{w}: maximum of {n} is {hi!r}, has {max(values)!r}")
    for r in schema.records:
      for a in t.column(r).to_pylist():
        addresses[r].setdefault(full(sim, a["_FILE"]), []).append(a["_ROW_ID"])
  check(sum(e["_NUM_ROWS"] for e in entries) == len(rows),
        lambda: f"{what}: manifests list {sum(e['_NUM_ROWS'] for e in entries)}"
        f" rows, has {len(rows)}")
  for n in INDEX_BYTES:
    total = sum(e["_" + n.upper()] for e in entries)
    check(stats[n] == total,
          lambda: f"{what}: {n} is {stats[n]}, the manifests sum to {total}")

  # One file only, selected by its number of rows.
  if entries:
    n = entries[-1]["_NUM_ROWS"]
    got = sum(t.num_rows for t in call(what, lambda: list(
        ds.storage.index_manifest(pc.field("_NUM_ROWS") == n, sid))))
    want = sum(e["_NUM_ROWS"] == n for e in entries)
    check(got == want, lambda: f"{what}: {got} manifest rows with {n} rows, "
          f"expected {want}")

  recs = []
  for t in call(what, lambda: list(ds.storage.record_manifest(snapshot_id=sid))):
    recs += t.to_pylist()
  rpaths = [full(sim, e["_FILE"]) for e in recs]
  check(len(rpaths) == len(set(rpaths)),
        lambda: f"{what}: a record file is listed twice: {sorted(rpaths)}")
  for e in recs:
    p = full(sim, e["_FILE"])
    w = f"{what}: {e['_FILE']}"
    if p not in files_seen:
      check(os.path.isfile(p), f"{w} does not exist")
      rd = ar.ArrayRecordReader(p)
      files_seen[p] = rd.num_records()
      rd.close()
    check(e["_NUM_ROWS"] == files_seen[p],
          lambda: f"{w}: {e['_NUM_ROWS']} records listed, has {files_seen[p]}")
  by_path = {full(sim, e["_FILE"]): e for e in recs}
  for r, per_file in addresses.items():
    for p, ids in per_file.items():
      if p in sim.external:
        continue
      check(p in by_path,
            lambda: f"{what}: record file {p} is in no record manifest")
      check(max(ids) < by_path[p]["_NUM_ROWS"] and min(ids) >= 0,
            lambda: f"{what}: record row {max(ids)} of {p} with "
            f"{by_path[p]['_NUM_ROWS']} records")
  total = sum(e["_UNCOMPRESSED_BYTES"] for e in recs)
  total += sum(loaded.get(s, 0) for s in sim.path_between(0, sid))
  check(stats["record_uncompressed_bytes"] == total,
        lambda: f"{what}: record bytes {stats['record_uncompressed_bytes']}, "
        f"the manifests and loaded files sum to {total}")
  parent = (snap.parent_snapshot_id
            if snap.HasField("parent_snapshot_id") else None)
  check(parent == sim.snaps[sid].parent,
        lambda: f"{what}: parent {parent}, expected {sim.snaps[sid].parent}")
  return len(paths)


def run(case, ctx):
  old = os.environ.get("TZ")
  if case["zone"]:
    os.environ["TZ"] = case["zone"]
    time.tzset()
  try:
    run_in_zone(case, ctx)
  finally:
    os.environ.pop("TZ", None)
    if old is not None:
      os.environ["TZ"] = old
    time.tzset()


def run_in_zone(case, ctx):
  start = time.time()
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  if case["ray"]:
    o = RayOptions(max_parallelism=case["ray"])
    sim.runner = lambda ds: ds.ray(o, sim.opts)
  removed = False
  times = {0: (start, time.time())}
  loaded = {}  # snapshot ID -> record bytes of loaded external files
  for op in case["ops"]:
    if case["ray"] and op[0] in ("pq", "ar"):
      continue
    sim.last_result = None
    start = time.time()
    sim.step(op)
    times.setdefault(sim.max_id, (start, time.time()))
    check_job(sim, f"step {sim.count} {op[0]}", sim.load())
    if (op[0] == "ar" and len(sim.schema.records) == 1 and
        sim.last_result is not None and sim.last_result.state == OK):
      # Records of external files are counted as they are.
      i = sim.schema.names.index(sim.schema.records[0])
      loaded[sim.max_id] = sum(len(r[i]) for r in sim.snaps[sim.max_id].adds)
    removed |= bool(sim.snaps[sim.max_id].dels)
  ds = sim.load()
  check_times("versions", ds, times)
  seen = {}
  n = 0
  for sid in sim.snaps:
    n = max(n, check_snapshot(sim, ds, sid, ctx, seen, loaded))
  ctx.nontrivial(removed and n > 1)


def strategy(program=None, **kw):
  return st.builds(lambda p, ray, zone: dict(p, ray=ray, zone=zone),
                   program or opsgen.program(external=True, **kw),
                   st.sampled_from([0, 0, 0, 0, 1, 3]),
                   st.sampled_from(["", "UTC-9", "EST5EDT"]))


SUITES = [
    Suite("linear", lambda tier: strategy(data=1, max_ops=9, min_ops=2), run,
          1100),
    Suite("branches", lambda tier: strategy(
        data=5, refs=2, max_ops=8, forked=True,
        schema_kw=dict(max_extra=2, records=(0, 2))), run, 300),
    Suite("large", lambda tier: strategy(opsgen.large()), run, 16),
]
