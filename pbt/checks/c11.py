"""C11: record fields return the bytes stored, by read and by random access."""

from collections import Counter
import os

from hypothesis import strategies as st
import numpy as np
import pyarrow as pa

from engine import Suite
import gen
from lib import (Dataset, call, canon_value, check, evaluate, read, refused,
                 same_rows, table_rows, to_expr)
import opsgen
from sim import OK, Sim

from array_record.python import array_record_module as ar
from space import TfFeatures
from space.core.random_access import RandomAccessDataSource

PROPERTY = "C11"
LEVEL = "exploration"
RULE = (
    "history: a case is a generated history on a dataset with one or two record "
    "fields, with small and large record file limits and loads of external "
    "ArrayRecord files. At several points the record bytes are compared with "
    "the model through reads, through reference reads whose addresses are "
    "resolved with the ArrayRecord library, and through the random access data "
    "source (one and several fields, stored order and given addresses in a "
    "generated order with repetitions, single, batch and iterated access). "
    "features: TfFeatures values are serialized, stored, read by each of these "
    "ways, deserialized and compared. Non-trivial: at least two record files "
    "and a delete or upsert happened, or (features) at least two rows.")
ASSUMPTIONS = [
    "record values are not null",
    "the data source built on ArrayRecordDataSource groups records by file; its "
    "order is only required to be consistent",
]


def resolve(sim, rows_table, field, cache):
  out = []
  for a in rows_table.column(field).to_pylist():
    p = os.path.join(sim.loc, a["_FILE"])
    if p not in cache:
      r = ar.ArrayRecordReader(p)
      cache[p] = r.read_all() if r.num_records() else []
      r.close()
    check(0 <= a["_ROW_ID"] < len(cache[p]),
          lambda: f"address {a} is outside of its file ({len(cache[p])})")
    out.append(cache[p][a["_ROW_ID"]])
  return out


def reference_rows(sim, what, ds, cache, names=None, **kw):
  """Rows of a reference read, with the addresses resolved."""
  schema = sim.schema
  names = names or schema.names
  t = call(what, lambda: ds.local().read_all(reference_read=True, **kw))
  if t is None:
    return []
  check(sorted(t.schema.names) == sorted(names),
        lambda: f"{what}: fields {t.schema.names}, expected {names}")
  cols = []
  for n in names:
    if n in schema.records:
      cols.append(resolve(sim, t, n, cache))
    else:
      cols.append([canon_value(v) for v in t.column(n).to_pylist()])
  return list(zip(*cols))


def check_source(what, src, want, idx, ordered):
  """want: the expected values, in order if ordered."""
  n = len(want)
  check(len(src) == n, lambda: f"{what}: length {len(src)}, expected {n}")
  got = call(what, lambda: [src[i] for i in range(n)])
  key = lambda v: v if isinstance(v, bytes) else tuple(sorted(v.items()))
  if ordered:
    check(got == want, lambda: f"{what}: records {got!r:.400}, expected "
          f"{want!r:.400}")
  else:
    same_rows([key(v) for v in got], [key(v) for v in want], what)
  check(call(what, lambda: list(src)) == got, f"{what}: iteration differs")
  if n:
    ii = [i % n for i in idx] or [0]
    res = call(what, lambda: src[ii])
    if got and isinstance(got[0], dict):
      want_items = {f: [got[i][f] for i in ii] for f in got[0]}
    else:
      want_items = [got[i] for i in ii]
    check(res == want_items,
          lambda: f"{what}: batch {ii} returns {res!r:.300}, the single "
          f"records are {want_items!r:.300}")
    check(call(what, lambda: src.__getitems__(ii)) == want_items,
          f"{what}: __getitems__ differs")


def check_random_access(sim, case, ctx):
  schema, ds = sim.schema, sim.ds
  ds.storage.reload()
  rows = sim.head_rows()
  # The handle's branch, or by location when on main.
  arg = (lambda: ds.storage) if (sim.handle.branch != "main" or
                                 case["storage"]) else (lambda: sim.loc)
  if not rows:
    refused("random access to no data", RandomAccessDataSource,
            {schema.records[0]: arg()})
    return
  idx = case["idx"]
  fields = schema.records
  for f in fields:
    col = schema.names.index(f)
    stored = [r[col] for r in rows]
    src = call("random access", RandomAccessDataSource, {f: arg()})
    check_source(f"random access to {f}", src, stored, idx, False)
    src = call("random access", RandomAccessDataSource, {f: arg()},
               use_array_record_data_source=False)
    t = ds.local().read_all(fields=[f])
    vals = t.column(f).to_pylist()
    check_source(f"random access to {f} by Arrow", src, vals, idx, True)
    same_rows(vals, stored, f"random access to {f}")
    refused("deserializing a binary field", RandomAccessDataSource, {f: arg()},
            deserialize=True)
  if len(fields) > 1:
    src = call("random access", RandomAccessDataSource,
               {f: arg() for f in fields})
    t = ds.local().read_all(fields=fields)
    want = t.select(fields).to_pylist()
    check_source(f"random access to {fields}", src, want, idx, True)

  # Given addresses: some rows, in some order, also repeated.
  f = case["filter"]
  t = call("addresses", lambda: ds.local().read_all(
      filter_=to_expr(f, schema), fields=None, reference_read=True))
  if t is None:
    return
  take = [i % t.num_rows for i in idx] or [0]
  addr = t.select(fields).take(take)
  cache = {}
  values = {n: resolve(sim, addr, n, cache) for n in fields}
  for flat in (False, True):
    a = addr.flatten() if flat else addr
    src = call("addresses", RandomAccessDataSource, {fields[0]: arg()},
               a.select([fields[0]]) if not flat else a,
               use_array_record_data_source=False)
    check_source("given addresses by Arrow", src, values[fields[0]], idx, True)
  src = call("addresses", RandomAccessDataSource, {fields[0]: arg()}, addr)
  check_source("given addresses", src, values[fields[0]], idx, False)
  if len(set(take)) < len(take):
    ctx.label("repeated_addresses")
  if len(fields) > 1:
    src = call("addresses", RandomAccessDataSource, {n: arg() for n in fields},
               addr)
    check_source("given addresses of two fields", src,
                 [dict(zip(fields, v)) for v in zip(*values.values())], idx,
                 True)


def run_history(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], 2)
  schema = sim.schema
  cache = {}
  removed = False
  at = {len(case["ops"]) - 1, case["at"] % len(case["ops"])}
  for i, op in enumerate(case["ops"]):
    before = sim.max_id
    sim.step(op)
    removed |= sim.max_id != before and bool(sim.snaps[sim.max_id].dels)
    if i not in at:
      continue
    sim.check_head()
    if sim.handle.branch not in sim.heads:
      continue
    same_rows(
        call("reference read", reference_rows, sim, "reference read", sim.ds,
             cache), sim.head_rows(), "reference read, resolved")
    f = case["filter"]
    want = [r for r in sim.head_rows() if evaluate(f, schema, r) is True]
    same_rows(
        reference_rows(sim, "filtered reference read", sim.ds, cache,
                       filter_=to_expr(f, schema), batch_size=case["batch"]),
        want, "filtered reference read, resolved")
    check_random_access(sim, case, ctx)
  for sid, snap in sim.snaps.items():
    fields = schema.records + schema.pks
    ii = [schema.names.index(n) for n in fields]
    same_rows(
        reference_rows(sim, f"reference read of {sid}", sim.load(), cache,
                       names=fields, fields=fields, version=sid),
        [tuple(r[i] for i in ii) for r in snap.rows],
        f"reference read of {sid}, resolved")
  sim.check_all_heads()
  sim.check_versions()
  ctx.label("record_files", len(cache))
  ctx.nontrivial(removed and len(cache) > 1)


@st.composite
def history(draw, **kw):
  p = draw(opsgen.program(
      external=True, weights=dict(append=5, append_from=3, bulk=1, insert=1,
                                  upsert=3, delete=2, delete_key=4),
      schema_kw=dict(records=(1, 2), max_extra=1), **kw))
  p["ops"].append(["append", draw(gen.rows(p["schema"], 4, 1)), 0])
  n = len(p["ops"])
  return dict(p, at=draw(st.integers(0, n - 1)),
              idx=draw(st.lists(st.integers(0, 40), min_size=1, max_size=8)),
              filter=draw(gen.filters(p["schema"], 1)),
              batch=draw(st.one_of(st.none(), st.integers(1, 4))),
              storage=draw(st.booleans()))


def run_large(case, ctx):
  """Record files of more than 2**16 records."""
  sim = Sim(case["schema"], ctx, case["layout"])
  schema = sim.schema
  for op in case["ops"]:
    sim.step(op)
  read_all = lambda **kw: read(sim.ds, schema, "read", batch_size=6000, **kw)
  same_rows(read_all(), sim.head_rows(), "contents")
  cache = {}
  same_rows(
      call("reference read", reference_rows, sim, "reference read", sim.ds,
           cache), sim.head_rows(), "reference read, resolved")
  rows = sim.head_rows()
  if not rows:
    return
  r = schema.records[0]
  stored = [x[0] for x in read_all(fields=[r])]
  src = call("random access", RandomAccessDataSource, {r: sim.ds.storage},
             use_array_record_data_source=False)
  check(len(src) == len(rows), "random access: length")
  ii = [i % len(rows) for i in case["idx"]]
  check(call("random access", lambda: src[ii]) == [stored[i] for i in ii],
        lambda: f"random access to {ii}")
  for i in ii:
    check(call("random access", lambda: src[i]) == stored[i],
          lambda: f"random access to {i}")
  ctx.nontrivial(max(map(len, cache.values())) > 2**16 and len(sim.snaps) > 2)


# ---------------------------------------------------------------- features


def feature_dict(kind):
  from tensorflow_datasets import features as f
  return {
      "scalar": {"a": np.int64},
      "vector": {"a": f.Tensor(shape=(None,), dtype=np.float32), "b": np.int32},
      "nested": {"id": np.int64, "o": f.Sequence(
          {"box": f.Tensor(shape=(4,), dtype=np.float32)})},
  }[kind]


def feature_value(kind, ints):
  k = len(ints)
  if kind == "scalar":
    return {"a": sum(ints)}
  if kind == "vector":
    return {"a": np.array(ints, np.float32), "b": k}
  return {"id": k, "o": {"box": np.array(
      [[i, 0.5, 1.5, -i] for i in ints], np.float32).reshape((k, 4))}}


def plain(v):
  if isinstance(v, dict):
    return {k: plain(x) for k, x in v.items()}
  a = np.asarray(v)
  return a.tolist() if a.ndim else a.item()


def run_features(case, ctx):
  from tensorflow_datasets import features as f
  kinds = case["kinds"]
  fields = [f"f{i}" for i in range(len(kinds))]
  types = [TfFeatures(f.FeaturesDict(feature_dict(k))) for k in kinds]
  loc = ctx.new_dir()
  from lib import file_options
  opts = file_options(case["layout"])
  ds = call("create", Dataset.create, loc,
            pa.schema([("k", pa.int64())] + list(zip(fields, types))), ["k"],
            fields)
  model = {}
  for batch in case["batches"]:
    ser = call("load", Dataset.load, loc).storage.serializer()
    keys = [b[0] for b in batch]
    data = {"k": keys}
    for i, (n, k) in enumerate(zip(fields, kinds)):
      data[n] = [feature_value(k, b[1 + i]) for b in batch]
    stored = call("serialize", ser.serialize, data)
    check(stored["k"] == keys, "serialize changed another field")
    r = call("upsert", ds.local(opts).upsert, pa.table(
        [pa.array(stored[n]) for n in ["k"] + fields], ["k"] + fields))
    check(r.state == OK, lambda: f"upsert: {r}")
    for j, k in enumerate(keys):
      model[k] = [plain(data[n][j]) for n in fields]
    ds = call("load", Dataset.load, loc)
  ser = ds.storage.serializer()
  t = call("read", ds.local().read_all)
  got = call("deserialize", ser.deserialize, t.to_pydict())
  check(sorted(got["k"]) == sorted(model), "read: keys differ")
  for j, k in enumerate(got["k"]):
    for i, n in enumerate(fields):
      check(plain(got[n][j]) == model[k][i],
            lambda: f"read: {n} of {k} is {plain(got[n][j])}, stored "
            f"{model[k][i]}")
  order = ds.local().read_all(fields=["k"])["k"].to_pylist()
  n = len(order)
  idx = [i % n for i in case["idx"]]
  for use_ar in ([True, False] if len(fields) == 1 else [False]):
    src = call("source", RandomAccessDataSource, {f: loc for f in fields},
               deserialize=True, use_array_record_data_source=use_ar)
    check(len(src) == n, "random access: length")
    one = call("source", lambda: [plain(src[i]) for i in range(n)])
    if len(fields) == 1:
      want = [model[k][0] for k in order]
      many = [plain(x) for x in call("source", lambda: src[idx])]
      check(many == [one[i] for i in idx], "random access: batch differs")
    else:
      want = [dict(zip(fields, model[k])) for k in order]
      many = call("source", lambda: src[idx])
      check({f: [plain(x) for x in v] for f, v in many.items()} == {
          f: [one[i][f] for i in idx] for f in fields},
            "random access: batch differs")
    if use_ar:
      check(Counter(map(repr, one)) == Counter(map(repr, want)),
            lambda: f"random access: {one}, stored {want}")
    else:
      check(one == want, lambda: f"random access: {one}, stored {want}")
  ctx.nontrivial(n > 1)


@st.composite
def features(draw):
  kinds = draw(st.lists(st.sampled_from(["scalar", "vector", "nested"]),
                        min_size=1, max_size=2))
  ints = st.lists(st.integers(-3, 3), max_size=3)
  row = st.tuples(st.integers(0, 6), *[ints for _ in kinds]).map(list)
  batches = draw(st.lists(
      st.lists(row, min_size=1, max_size=4, unique_by=lambda r: r[0]),
      min_size=1, max_size=3))
  return dict(kinds=kinds, batches=batches, layout=draw(gen.layouts),
              idx=draw(st.lists(st.integers(0, 20), min_size=1, max_size=5)))


SUITES = [
    Suite("history", lambda tier: history(max_ops=6, min_ops=1), run_history,
          500),
    Suite("branches", lambda tier: history(data=5, refs=1, max_ops=4,
                                           forked=True), run_history, 120),
    Suite("large", lambda tier: st.builds(
        lambda p, idx: dict(p, idx=idx), opsgen.large(True, 2),
        st.lists(st.integers(0, 75000) | st.integers(65530, 65540), min_size=1,
                 max_size=8)), run_large, 16),
    Suite("features", lambda tier: features(), run_features, 120),
]
