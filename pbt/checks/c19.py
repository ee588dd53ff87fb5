"""C19: reading has no effects, and arguments are left as they were."""

import dataclasses
import os
import types

from hypothesis import strategies as st
import pyarrow as pa
import pyarrow.compute as pc

from engine import Suite, Violation
import gen
from lib import (SPACE_ERRORS, TYPES, call, canon_value, check, same_rows,
                 table_rows, to_expr)
import opsgen
from sim import Sim
import viewgen as vg

from space import Dataset
from space.core.options import FileOptions, JoinOptions, ReadOptions
from space.core.random_access import RandomAccessDataSource
from space.core.storage import Storage

PROPERTY = "C19"
LEVEL = "exploration"
RULE = (
    "A case is a generated history through two handles, between whose steps "
    "generated reading actions run: local and Ray reads with generated options "
    "(also by reference and abandoned after some batches), diffs, listings of "
    "versions and files, random access, views and joins, loading. Every action "
    "runs twice with the same argument objects. Before and after, the files of "
    "all datasets (names, bytes, modification times) and a deep description of "
    "every argument are compared, and both runs must give the same rows; the "
    "history goes on, and all versions are compared with the model at the end. "
    "The arguments of the writes and of the creation are checked in the same "
    "way. Non-trivial: at least two reading actions that returned rows or a "
    "join, and a commit after one of them.")
ASSUMPTIONS = [
    "fields and filters are not given to reads of views and joins (unsupported)",
]


def describe(x):
  """A deep description of an argument."""
  if isinstance(x, pa.Table):
    return ("table", x.schema.to_string(show_schema_metadata=True), [
        [canon_value(v) for v in c.to_pylist()] for c in x.columns
    ], [c.num_chunks for c in x.columns])
  if isinstance(x, pa.Schema):
    return ("schema", x.to_string(show_schema_metadata=True))
  if isinstance(x, pc.Expression):
    return ("expression", str(x))
  if isinstance(x, dict):
    return ("dict", [(k, describe(v)) for k, v in x.items()])
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, [describe(v) for v in x])
  if dataclasses.is_dataclass(x) and not isinstance(x, type):
    return (type(x).__name__, [(f.name, describe(getattr(x, f.name)))
                               for f in dataclasses.fields(x)])
  if isinstance(x, (Dataset, Storage, types.FunctionType)):
    return ("object", id(x))
  return (type(x).__name__, repr(x))


class Args:
  """Objects that are passed to the code under test."""

  def __init__(self, what):
    self.what = what
    self.objects = []

  def __call__(self, x):
    self.objects.append((x, describe(x)))
    return x

  def check(self):
    for x, before in self.objects:
      after = describe(x)
      check(after == before,
            lambda: f"{self.what}: an argument was changed: {before} became "
            f"{after}"[:900])


def files_of(locations):
  out = {}
  for loc in locations:
    for d, _, files in os.walk(loc):
      out[d] = None
      for f in files:
        p = os.path.join(d, f)
        s = os.stat(p)
        with open(p, "rb") as fh:
          out[p] = (s.st_ino, s.st_mtime_ns, fh.read())
  return out


class ArgSim(Sim):
  """Checks the data that the writes get."""

  def step(self, op, ray=None):
    args = Args(f"step {self.count + 1} {op[0]}")
    real, fixed = self.schema.input, args(self.opts)
    ray = args(vg.ray_options(ray)) if ray and op[0] not in ("pq", "ar") else None
    self.runner = lambda ds: (ds.ray(ray, fixed) if ray is not None else
                              ds.local(fixed))
    self.schema.input = lambda rows, mode: args(real(rows, mode))
    self.arg = args
    try:
      return super().step(op)
    finally:
      self.schema.input = real
      args.check()


class Other:
  """The right side of joins."""

  def __init__(self, sim, rows):
    self.loc = sim.ctx.new_dir()
    self.key = sim.schema.pks[0]
    t = TYPES[sim.schema.types[self.key]]
    args = Args("create")
    schema = args(pa.schema([(self.key, t), ("r_v", pa.int64()),
                             ("r_b", pa.binary())]))
    self.ds = call("create", Dataset.create, self.loc, schema,
                   args([self.key]), args(["r_b"]))
    args.check()
    i = sim.schema.names.index(self.key)
    keys = [sim.schema.row(r)[i] for r in rows]
    data = dict(zip(schema.names, (pa.array(keys, t),
                                   pa.array(range(len(keys)), pa.int64()),
                                   pa.array([b"x%d" % k for k in range(len(keys))],
                                            pa.binary()))))
    args = Args("append")
    args(data)
    if keys:
      call("append", self.ds.local(args(FileOptions())).append, data)
    args.check()


def consume(it, k):
  """Some batches of an iterator (all: None), as rows by field name."""
  out = []
  for n, t in enumerate(it):
    if k is not None and n >= k:
      break
    out += table_of(t)
  return out


def table_of(t):
  if t is None:
    return []
  names = sorted(t.schema.names)
  return [(tuple(names), r) for r in table_rows(t, names)]


def attempt(what, fn):
  """The result, or the error of the code under test."""
  try:
    return fn()
  except Violation:
    raise
  except SPACE_ERRORS as e:
    return ("refused", type(e).__name__)
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: unexpected {type(e).__name__}: "
                    f"{str(e)[:600]}") from e


class Reader:

  def __init__(self, sim, case):
    self.sim, self.case = sim, case
    self.other = Other(sim, case["other"])
    self.full = 0

  def act(self, a):
    sim = self.sim
    what = f"after step {sim.count}: {a}"
    locations = [sim.loc, self.other.loc]
    before = files_of(locations)
    args = Args(what)
    fn = getattr(self, "_" + a[0])(args, *a[1:])
    got = []
    for n in ("", " again"):
      got.append(attempt(what + n, fn))
      args.check()
      after = files_of(locations)
      check(after == before,
            lambda: f"{what}: files changed by reading: "
            f"{[p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]}")
    sim.ctx.label("act:" + a[0])
    a, b = got
    if isinstance(a, list) and isinstance(b, list):
      same_rows(b, a, what + ", again")
      self.full += bool(a)
    else:
      check(a == b, lambda: f"{what}: gave {a}, then {b}"[:600])

  def runner(self, args, ray):
    ds = self.sim.ds
    if ray is None:
      return ds.local(args(self.sim.opts))
    return ds.ray(args(vg.ray_options(ray)), args(self.sim.opts))

  def version(self, v):
    names = [None] + sorted(self.sim.snaps) + sorted(self.sim.refs())
    return names[v % len(names)]

  def options(self, o):
    schema = self.sim.schema
    kw = {}
    if o["filter"] is not None:
      kw["filter_"] = to_expr(o["filter"], schema)
    if o["fields"] is not None:
      kw["fields"] = list(dict.fromkeys(
          schema.names[x % len(schema.names)] for x in o["fields"]))
    if o["batch"] is not None:
      kw["batch_size"] = o["batch"]
    kw["reference_read"] = o["ref"]
    return kw

  def _read(self, args, ray, o, k):
    kw = args(self.options(o))
    v = self.version(o["version"])
    if v is not None:
      kw["version"] = v
      args(kw)
      args.objects.pop(-2)
    for x in kw.values():
      args(x)
    r = self.runner(args, ray)
    if k == -1:
      return lambda: table_of(r.read_all(**kw))
    if k == 0:
      return lambda: [r.read(**kw)] and []
    return lambda: consume(r.read(**kw), None if k > 3 else k) if k > 3 else (
        consume(r.read(**kw), k) and [])

  def _dataset(self, args, ray, o):
    """The Ray dataset of the dataset itself."""
    kw = self.options(o)
    v = self.version(o["version"])
    sid = self.sim.refs().get(v, v)
    opts = args(ReadOptions(kw.get("filter_"), kw.get("fields"), sid, o["ref"],
                            o["batch"]))
    ray = args(vg.ray_options(ray))
    self.sim.ds.storage.reload()
    return lambda: ray_rows(self.sim.ds.ray_dataset(ray, opts))

  def _diff(self, args, ray, i, j, batch, k):
    r = self.runner(args, ray)
    vs = (self.version(1 + i), self.version(1 + j))
    vs = [0 if v is None else v for v in vs]

    def fn():
      out = []
      for n, c in enumerate(r.diff(*vs, batch_size=batch)):
        if n >= k:
          return []
        out += [(c.snapshot_id, c.type_.name, *x) for x in table_of(c.data)]
      return out

    return fn

  def _list(self, args, v, fresh):
    ds = Dataset.load(self.sim.loc) if fresh else self.sim.ds

    def fn():
      ds.storage.reload()
      out = table_of(ds.versions().drop(["create_time"]))
      out += [("index file", f) for f in ds.index_files(
          *[x for x in [self.version(v)] if x is not None])]
      out.append((list(ds.primary_keys), list(ds.record_fields),
                  str(ds.schema)).__repr__())
      ds.storage.serializer()
      return out

    return fn

  def _random(self, args, i, n, loc, arrow, deser):
    sim = self.sim
    recs = sim.schema.records
    if not recs:
      return lambda: []
    fields = [recs[(i + k) % len(recs)] for k in range(n)]
    fields = list(dict.fromkeys(fields))
    sim.ds.storage.reload()
    d = args({f: sim.loc if loc else sim.ds.storage for f in fields})
    idx = args([i, 0, n])

    def fn():
      try:
        src = RandomAccessDataSource(d, deserialize=deser,
                                     use_array_record_data_source=arrow)
      except SPACE_ERRORS as e:
        return ("refused", type(e).__name__)
      ii = [x % len(src) for x in idx]
      one, all_ = [repr(src[x]) for x in ii], repr(src[ii])
      # The order of an ArrayRecord data source is not specified.
      return list(map(repr, src)) + ([] if arrow else one + [all_])

    return fn

  def _view(self, args, ray, batch, how):
    sim = self.sim
    steps = self.case["steps"]
    fields = [None if s[2] is None else args(list(s[2])) for s in steps]
    view = vg.build(steps, sim.ds, sim.schema, fields)
    ray = args(vg.ray_options(ray))
    opts = args(ReadOptions(batch_size=batch))
    join = args(JoinOptions())
    sim.ds.storage.reload()
    if how == 0:
      return lambda: ray_rows(view.ray_dataset(ray, opts, join))
    r = view.ray(ray)
    if how == 1:
      return lambda: table_of(r.read_all(batch_size=batch, join_options=join))
    return lambda: [t for b in r.read(batch_size=batch, join_options=join)
                    for t in table_of(b)]

  def _join(self, args, ray, batch, left, right, how):
    sim, key = self.sim, self.other.key
    rest = [n for n in sim.schema.names
            if n != key and sim.schema.types[n] not in gen.NESTED_TYPES]
    if not rest or sim.schema.types[key] == "bool":
      return lambda: []
    lf = [n for n in rest if left % 3 == 0 or hash_of(n, left)] or rest[:1]
    if left % 2:
      lf.insert(left % (len(lf) + 1), key)
    rf = {0: None, 1: ["r_v"], 2: ["r_b", key]}[right % 3]
    keys, lf, rf = args([key]), args(lf), args(rf)
    ray = args(vg.ray_options(ray))
    join = args(JoinOptions())
    opts = args(ReadOptions(batch_size=batch))
    sim.ds.storage.reload()

    def fn():
      view = sim.ds.join(self.other.ds, keys, lf, rf)
      names = view.schema.names
      if how:
        rows = ray_rows(view.ray_dataset(ray, opts, join))
      else:
        rows = table_of(view.ray(ray).read_all(batch_size=batch,
                                               join_options=join))
      return [("fields", tuple(names))] + rows

    return fn


def hash_of(n, k):
  return (len(n) + k) % 2


def ray_rows(ds):
  return [r for t in ds.iter_batches(batch_size=None, batch_format="pyarrow")
          for r in table_of(t) if t.num_rows]


def run(case, ctx):
  sim = ArgSim(case["schema"], ctx, case["layout"], 2)
  reader = Reader(sim, case)
  acted = False
  for op, ray, acts in case["ops"]:
    before = sim.max_id
    sim.step(op, ray)
    ctx.nontrivial(acted and sim.max_id > before and reader.full > 1)
    for a in acts:
      if sim.handle.branch in sim.heads:
        reader.act(a)
        acted = True
  sim.check_everything()


batches = st.one_of(st.none(), st.integers(1, 9))
small = st.integers(0, 9)


def action(spec):
  n = len(spec["fields"])
  opts = st.fixed_dictionaries(
      dict(filter=st.one_of(st.none(), gen.filters(spec)),
           fields=st.one_of(
               st.none(),
               st.lists(st.integers(0, n - 1), min_size=1, max_size=n)),
           version=small, ref=st.booleans(), batch=batches))
  ray = st.one_of(st.none(), vg.ray_opts)
  t = lambda *s: st.tuples(*s).map(list)
  return st.one_of(
      t(st.just("read"), ray, opts, st.integers(-1, 4)),
      t(st.just("read"), ray, opts, st.integers(-1, 4)),
      t(st.just("dataset"), vg.ray_opts, opts),
      t(st.just("diff"), ray, small, small, batches, st.sampled_from([1, 99])),
      t(st.just("list"), small, st.booleans()),
      t(st.just("random"), small, st.integers(1, 2), st.booleans(),
        st.booleans(), st.booleans()),
      t(st.just("view"), vg.ray_opts, batches, st.integers(0, 2)),
      t(st.just("join"), vg.ray_opts, batches, small, small, st.integers(0, 1)))


@st.composite
def strategy(draw):
  spec = draw(vg.source_schemas(records=(0, 2),
                                nested=draw(st.integers(0, 3)) == 0))
  one = st.integers(0, 5).flatmap(
      lambda i: opsgen.data_op(spec, None, 5, True) if i < 4 else opsgen.ref_op(2))
  ops = [["append", draw(gen.rows(spec, 6, 1)), draw(opsgen.modes)]]
  ops += [draw(one) for _ in range(draw(st.integers(1, 5)))]
  act = action(spec)
  return dict(schema=spec, layout=draw(gen.layouts),
              steps=draw(vg.steps(vg.VSchema(spec), max_steps=2)),
              other=draw(gen.rows(spec, 4, 1)),
              ops=[[op, draw(st.one_of(st.none(), vg.ray_opts)),
                    draw(st.lists(act, max_size=3))] for op in ops])


SUITES = [
    Suite("actions", lambda tier: strategy(), run, 2000),
]
