"""C17: a join is the relational inner join."""

from hypothesis import strategies as st

from engine import Suite
import gen
from lib import (TYPES, Schema, call, canon_value, check, decode,
                 refused, same_rows)
import opsgen
from sim import Sim
import viewgen as vg
from checks.c11 import resolve

from space import JoinOptions, Range

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "A case is two datasets with generated histories that share a primary key "
    "(of every key type, alone or with further keys, so that a key value may "
    "have several rows on both sides), each joined as it is or through a chain "
    "of map_batches and filter; with generated field selections, reference reads "
    "of record fields, Ray options, and a generated partition function that "
    "covers the key range (split points in and outside of the data, in any "
    "order, with empty ranges). The result is compared with the nested-loop join "
    "of the model's rows: rows, fields and types; it must be the same without a "
    "partition function. Some joins are of a dataset with itself, or the input "
    "of a map or filter. Requests that cannot be joined must be refused. "
    "Non-trivial: some but not all pairs of rows match and the range is split.")
ASSUMPTIONS = [
    "joined fields are no lists or structs, other than record addresses "
    "(documented PyArrow limitation); field names of the sides differ",
    "map views keep the join key; partitions do not overlap",
    "the Ray API is provided by a stand-in in one process",
]


def partition_fn(case, t, calls, keys=()):
  """Splits at the given values (of the key type) and at some of the keys."""

  def fn(r):
    calls.append(r)
    check(r.include_max, lambda: f"join range {r} excludes its maximum")
    inside = sorted(k for k in keys if r.min_ <= k <= r.max_)
    points = {decode(t, c) for c in case["points"]}
    if inside:
      points |= {inside[i % len(inside)] for i in case["at"]}
    points = sorted(points)
    points = [p for p in points if r.min_ < p <= r.max_]
    bounds = [r.min_] + points
    out = []
    for i, b in enumerate(bounds):
      if i + 1 < len(bounds):
        out.append(Range(b, bounds[i + 1]))
      else:
        out.append(Range(b, r.max_, True))
    if case["empty"] and points:
      out.insert(case["empty"] % (len(out) + 1), Range(points[0], points[0]))
    k = case["rotate"] % len(out)
    out = out[k:] + out[:k]
    return out[::-1] if case["reverse"] else out

  return fn


class Side:
  """A side of the join: model rows of the fields that are read."""

  def __init__(self, sim, view, schema, avail, rows, records, fields, ref):
    self.sim, self.view, self.schema = sim, view, schema
    self.fields = fields
    self.names = list(fields) if fields is not None else list(schema.names)
    self.rows = [
        tuple(r[list(avail).index(n)] for n in self.names) for r in rows
    ]
    self.records = records
    self.ref = ref

  def type_of(self, n):
    return TYPES[self.schema.types[n]]


def make_side(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"])
  for op in case["ops"]:
    sim.step(op)
  ds = sim.ds if case["handle"] else sim.load()
  branch = sim.handle.branch if case["handle"] else "main"
  rows = sim.head_rows(branch)
  steps = case["steps"]
  if steps:
    out = vg.schemas_of(steps, sim.schema)[-1]
    view = call("build view", vg.build, steps, ds, sim.schema)
    rows = vg.apply(steps, sim.schema, rows)
    records = out.records if any(s[0] == "map" for s in steps) else [
        r for r in sim.schema.records if r in out.avail]
    schema, avail = out, out.avail
  else:
    view, records, schema, avail = ds, sim.schema.records, sim.schema, (
        sim.schema.names)
  return sim, view, schema, avail, rows, records


def select(pick, avail, key, schema):
  """Fields to read: None or a list with at least one non-key field."""
  if pick is None:
    # The declared fields, unless the data of a filter has fewer of them.
    return None if set(avail) == set(schema.names) else list(avail)
  out = []
  for i in pick:
    n = avail[i % len(avail)]
    if n not in out:
      out.append(n)
  if [n for n in out if n != key]:
    return out
  return select(None, avail, key, schema)


def join_model(left, right, key):
  lk, rk = left.names.index(key), right.names.index(key)
  names = [key] + [n for n in left.names if n != key] + [
      n for n in right.names if n != key]
  out = []
  for a in left.rows:
    for b in right.rows:
      if a[lk] == b[rk]:
        out.append((a[lk],) + tuple(v for i, v in enumerate(a) if i != lk) +
                   tuple(v for i, v in enumerate(b) if i != rk))
  return names, out


def result_rows(what, t, names, sides, key):
  got = list(t.schema.names)
  check(got == names, lambda: f"{what}: fields are {got}, expected {names}")
  cols = []
  for n in names:
    side = next(s for s in sides if n in s.names)
    if side.ref and n in side.records and n != key:
      cols.append(resolve(side.sim, t, n, {}))
      continue
    want = side.type_of(n)
    have = t.schema.field(n).type
    check(have == want,
          lambda: f"{what}: field {n} has type {have}, expected {want}")
    cols.append([canon_value(v) for v in t.column(n).to_pylist()])
  return list(zip(*cols))


def run(case, ctx):
  key = case["key"]
  kt = case["key_type"]
  ls, lview, lschema, lavail, lrows, lrecs = make_side(case["left"], ctx)
  if case["self"]:
    rs, rview, rschema, ravail, rrows, rrecs = (
        ls, lview, lschema, lavail, lrows, lrecs)
  else:
    rs, rview, rschema, ravail, rrows, rrecs = make_side(
        case["right"], ctx)
  lf = select(case["left"]["fields"], lavail, key, lschema)
  rf = select(case["right"]["fields"], ravail, key, rschema)
  if case["self"]:
    # Different fields of the same dataset.
    rest = [n for n in lavail if n != key]
    if len(rest) < 2:
      return
    cut = 1 + len(rest) // 3
    lf, rf = rest[:cut], rest[cut:]
  for f, avail in ((lf, lavail), (rf, ravail)):
    if [n for n in f or avail if n != key] == []:
      return
  lref = bool(case["left"]["ref"] and not case["left"]["steps"])
  rref = bool(case["right"]["ref"] and not (
      case["left"] if case["self"] else case["right"])["steps"])
  with_key = lambda f: f if f is None or key in f else f + [key]
  left = Side(ls, lview, lschema, lavail, lrows, lrecs, with_key(lf), lref)
  right = Side(rs, rview, rschema, ravail, rrows, rrecs, with_key(rf), rref)
  names, want = join_model(left, right, key)
  kw = dict(keys=[key], left_reference_read=lref, right_reference_read=rref)
  if lf is not None:
    kw["left_fields"] = list(lf)
  if rf is not None:
    kw["right_fields"] = list(rf)
  view = call("join", lview.join, rview, **kw)
  have = view.schema.names
  check(have == names, lambda: f"declared fields {have}, expected {names}")
  check(list(view.primary_keys) == [key],
        lambda: f"declared keys {view.primary_keys}")

  calls = []
  keys = {r[left.names.index(key)] for r in left.rows}
  keys |= {r[right.names.index(key)] for r in right.rows}
  runs = [("join", JoinOptions()),
          ("partitioned join",
           JoinOptions(partition_fn=partition_fn(case["split"], kt, calls, keys)))]
  for what, opts in runs:
    runner = view.ray(vg.ray_options(case["ray"]))
    t = call(what, lambda: runner.read_all(join_options=opts))
    got = result_rows(what, t, names, (left, right),
                      key) if t is not None else []
    same_rows(got, want, what)
    tables = call(what, lambda: list(
        runner.read(join_options=opts, batch_size=case["batch"])))
    got = [
        r for x in tables
        for r in result_rows(what, x, names, (left, right), key)
    ]
    same_rows(got, want, what + " (iterated)")
  pairs = len(left.rows) * len(right.rows)
  split = any(len(partition_fn(case["split"], kt, [], keys)(r)) > 1 for r in calls)
  ctx.nontrivial(0 < len(want) < pairs and split)
  if len(want) > len({r[0] for r in want}):
    ctx.label("several_pairs_per_key")
  if left.ref or right.ref:
    ctx.label("reference_read")

  if case["over"] is not None and not left.ref and not right.ref:
    # The join as the input of a transform.
    types = {n: next(s for s in (left, right) if n in s.names).schema.types[n]
             for n in names}
    schema = Schema(dict(fields=[[n, types[n]] for n in names], pks=[key],
                         records=[]))
    f = ["cmp", case["over"][0], key, case["over"][1], 0]
    keep = [r for r in want if vg.evaluate(f, schema, r) is True]
    v = call("filter of join", vg.build, [["filter", f, None]], view, schema)
    t = call("filter of join", lambda: v.ray().read_all())
    got = result_rows("filter of join", t, names, (left, right),
                      key) if t is not None else []
    same_rows(got, keep, "filter of join")
    ctx.label("transform_of_join")

  # Cannot be joined.
  refused("join on no key", lview.join, rview, keys=[])
  refused("join on a missing key", lview.join, rview, keys=["missing"])
  nonkeys = [n for n in lavail if n not in lschema.pks]
  if nonkeys:
    refused("join on a non-key", lview.join, rview, keys=[nonkeys[0]])
  refused("join of the key only", lview.join, rview, keys=[key],
          left_fields=[key])
  refused("join of an unknown field", lview.join, rview, keys=[key],
          right_fields=["missing"])


@st.composite
def side(draw, key, kt, prefix, nonull):
  """A dataset with the key among its primary keys; other names differ."""
  spec = draw(gen.schemas(records=(0, 1), nested=False, max_extra=2))
  names = {}
  fields = []
  first = spec["pks"][0]
  for n, t in spec["fields"]:
    names[n] = key if n == first else prefix + n
    fields.append([names[n], kt if n == first else t])
  if len(fields) == 1:
    fields.append([prefix + "x", "str"])
  spec = dict(fields=fields, pks=[names[p] for p in spec["pks"]],
              records=[names[r] for r in spec["records"]])
  if nonull:
    spec["nonull"] = True
  steps = []
  if nonull:
    steps = draw(vg.steps(vg.VSchema(spec), max_steps=2))
    steps = rename(steps, spec, prefix)
  w = dict(append=6, append_from=4, bulk=2, upsert=3, delete=2, delete_key=1)
  ops = [["append", draw(gen.rows(spec, 8, 1)), 0]] if draw(
      st.integers(0, 9)) else []
  one = st.integers(0, 9).flatmap(
      lambda i: opsgen.data_op(spec, w, 6)
      if i < 9 else st.just(["fork", "b1"]))
  for _ in range(draw(st.integers(0, 3))):
    ops.append(draw(one))
  return dict(schema=spec, layout=draw(gen.layouts), ops=ops, steps=steps,
              handle=draw(st.booleans()),
              fields=draw(
                  st.one_of(st.none(),
                            st.lists(st.integers(0, 6), min_size=1,
                                     max_size=4))), ref=draw(st.booleans()))


def rename(steps, spec, prefix):
  """Gives the columns that maps add names of this side."""
  old = {n for n, _ in spec["fields"]}
  made = {o[0] for s in steps if s[0] == "map" for o in s[1]["outs"]} - old
  return [rename_step(s, made, prefix) for s in steps]


def rename_step(s, made, prefix):
  nm = lambda n: prefix + "m_" + n if n in made else n

  def flt(f):
    if f is None:
      return None
    k = f[0]
    if k in ("cmp", "cast", "add", "sub"):
      return [k, f[1], nm(f[2])] + f[3:]
    if k == "ff":
      return [k, f[1], nm(f[2]), nm(f[3])]
    if k in ("null", "valid", "isin", "flag"):
      return [k, nm(f[1])] + f[2:]
    if k in ("const", "lits"):
      return f
    assert k in ("and", "or", "not"), k
    return [k] + [flt(x) for x in f[1:]]

  fields = s[2] if s[2] is None else [nm(n) for n in s[2]]
  if s[0] == "filter":
    return ["filter", flt(s[1]), fields]
  m = s[1]
  outs = [[nm(n), t, e if e[0] == "const" else [e[0], nm(e[1])] + e[2:]]
          for n, t, e in m["outs"]]
  return ["map", dict(outs=outs, records=[nm(n) for n in m["records"]],
                      keep=flt(m["keep"]), dup=m["dup"]), fields, s[3]]


@st.composite
def strategy(draw, views=False):
  kt = draw(st.sampled_from(["i64", "str", "i64", "i32", "f64", "bin", "f32",
                             "bool"]))
  key = draw(st.sampled_from(["k", "é", "a b"]))
  nl = views and draw(st.booleans())
  nr = views and (not nl or draw(st.booleans()))
  points = st.lists(st.one_of(gen.key_cell(kt), gen.wide_key_cell(kt)),
                    max_size=4)
  return dict(
      key=key, key_type=kt, left=draw(side(key, kt, "l_", nl)),
      right=draw(side(key, kt, "r_", nr)), batch=draw(st.integers(1, 20)),
      ray=draw(vg.ray_opts),
      self=not nl and not nr and draw(st.integers(0, 7)) == 0,
      split=dict(points=draw(points), at=draw(
          st.lists(st.integers(0, 12), max_size=3)), empty=draw(st.integers(0, 3)),
                 rotate=draw(st.integers(0, 3)),
                 reverse=draw(st.booleans())),
      over=draw(st.one_of(st.none(), st.none(), st.tuples(
          st.sampled_from(["==", "!="] if kt == "bool" else ["<", ">=", "=="]),
          gen.key_cell(kt)).map(list))))


SUITES = [
    Suite("datasets", lambda tier: strategy(), run, 1800),
    Suite("views", lambda tier: strategy(views=True), run, 1000),
]
