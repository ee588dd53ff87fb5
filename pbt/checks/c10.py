"""C10: schemas survive storage exactly; bad definitions are refused."""

import json
import os

from hypothesis import strategies as st
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
from tensorflow_datasets import features as tf

from engine import Suite, Violation
import gen
from lib import (Dataset, SPACE_ERRORS, call, canon_value, check,
                 same_rows, tree)
import opsgen
from sim import OK, Sim

from space import TfFeatures
from space.core.schema.types import File

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "valid: a case is a generated schema (lists, structs, File and TfFeatures "
    "nested up to 3 levels, in any order), keys, record fields and rows; the "
    "schema, keys and record fields are compared with the definition when "
    "created and when loaded, and rows and types by reads of all, of some "
    "fields and after an upsert. invalid: a case is a valid definition with one "
    "defect, on a new or an existing location; it must be refused, the location "
    "must stay as it was, and a valid definition must work afterwards. existing: "
    "create over a dataset with a generated history. Non-trivial: the schema has "
    "a nested or user-defined type (valid), or the definition was refused.")
ASSUMPTIONS = [
    "nullability and field metadata are not part of the supported schema",
    "structs have at least one field; TfFeatures are record fields",
]

PRIMS = {
    "i64": pa.int64(), "i32": pa.int32(), "f64": pa.float64(),
    "f32": pa.float32(), "str": pa.string(), "bin": pa.binary(),
    "bool": pa.bool_(),
}
UNSUPPORTED = {
    "date": pa.date32(), "ts": pa.timestamp("us"), "i8": pa.int8(),
    "u32": pa.uint32(), "i16": pa.int16(), "u64": pa.uint64(),
    "dec": pa.decimal128(10, 2), "f16": pa.float16(),
    "fsl": pa.list_(pa.int64(), 2), "map": pa.map_(pa.string(), pa.int64()),
    "null": pa.null(), "time": pa.time32("s"), "dur": pa.duration("s"),
}
TF_SPECS = {
    "scalar": lambda: {"a": np.int64},
    "vector": lambda: {"a": tf.Tensor(shape=(None,), dtype=np.float32)},
    "nested": lambda: {"o": {"b": tf.Tensor(shape=(None, 4), dtype=np.float32)},
                       "i": np.int32},
}


def arrow_type(t, physical=False):
  if isinstance(t, str):
    return PRIMS[t] if t in PRIMS else UNSUPPORTED[t]
  k = t[0]
  if k == "list":
    return pa.list_(arrow_type(t[1], physical))
  if k == "struct":
    return pa.struct([pa.field(n, arrow_type(x, physical)) for n, x in t[1]])
  if k == "file":
    return pa.string() if physical else File(directory=t[1])
  if k == "tf":
    return pa.binary() if physical else TfFeatures(
        tf.FeaturesDict(TF_SPECS[t[1]]()))
  raise AssertionError(t)


def decode(t, v):
  if v is None:
    return None
  if t == "bin" or t[0] == "tf":
    return bytes.fromhex(v)
  if isinstance(t, str) or t[0] == "file":
    return v
  if t[0] == "list":
    return [decode(t[1], x) for x in v]
  return {n: decode(x, v[n]) for n, x in t[1]}


def value(t, null=True):
  if isinstance(t, str):
    s = gen.scalar_cell(t)
  elif t[0] == "file":
    s = st.sampled_from(["", "f", "d/f.png", "é"])
  elif t[0] == "tf":
    s = st.binary(max_size=4).map(bytes.hex)
  elif t[0] == "list":
    s = st.lists(value(t[1]), max_size=2)
  else:
    s = st.fixed_dictionaries({n: value(x) for n, x in t[1]})
  return st.one_of(s, s, st.none()) if null else s


NAMES = ["a", "b", "c", "k", "x_y", "é", "item", "element", "a b", "list"]
file_type = st.sampled_from(["", "dir", "/a/b é", "d/", "./d//e", "../D", " x "
                            ]).map(lambda d: ["file", d])


def types(depth=3, prims=tuple(PRIMS)):
  leaf = st.one_of(st.sampled_from(prims), file_type)
  if depth == 0:
    return leaf
  sub = types(depth - 1)
  return st.one_of(
      leaf, st.tuples(st.just("list"), sub).map(list),
      st.tuples(
          st.just("struct"),
          st.lists(st.tuples(st.sampled_from(NAMES), sub).map(list),
                   min_size=1, max_size=3, unique_by=lambda x: x[0])).map(list))


def arrow_schema(spec, physical=False):
  return pa.schema([
      pa.field(n, arrow_type(t, physical)) for n, t in spec["fields"]])


def same_type(a, b):
  """Equality of types, including the parameters of user-defined types."""
  if isinstance(b, (File, TfFeatures)):
    return (type(a) is type(b) and
            a.__arrow_ext_serialize__() == b.__arrow_ext_serialize__())
  if pa.types.is_list(b):
    return pa.types.is_list(a) and same_type(a.value_type, b.value_type)
  if pa.types.is_struct(b):
    return (pa.types.is_struct(a) and a.num_fields == b.num_fields and all(
        a.field(i).name == b.field(i).name and
        same_type(a.field(i).type, b.field(i).type)
        for i in range(b.num_fields)))
  return a == b


def same_definition(ds, spec, what):
  want = arrow_schema(spec)
  got = ds.schema
  check(got.names == want.names,
        lambda: f"{what}: fields {got.names}, defined {want.names}")
  for n in want.names:
    check(same_type(got.field(n).type, want.field(n).type),
          lambda: f"{what}: field {n} is {got.field(n).type}, defined "
          f"{want.field(n).type}")
  check(list(ds.primary_keys) == spec["pks"],
        lambda: f"{what}: keys {ds.primary_keys}, defined {spec['pks']}")
  check(list(ds.record_fields) == spec["records"],
        lambda: f"{what}: records {ds.record_fields}, defined "
        f"{spec['records']}")
  s = call(what, ds.storage.serializer)
  for n, t in spec["fields"]:
    f = s.field_serializer(n)
    if t[0] == "tf":
      check(f is not None and same_type(f, arrow_type(t)),
            f"{what}: serializer of {n}")
    else:
      check(f is None, f"{what}: serializer of {n}")



def read_rows(ds, spec, what, **kw):
  phys = arrow_schema(spec, physical=True)
  t = call(what, lambda: ds.local().read_all(**kw))
  names = kw.get("fields") or phys.names
  if t is None:
    return []
  check(sorted(t.schema.names) == sorted(names),
        lambda: f"{what}: fields {t.schema.names}, expected {names}")
  for n in names:
    check(same_type(t.schema.field(n).type, phys.field(n).type),
          lambda: f"{what}: {n} is read as {t.schema.field(n).type}, stored "
          f"type {phys.field(n).type}")
  cols = [t.column(n).to_pylist() for n in names]
  return [tuple(canon_value(v) for v in r) for r in zip(*cols)]


def run_valid(case, ctx):
  spec = case["schema"]
  names = [f[0] for f in spec["fields"]]
  loc = ctx.new_dir()
  ds = call("create", Dataset.create, loc, arrow_schema(spec), spec["pks"],
            spec["records"])
  same_definition(ds, spec, "created")
  same_definition(call("load", Dataset.load, loc), spec, "loaded")
  phys = arrow_schema(spec, physical=True)

  def table(rows):
    return pa.table([
        pa.array([decode(t, r[i]) for r in rows], phys.field(n).type)
        for i, (n, t) in enumerate(spec["fields"])
    ], names=names)

  def model(rows):
    return [
        tuple(canon_value(decode(t, r[i]))
              for i, (_, t) in enumerate(spec["fields"])) for r in rows
    ]

  rows = case["rows"]
  r = call("append", ds.local().append, table(rows[:-1]))
  check(r.state == OK, lambda: f"append: {r}")
  want = model(rows[:-1])
  same_rows(read_rows(ds, spec, "read"), want, "read")
  r = call("append to loaded",
           Dataset.load(loc).local().append, table(rows[-1:]))
  check(r.state == OK, lambda: f"append: {r}")
  want += model(rows[-1:])
  same_rows(read_rows(ds, spec, "read"), want, "read again")
  ds = call("load", Dataset.load, loc)
  same_rows(read_rows(ds, spec, "read"), want, "read when loaded")
  same_definition(ds, spec, "loaded again")
  fields = [n for i, n in enumerate(names) if case["mask"] >> i & 1]
  if fields:
    idx = [names.index(f) for f in fields]
    same_rows(read_rows(ds, spec, "projection", fields=fields),
              [tuple(r[i] for i in idx) for r in want], "projection")
  # Replace the first row.
  ki = [names.index(k) for k in spec["pks"]]
  key = lambda r: tuple(r[i] for i in ki)
  r = call("upsert", ds.local().upsert, table(rows[:1]))
  check(r.state == OK, lambda: f"upsert: {r}")
  same_rows(read_rows(ds, spec, "read"), want, "read after upsert")
  r = call("delete", ds.local().delete,
           pc.field(spec["pks"][0]).is_valid())
  check(r.state == OK, lambda: f"delete: {r}")
  same_rows(read_rows(ds, spec, "read"), [], "read after delete")
  same_rows(read_rows(ds, spec, "read", version=1), model(rows[:-1]),
            "first version")
  deep = any(not isinstance(t, str) for _, t in spec["fields"])
  for _, t in spec["fields"]:
    ctx.label("type:" + (t if isinstance(t, str) else t[0]))
  ctx.nontrivial(deep)


@st.composite
def definitions(draw, max_extra=4):
  names = list(draw(st.permutations(NAMES)))
  fields, pks, recs = [], [], []
  for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
    t = draw(st.one_of(st.sampled_from(
        ["i64", "str", "i32", "f64", "bin", "f32"]), file_type))
    pks.append(names.pop())
    fields.append([pks[-1], t])
  for _ in range(draw(st.integers(0, max_extra))):
    fields.append([names.pop(), draw(types())])
  for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
    t = draw(st.sampled_from(["bin", "bin"] + [["tf", k] for k in TF_SPECS]))
    recs.append(names.pop())
    fields.append([recs[-1], t])
  fields = [list(f) for f in draw(st.permutations(fields))]
  if draw(st.booleans()):
    pks, recs = pks[::-1], recs[::-1]
  return dict(fields=fields, pks=pks, records=recs)


@st.composite
def valid(draw):
  spec = draw(definitions())
  row = st.tuples(*[
      value(t, null=n not in spec["pks"] and n not in spec["records"])
      for n, t in spec["fields"]
  ]).map(list)
  idx = [i for i, f in enumerate(spec["fields"]) if f[0] in spec["pks"]]
  rows = draw(st.lists(row, min_size=2, max_size=4,
                       unique_by=lambda r: tuple(r[i] for i in idx)))
  return dict(schema=spec, rows=rows, mask=draw(st.integers(0, 1023)))


# ---------------------------------------------------------------- invalid


def run_invalid(case, ctx):
  spec, bad = case["schema"], case["bad"]
  loc = ctx.new_dir()
  before = None
  if case["existing"]:
    ds = call("create", Dataset.create, loc, arrow_schema(spec), spec["pks"],
              spec["records"])
    before = tree(loc)
  elif case["existing"] is None:
    os.makedirs(loc)
  what = f"create with {case['kind']}"
  try:
    Dataset.create(loc, arrow_schema(bad), bad["pks"], bad["records"])
  except SPACE_ERRORS:
    pass
  except TypeError:  # Types that the format cannot express.
    check(case["kind"] == "type", f"{what}: refused with a TypeError")
  except Exception as e:
    raise Violation(f"{what}: {type(e).__name__}: {e}") from e
  else:
    raise Violation(f"{what}: was not refused")
  ctx.label("refused:" + case["kind"])
  ctx.nontrivial()
  if before is not None:
    after = tree(loc)
    for p, b in before.items():
      check(after.get(p) == b, f"{what}: {p} was changed")
    same_definition(call("load", Dataset.load, loc), spec, "existing dataset")
    return
  try:
    Dataset.load(loc)
  except Exception:  # pylint: disable=broad-except
    pass
  else:
    raise Violation(f"{what}: a dataset exists afterwards")
  ds = call(f"valid create after {what}", Dataset.create, loc,
            arrow_schema(spec), spec["pks"], spec["records"])
  same_definition(call("load", Dataset.load, loc), spec, "loaded")


@st.composite
def invalid(draw):
  spec = draw(definitions(3))
  bad = json.loads(json.dumps(spec))
  kind = draw(st.sampled_from(
      ["no_pk", "unknown_pk", "pk_type", "unknown_record", "record_pk",
       "record_type", "type"]))
  at = draw(st.integers(0, len(bad["fields"])))
  i = draw(st.integers(0, 2))
  if kind == "no_pk":
    bad["pks"] = []
  elif kind == "unknown_pk":
    bad["pks"].insert(i, draw(st.sampled_from(["nope", "", "A"])))
  elif kind == "pk_type":
    t = draw(types(2).filter(lambda t: t[0] in ("list", "struct")) |
             st.just(["tf", "scalar"]))
    bad["fields"].insert(at, ["zz", t])
    bad["pks"].insert(i, "zz")
  elif kind == "unknown_record":
    bad["records"].insert(i, draw(st.sampled_from(["nope", "", "A"])))
  elif kind == "record_pk":
    bad["fields"].insert(at, ["zz", "bin"])
    bad["pks"].insert(i, "zz")
    bad["records"].insert(i, "zz")
  elif kind == "record_type":
    bad["fields"].insert(at, ["zz", draw(types(1).filter(lambda t: t != "bin"))])
    bad["records"].insert(i, "zz")
  else:
    t = draw(st.sampled_from(sorted(UNSUPPORTED)))
    for _ in range(draw(st.integers(0, 2))):
      t = ["list", t] if draw(st.booleans()) else ["struct", [["q", t]]]
    bad["fields"].insert(at, ["zz", t])
  return dict(schema=spec, bad=bad, kind=kind,
              existing=draw(st.sampled_from([True, False, None])))


def run_existing(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"])
  for op in case["ops"]:
    sim.step(op)
  other = case["other"]
  if other is None:
    s = sim.schema
    args = (s.arrow(), s.pks, s.records)
  else:
    args = (arrow_schema(other), other["pks"], other["records"])
  before = tree(sim.loc)
  try:
    Dataset.create(sim.loc, *args)
  except SPACE_ERRORS:
    pass
  except Exception as e:
    raise Violation(f"create over existing: {type(e).__name__}: {e}") from e
  else:
    raise Violation("create over an existing dataset was not refused")
  after = tree(sim.loc)
  for p, b in before.items():
    check(after.get(p) == b, f"create over existing: {p} was changed")
  sim.check_everything()
  sim.step(["append", case["more"], 0])
  sim.check_everything()
  ctx.nontrivial(len(sim.snaps) > 1)


@st.composite
def existing(draw):
  p = draw(opsgen.program(data=3, refs=1, max_ops=4,
                          schema_kw=dict(max_extra=1, records=(0, 1))))
  return dict(p, other=draw(st.one_of(st.none(), definitions(1))),
              more=draw(gen.rows(p["schema"], 2, 1)))


SUITES = [
    Suite("valid", lambda tier: valid(), run_valid, 2400),
    Suite("invalid", lambda tier: invalid(), run_invalid, 1000),
    Suite("existing", lambda tier: existing(), run_existing, 500),
]
