"""Generated views: steps as JSON, as Space views, and as a pure model.

A step is one of
  ["filter", predicate, fields or None]
  ["map", {"outs": [[name, type, expression], ...], "records": [...],
           "keep": predicate or None, "dup": n}, fields or None,
   batch size or None]
expression: ["copy", f] ["add", f, c] ["len", f] ["eq", f, cell] ["const", cell]
Every primary key is copied. Rows hold no nulls and nested fields are not read
(the conversions of nulls and lists to NumPy are Ray's business).
"""

from hypothesis import strategies as st
import numpy as np
import pyarrow as pa

import gen
import lib
from lib import TYPES, Schema, decode, evaluate

NP = {"i64": np.int64, "i32": np.int32, "f64": np.float64, "f32": np.float32,
      "bool": np.bool_, "str": object, "bin": object}

# Called by every user defined function (also by ones loaded from a pickle).
HOOK = [None]


def hook():
  if HOOK[0] is not None:
    HOOK[0]()


class VSchema(Schema):
  """The schema of a view: what is declared, and the fields its data has."""

  def __init__(self, spec, avail=None):
    super().__init__(spec)
    self.avail = avail or [n for n, t in self.fields if t not in gen.NESTED_TYPES]


def eval_expr(e, t, schema, row):
  k = e[0]
  if k == "const":
    return decode(t, e[1])
  v = row[schema.names.index(e[1])]
  if k == "copy":
    return v
  if k == "add":
    return v + e[2]
  if k == "len":
    return len(v)
  if k == "eq":
    return v == decode(schema.types[e[1]], e[2])
  raise AssertionError(e)


def np_column(values, t):
  a = np.empty(len(values), dtype=NP[t])
  for i, v in enumerate(values):
    a[i] = v
  return a


def narrow(schema, fields):
  """The schema a function sees that reads the given fields."""
  names = fields or schema.avail
  return Schema(dict(fields=[[n, schema.types[n]] for n in names],
                     pks=schema.pks, records=[]))


def map_rows(m, schema, rows):
  out = []
  for r in rows:
    if m["keep"] is not None and evaluate(m["keep"], schema, r) is not True:
      continue
    out += [tuple(eval_expr(e, t, schema, r) for _, t, e in m["outs"])
            ] * m["dup"]
  return out


def map_fn(m, spec, size=None):
  """The user defined function of a map step."""

  def fn(batch):
    import viewgen
    viewgen.hook()
    schema = viewgen.Schema(spec)
    if sorted(batch) != sorted(schema.names):
      raise viewgen.lib.Violation(f"map function got fields {list(batch)}, "
                                  f"reads {schema.names}")
    if size is not None and len(batch[schema.names[0]]) > size:
      raise viewgen.lib.Violation(
          f"map function got {len(batch[schema.names[0]])} rows, its batch "
          f"size is {size}")
    cols = [batch[n].tolist() for n in schema.names]
    rows = viewgen.map_rows(m, schema, list(zip(*cols)))
    return {
        n: viewgen.np_column([r[i] for r in rows], t)
        for i, (n, t, _) in enumerate(m["outs"])
    }

  return fn


def filter_fn(pred, spec):

  def fn(row):
    import viewgen
    viewgen.hook()
    schema = viewgen.Schema(spec)
    if sorted(row) != sorted(schema.names):
      raise viewgen.lib.Violation(f"filter function got fields {list(row)}, "
                                  f"reads {schema.names}")
    r = tuple(row[n] for n in schema.names)
    return viewgen.evaluate(pred, schema, r) is True

  return fn


def out_schema(step, schema):
  if step[0] == "filter":
    return VSchema(schema.spec, step[2] or schema.avail)
  m = step[1]
  return VSchema(dict(fields=[[n, t] for n, t, _ in m["outs"]], pks=schema.pks,
                      records=m["records"]))


def schemas_of(steps, schema):
  out = [VSchema(schema.spec)]
  for s in steps:
    out.append(out_schema(s, out[-1]))
  return out


def build(steps, ds, schema, input_fields_of=None):
  """The Space view (with the given lists of input fields)."""
  view = ds
  cur = VSchema(schema.spec)
  for i, s in enumerate(steps):
    seen = narrow(cur, s[2])
    fields = None if s[2] is None else list(s[2])
    if input_fields_of is not None:
      fields = input_fields_of[i]
    if s[0] == "filter":
      view = view.filter(filter_fn(s[1], seen.spec), input_fields=fields)
    else:
      o = out_schema(s, cur)
      kw = {}
      if s[3] is not None:
        kw["batch_size"] = s[3]
      if o.records:
        kw["output_record_fields"] = list(o.records)
      view = view.map_batches(
          map_fn(s[1], seen.spec, s[3]),
          output_schema=pa.schema([(n, TYPES[t]) for n, t in o.fields]),
          input_fields=fields, **kw)
    cur = out_schema(s, cur)
  return view


def apply(steps, schema, rows):
  """The rows of the view (in the order of the fields its data has)."""
  cur = VSchema(schema.spec)
  rows = [tuple(r[cur.names.index(n)] for n in cur.avail) for r in rows]
  for s in steps:
    seen = narrow(cur, s[2])
    idx = [cur.avail.index(n) for n in seen.names]
    rows = [tuple(r[i] for i in idx) for r in rows]
    if s[0] == "filter":
      rows = [r for r in rows if evaluate(s[1], seen, r) is True]
    else:
      rows = map_rows(s[1], seen, rows)
    cur = out_schema(s, cur)
  return rows


# ---------------------------------------------------------------- strategies


def source_schemas(records=(0, 1), nested=False, **kw):
  """With nested fields, which views do not read."""
  kw = dict(dict(max_extra=3), **kw)
  return gen.schemas(records=records, nested=nested, **kw).map(
      lambda s: dict(s, nonull=True))


@st.composite
def expr(draw, schema):
  """(type, expression) over the fields of a schema."""
  names = [(n, t) for n, t in schema.fields]
  n, t = draw(st.sampled_from(names))
  kinds = ["copy", "copy", "const"]
  if t in ("f64", "f32"):
    kinds += ["add"]
  if t in ("i64", "i32"):
    kinds += ["eq"]
  if t in ("str", "bin"):
    kinds += ["len", "len"]
  if t not in ("f32",):
    kinds += ["eq"]
  k = draw(st.sampled_from(kinds))
  if k == "copy":
    return t, ["copy", n]
  if k == "add":
    return t, ["add", n, draw(st.sampled_from([0.5, -2.0, 16.0]))]
  if k == "len":
    return "i64", ["len", n]
  if k == "eq":
    return "bool", ["eq", n, draw(gen.key_cell(t))]
  ct = draw(st.sampled_from(["i64", "str", "f64", "bool", "bin"]))
  return ct, ["const", draw(gen.key_cell(ct))]


@st.composite
def input_fields(draw, schema, force=False):
  """None or a list of fields with all primary keys."""
  rest = [n for n in schema.avail if n not in schema.pks]
  if not force and draw(st.booleans()):
    return None
  extra = draw(st.lists(st.sampled_from(rest), unique=True)) if rest else []
  return draw(st.permutations(list(schema.pks) + extra))


@st.composite
def steps(draw, schema, max_steps=3, min_steps=1, subset_filter=True):
  cur = VSchema(schema.spec)
  out = []
  n = draw(st.integers(min_steps, max_steps))
  for i in range(n):
    missing = set(cur.avail) != set(cur.names)
    kind = draw(st.sampled_from(["map", "map", "filter"]))
    if missing and not subset_filter:
      kind = "map"
    fields = draw(input_fields(cur, force=missing))
    if kind == "filter":
      if not subset_filter:
        fields = None
      seen = narrow(cur, fields)
      s = ["filter", draw(pred(seen)), fields]
    else:
      seen = narrow(cur, fields)
      outs = [[k, seen.types[k], ["copy", k]] for k in seen.pks]
      free = [x for x in gen.NAMES + ["o1", "o2"] if x not in seen.pks]
      for _ in range(draw(st.integers(0, 3))):
        name = draw(st.sampled_from(free))
        free.remove(name)
        outs.append([name, *draw(expr(seen))])
      outs = draw(st.permutations(outs))
      recs = [o[0] for o in outs if o[1] == "bin" and o[0] not in seen.pks and
              draw(st.booleans())]
      m = dict(outs=[list(o) for o in outs], records=recs, keep=draw(
          st.one_of(st.none(), st.none(), pred(seen))),
               dup=draw(st.sampled_from([1, 1, 1, 1, 2])))
      s = ["map", m, fields, draw(st.one_of(st.none(), st.integers(1, 9)))]
    out.append(s)
    cur = out_schema(s, cur)
  return out


def pred(schema):
  spec = schema.spec
  return gen.filters(dict(spec, records=[]), depth=1)


ray_opts = st.fixed_dictionaries(
    dict(par=st.sampled_from([1, 2, 3, 8]), range=st.booleans()))


def ray_options(o):
  from space import RayOptions
  return RayOptions(max_parallelism=o["par"], enable_row_range_block=o["range"])
