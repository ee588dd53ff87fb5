"""Schemas, values, filters and helpers shared by the checks.

Everything a case contains is JSON; binary cells are hex strings.
"""

from collections import Counter
import os

import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq

from engine import Violation

from space import Dataset  # noqa: F401
from space.core.options import (ArrayRecordOptions, FileOptions,
                                ParquetWriterOptions)
from space.core.schema.types import File
from space.core.utils import errors

SPACE_ERRORS = (errors.SpaceRuntimeError, errors.UserInputError)

# ---------------------------------------------------------------- types

_ST = pa.struct([("a", pa.int64()), ("b", pa.string())])
TYPES = {
    "i64": pa.int64(),
    "i32": pa.int32(),
    "f64": pa.float64(),
    "f32": pa.float32(),
    "str": pa.string(),
    "bin": pa.binary(),
    "bool": pa.bool_(),
    "li64": pa.list_(pa.int64()),
    "lstr": pa.list_(pa.string()),
    "st": _ST,
    "lst": pa.list_(_ST),
    "sst": pa.struct([("x", pa.struct([("a", pa.int64())])),
                      ("y", pa.list_(pa.float64()))]),
    "llst": pa.list_(pa.list_(pa.string())),
}
PK_TYPES = ["i64", "str", "i32", "f64", "bin", "f32", "bool"]
INDEX_TYPES = ["i64", "str", "f64", "i32", "bool", "bin", "f32"]
NESTED_TYPES = ["li64", "st", "lst", "sst", "lstr", "llst"]
FILTER_TYPES = ("i64", "i32", "f64", "f32", "str", "bin", "bool")


def decode(t, cell):
  if cell is None:
    return None
  if t == "bin":
    return bytes.fromhex(cell)
  return cell


def canon_value(v):
  if isinstance(v, list):
    return tuple(canon_value(x) for x in v)
  if isinstance(v, dict):
    return tuple(sorted((k, canon_value(x)) for k, x in v.items()))
  return v


class Schema:
  """fields: [[name, type], ...]; pks, records: names."""

  def __init__(self, spec):
    self.spec = spec
    self.fields = [(n, t) for n, t in spec["fields"]]
    self.names = [n for n, _ in self.fields]
    self.types = dict(self.fields)
    self.pks = list(spec["pks"])
    self.records = list(spec.get("records", []))
    self.index = [n for n in self.names if n not in self.records]

  def arrow(self):
    return pa.schema([pa.field(n, TYPES[t]) for n, t in self.fields])

  def row(self, cells):
    """JSON cells -> row (tuple of canonical values in schema order)."""
    return tuple(
        canon_value(decode(t, c)) for (_, t), c in zip(self.fields, cells))

  def rows(self, rows):
    return [self.row(r) for r in rows]

  def key(self, row):
    return tuple(row[self.names.index(k)] for k in self.pks)

  def table(self, rows, perm=0, chunks=1):
    """An Arrow table of JSON rows, with a column order and chunking."""
    names = list(self.names)
    if perm:
      k = perm % len(names)
      names = names[k:] + names[:k]
      if perm % 2:
        names.reverse()
    arrays = []
    for n in names:
      i = self.names.index(n)
      t = self.types[n]
      vals = [decode(t, r[i]) for r in rows]
      if chunks > 1 and len(vals) > 1:
        cut = max(1, len(vals) // chunks)
        parts = [vals[j:j + cut] for j in range(0, len(vals), cut)]
        arrays.append(
            pa.chunked_array([pa.array(p, TYPES[t]) for p in parts], TYPES[t]))
      else:
        arrays.append(pa.array(vals, TYPES[t]))
    return pa.table(dict(zip(names, arrays)))

  def input(self, rows, mode):
    """Input data for a write: a table or a dict. mode: int."""
    if mode % 4 == 3:
      d = {
          n: [decode(t, r[i]) for r in rows]
          for i, (n, t) in enumerate(self.fields)
      }
      try:
        if not rows or pa.Table.from_pydict(d).schema.equals(self.arrow()):
          return d
      except (pa.ArrowInvalid, pa.ArrowTypeError):
        pass
    return self.table(rows, perm=(mode // 4) % 5,
                      chunks=1 + (mode // 20) % 3)

  def bulk(self, start, n, stride=1):
    """n generated rows with keys start, start+stride, ... (JSON cells)."""
    return [self.gen_row(start + i * stride) for i in range(n)]

  def gen_row(self, k):
    cells = []
    seen = 0
    for name, t in self.fields:
      if name in self.pks:
        # Only the first key (not a bool) is unique; others need not be.
        if seen == 0 and t != "bool":
          cells.append(gen_cell(t, k))
          seen += 1
        else:
          cells.append(gen_cell(t, k // 3))
      elif name in self.records:
        cells.append(("%06x" % (k % 999983)) * (1 + k % 4))
      elif k % 7 == 3 and not self.spec.get("nonull"):
        cells.append(None)
      else:
        cells.append(gen_cell(t, (k * 5) % 11))
    return cells


def gen_cell(t, k):
  if t in ("i64", "i32"):
    return k
  if t in ("f64", "f32"):
    return k / 4 + 0.25
  if t == "str":
    return "s%04d" % k
  if t == "bin":
    return "%06x" % (k % 0xffffff)
  if t == "bool":
    return k % 2 == 0
  if t == "li64":
    return list(range(k % 4))
  if t == "lstr":
    return ["x%d" % i for i in range(k % 3)]
  if t == "st":
    return {"a": k, "b": "b%d" % k}
  if t == "lst":
    return [{"a": i, "b": None} for i in range(k % 3)]
  if t == "sst":
    return {"x": {"a": k}, "y": [k / 2]}
  if t == "llst":
    return [["q"] * (k % 3), []]
  raise AssertionError(t)


LAYOUTS = {
    # Default; one file per written table; one row group per written table;
    # a few tables per row group and file.
    0: (100 * 1024, 1024 * 1024, 100 * 1024 * 1024),
    1: (1, 1, 1),
    2: (1, 1024 * 1024, 60),
    3: (150, 400, 200),
    4: (1, 600, 1),
}


def file_options(layout):
  rg, f, rec = LAYOUTS[layout]
  return FileOptions(
      ParquetWriterOptions(max_uncompressed_row_group_bytes=rg,
                           max_uncompressed_file_bytes=f),
      ArrayRecordOptions(max_uncompressed_file_bytes=rec))


# ---------------------------------------------------------------- filters
# ["cmp", op, field, cell, style]  style 0 python literal, 1 typed scalar,
#                                  2 literal on the left
# ["ff", op, field, field]  ["null", f] ["valid", f] ["isin", f, cells]
# ["and"|"or", a, b] ["not", a] ["const", bool]

_OPS = {
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
}


def filter_fields(f):
  if f[0] == "cmp":
    return {f[2]}
  if f[0] == "ff":
    return {f[2], f[3]}
  if f[0] in ("null", "valid", "isin"):
    return {f[1]}
  if f[0] == "const":
    return set()
  return set().union(*[filter_fields(x) for x in f[1:]])


def to_expr(f, schema):
  k = f[0]
  if k == "cmp":
    _, op, name, cell, style = f
    t = schema.types[name]
    v = decode(t, cell)
    if style == 1:
      v = pc.scalar(pa.scalar(v, TYPES[t]))
    if style == 2:
      return _OPS[op](pc.scalar(pa.scalar(v, TYPES[t])), pc.field(name))
    return _OPS[op](pc.field(name), v)
  if k == "ff":
    return _OPS[f[1]](pc.field(f[2]), pc.field(f[3]))
  if k == "null":
    return pc.field(f[1]).is_null()
  if k == "valid":
    return pc.field(f[1]).is_valid()
  if k == "isin":
    t = schema.types[f[1]]
    return pc.field(f[1]).isin(pa.array([decode(t, c) for c in f[2]], TYPES[t]))
  if k == "and":
    return to_expr(f[1], schema) & to_expr(f[2], schema)
  if k == "or":
    return to_expr(f[1], schema) | to_expr(f[2], schema)
  if k == "not":
    return ~to_expr(f[1], schema)
  if k == "const":
    return pc.scalar(f[1])
  if k == "lits":
    a, b = (pc.scalar(pa.scalar(decode(f[2], c), TYPES[f[2]])) for c in f[3:])
    return _OPS[f[1]](a, b)
  if k == "flag":
    return pc.field(f[1])
  if k == "cast":
    return _OPS[f[1]](pc.field(f[2]).cast("float64"), f[3])
  if k == "add":
    t = TYPES[schema.types[f[2]]]
    return _OPS[f[1]](pc.add(pc.field(f[2]), pa.scalar(f[3], t)),
                      pa.scalar(f[4], t))
  if k == "sub":
    return _OPS[f[1]](pc.field(f[2], "a"), f[3])
  raise AssertionError(k)


def evaluate(f, schema, row):
  """Kleene evaluation: True, False or None (null)."""
  k = f[0]
  val = lambda n: row[schema.names.index(n)]
  if k == "cmp":
    _, op, name, cell, style = f
    a, b = val(name), canon_value(decode(schema.types[name], cell))
    if a is None or b is None:
      return None
    return _OPS[op](b, a) if style == 2 else _OPS[op](a, b)
  if k == "ff":
    a, b = val(f[2]), val(f[3])
    return None if a is None or b is None else _OPS[f[1]](a, b)
  if k == "null":
    return val(f[1]) is None
  if k == "valid":
    return val(f[1]) is not None
  if k == "isin":
    return val(f[1]) in [decode(schema.types[f[1]], c) for c in f[2]]
  if k == "and":
    a, b = evaluate(f[1], schema, row), evaluate(f[2], schema, row)
    if a is False or b is False:
      return False
    return None if a is None or b is None else True
  if k == "or":
    a, b = evaluate(f[1], schema, row), evaluate(f[2], schema, row)
    if a is True or b is True:
      return True
    return None if a is None or b is None else False
  if k == "not":
    a = evaluate(f[1], schema, row)
    return None if a is None else not a
  if k == "const":
    return f[1]
  if k == "lits":
    return _OPS[f[1]](*[canon_value(decode(f[2], c)) for c in f[3:]])
  if k == "flag":
    return val(f[1])
  if k == "cast":
    return None if val(f[2]) is None else _OPS[f[1]](float(val(f[2])), f[3])
  if k == "add":
    v = val(f[2])
    if v is None:
      return None
    n = 2**63 if schema.types[f[2]] == "i64" else 2**31
    return _OPS[f[1]]((v + f[3] + n) % (2 * n) - n, f[4])
  if k == "sub":
    v = dict(val(f[2]) or ()).get("a")
    return None if v is None else _OPS[f[1]](v, f[3])
  raise AssertionError(k)


# ---------------------------------------------------------------- calls


def call(what, fn, *args, **kwargs):
  """Calls the code under test; it must not raise."""
  try:
    return fn(*args, **kwargs)
  except Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: unexpected {type(e).__name__}: "
                    f"{str(e)[:600]}") from e


def refused(what, fn, *args, **kwargs):
  """Calls the code under test; it must refuse with one of its errors."""
  try:
    r = fn(*args, **kwargs)
  except SPACE_ERRORS:
    return
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: expected to be refused, got {type(e).__name__}: "
                    f"{str(e)[:400]}") from e
  raise Violation(f"{what}: expected to be refused, returned {r!r}")


def check(cond, msg):
  if not cond:
    raise Violation(msg() if callable(msg) else msg)


def table_rows(table, names, types=None, what="read"):
  """Rows of a table, as canonical tuples in the order of names."""
  if table is None:
    return []
  got = list(table.schema.names)
  check(sorted(got) == sorted(names),
        lambda: f"{what}: fields are {got}, expected {list(names)}")
  if types is not None:
    for n in names:
      want = TYPES[types[n]]
      have = table.schema.field(n).type
      check(have == want,
            lambda: f"{what}: field {n} has type {have}, expected {want}")
  cols = [table.column(n).to_pylist() for n in names]
  if not cols:
    return [()] * table.num_rows
  return [tuple(canon_value(v) for v in r) for r in zip(*cols)]


def multiset(rows):
  return Counter(rows)


def same_rows(got, want, what):
  g, w = multiset(got), multiset(want)
  if g != w:
    raise Violation(f"{what}: missing rows {_show(w - g)}, "
                    f"unexpected rows {_show(g - w)}")


def _show(c):
  items = sorted(c.items(), key=repr)[:6]
  return f"({sum(c.values())}) {items!r}"[:700]


def read(ds, schema, what, names=None, runner=None, **kwargs):
  """Rows read by read_all (all fields or the given ones)."""
  runner = runner or ds.local()
  fields = kwargs.get("fields")
  t = call(what, lambda: runner.read_all(**kwargs))
  return call(what, table_rows, t, names or fields or schema.names,
              schema.types, what)


def key_counter(schema, rows):
  return Counter(schema.key(r) for r in rows)


def tree(location):
  """relative path -> bytes of every file below a directory."""
  out = {}
  for d, _, files in os.walk(location):
    for f in files:
      p = os.path.join(d, f)
      with open(p, "rb") as fh:
        out[os.path.relpath(p, location)] = fh.read()
  return out


def write_parquet(path, schema, rows, rg=None, perm=0):
  t = schema.table(rows, perm=perm)
  pq.write_table(t, path, row_group_size=rg or max(1, len(rows)))


__all__ = [n for n in dir() if not n.startswith("__")]
