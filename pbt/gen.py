"""Hypothesis strategies producing JSON cases."""

from hypothesis import strategies as st

from lib import FILTER_TYPES, INDEX_TYPES, NESTED_TYPES, PK_TYPES

NAMES = ["a", "k", "k1", "b", "val", "x_y", "Ab", "kk", "f0", "é", "a b"]

_POOL = {
    "i64": [0, 1, 2, 3, 5, 10, -1, -7, 2**63 - 1, -2**63, 2**40],
    "i32": [0, 1, 2, 3, 5, 10, -1, -7, 2**31 - 1, -2**31],
    "f64": [0.0, 0.5, 1.0, 1.5, 2.0, -0.5, -3.25, 1e300, 1e-5, 0.1],
    "f32": [0.0, 0.5, 1.0, 1.5, 2.0, -0.5, -3.25, 1048576.0],
    "str": ["", "a", "ab", "b", "A", "é", "z" * 70, "\U0001f600", "a\"\\", "0",
            "a ", " ", "a\0"],
    "bin": ["", "00", "61", "6162", "ff", "61" * 70, "80", "7f", "0a"],
    "bool": [False, True],
}


def pool_cell(t):
  return st.sampled_from(_POOL[t])


def scalar_cell(t):
  """A value of a scalar type, mostly from a small pool."""
  if t == "i64":
    return st.one_of(pool_cell(t), st.integers(-20, 20))
  if t == "i32":
    return st.one_of(pool_cell(t), st.integers(-20, 20))
  if t in ("f64", "f32"):
    return st.one_of(pool_cell(t), st.integers(-40, 40).map(lambda i: i / 4 + 0.125))
  if t == "str":
    return st.one_of(pool_cell(t), st.text("abz\u00e9", max_size=3))
  if t == "bin":
    return st.one_of(pool_cell(t), st.binary(max_size=3).map(bytes.hex))
  return pool_cell(t)


def key_cell(t):
  """Key values: few, so that keys collide."""
  if t in ("i64", "i32"):
    return st.integers(0, 5)
  if t in ("f64", "f32"):
    return st.integers(-2, 3).map(lambda i: i / 4 + 0.125)
  if t == "str":
    return st.sampled_from(["a", "", "ab", "b", "a ", "é", "b" * 60, "'\"\\"])
  if t == "bin":
    return st.sampled_from(["61", "", "6162", "00", "ff"])
  return st.booleans()


def wide_key_cell(t):
  return scalar_cell(t) if t != "bool" else st.booleans()


def _opt(s):
  return st.one_of(st.none(), s)


_ST = st.fixed_dictionaries({
    "a": _opt(st.integers(-3, 3)),
    "b": _opt(st.sampled_from(["", "p", "q"]))
})


def cell(t):
  """A nullable value of any type."""
  if t in _POOL:
    return st.one_of(scalar_cell(t), scalar_cell(t), st.none())
  if t == "li64":
    return _opt(st.lists(_opt(st.integers(-3, 3)), max_size=3))
  if t == "lstr":
    return _opt(st.lists(_opt(st.sampled_from(["", "p", "q"])), max_size=2))
  if t == "st":
    return _opt(_ST)
  if t == "lst":
    return _opt(st.lists(_opt(_ST), max_size=2))
  if t == "sst":
    return _opt(
        st.fixed_dictionaries({
            "x": _opt(st.fixed_dictionaries({"a": _opt(st.integers(0, 3))})),
            "y": _opt(st.lists(st.sampled_from([0.5, 1.5]), max_size=2))
        }))
  if t == "llst":
    return _opt(
        st.lists(_opt(st.lists(st.sampled_from(["u", "v"]), max_size=2)),
                 max_size=2))
  raise AssertionError(t)


def record_cell():
  return st.one_of(
      st.binary(max_size=4).map(bytes.hex),
      st.integers(0, 60).map(lambda n: ("%02x" % n) * n))


@st.composite
def schemas(draw, records=(0, 2), nested=True, pk_types=None, max_extra=3,
            max_pks=2, index_types=None):
  npk = draw(st.sampled_from([1, 1, max_pks])) if max_pks > 1 else 1
  pk_types = pk_types or PK_TYPES
  fields, pks, recs = [], [], []
  names = draw(st.permutations(NAMES))
  names = list(names)
  for i in range(npk):
    # A boolean cannot be the only key (it would allow two rows).
    ts = pk_types if i or npk > 1 else [t for t in pk_types if t != "bool"]
    n = names.pop()
    fields.append([n, draw(st.sampled_from(ts))])
    pks.append(n)
  kinds = (index_types or INDEX_TYPES) + (NESTED_TYPES if nested else [])
  for _ in range(draw(st.integers(0, max_extra))):
    fields.append([names.pop(), draw(st.sampled_from(kinds))])
  for _ in range(draw(st.integers(*records))):
    n = names.pop()
    fields.append([n, "bin"])
    recs.append(n)
  fields = draw(st.permutations(fields))
  if draw(st.booleans()):
    pks = pks[::-1]
  return dict(fields=[list(f) for f in fields], pks=pks, records=recs)


def row(spec, wide=False):
  cells = []
  for n, t in spec["fields"]:
    if n in spec["pks"]:
      cells.append(wide_key_cell(t) if wide else key_cell(t))
    elif n in spec["records"]:
      cells.append(record_cell())
    elif spec.get("nonull") and t not in NESTED_TYPES:
      cells.append(scalar_cell(t))
    else:
      cells.append(cell(t))
  return st.tuples(*cells).map(list)


def rows(spec, max_size=6, min_size=None, wide=False):
  """Rows; seldom none, unless min_size is given."""
  r = row(spec, wide)
  if min_size is None:
    return st.integers(0, 11).flatmap(lambda i: st.lists(
        r, min_size=int(i > 0), max_size=max_size))
  return st.lists(r, min_size=min_size, max_size=max_size)


def distinct_rows(spec, max_size=6, min_size=1, wide=False):
  """Rows with distinct primary keys."""
  idx = [[f[0] for f in spec["fields"]].index(k) for k in spec["pks"]]
  return st.lists(row(spec, wide), min_size=min_size, max_size=max_size,
                  unique_by=lambda r: tuple(r[i] for i in idx))


def _filter_names(spec):
  return [(n, t) for n, t in spec["fields"]
          if t in FILTER_TYPES and n not in spec["records"]]


@st.composite
def leaf(draw, spec, only=None):
  names = _filter_names(spec)
  if only is not None:
    names = [x for x in names if x[0] in only]
  # Keys are what pruning works on.
  pks = [x for x in names if x[0] in spec["pks"]]
  if pks and draw(st.integers(0, 2)) > 0:
    names = pks
  n, t = draw(st.sampled_from(names))
  kind = draw(st.integers(0, 14))
  if kind == 0:
    return ["null", n]
  if kind == 1:
    return ["valid", n]
  if kind == 2:
    return ["isin", n, draw(st.lists(_lit(spec, n, t), max_size=3))]
  if kind == 3:
    same = [m for m, u in _filter_names(spec) if u == t and m != n and
            (only is None or m in only)]
    if same:
      return ["ff", draw(_op(t)), n, draw(st.sampled_from(same))]
  if kind == 12:
    flags = [m for m, u in names if u == "bool"]
    if flags:
      return ["flag", draw(st.sampled_from(flags))]
  if kind == 13 and t in ("i64", "i32"):
    # Computed values are not pruned by.
    if t == "i32" and draw(st.booleans()):
      return ["cast", draw(_op(t)), n, draw(_halves)]
    return ["add", draw(_op(t)), n, draw(st.integers(-2, 2)),
            draw(_lit(spec, n, t))]
  if kind == 14 and only is None:
    # Not below NOT (not-over-key).
    subs = [m for m, u in spec["fields"] if u == "st"]
    if subs and draw(st.booleans()):
      return ["sub", draw(_op(t)), draw(st.sampled_from(subs)),
              draw(st.integers(-3, 3))]
    if draw(st.booleans()):
      return ["const", draw(st.booleans())]
    a = draw(pool_cell(t))
    return ["lits", draw(_op(t)), t, a, draw(st.one_of(st.just(a), pool_cell(t)))]
  return ["cmp", draw(_op(t)), n, draw(_lit(spec, n, t)),
          draw(st.integers(0, 2))]


_halves = st.integers(-6, 14).map(lambda i: i / 2)


def _op(t):
  if t == "bool":
    return st.sampled_from(["==", "!="])
  return st.sampled_from(["==", "<", "<=", ">", ">=", "!="])


def _lit(spec, n, t):
  if n in spec["pks"]:
    return st.one_of(key_cell(t), key_cell(t), wide_key_cell(t))
  return scalar_cell(t)


@st.composite
def filters(draw, spec, depth=2, only=None):
  """A filter. NOT is applied to expressions over non-key fields only: the
  pruning of negated key expressions is a known finding (not-over-key)."""
  k = draw(st.integers(0, 9)) if depth > 0 else 0
  if k < 5:
    return draw(leaf(spec, only))
  if k < 9:
    return [draw(st.sampled_from(["and", "or"])),
            draw(filters(spec, depth - 1, only)),
            draw(filters(spec, depth - 1, only))]
  nonkey = [n for n, _ in _filter_names(spec) if n not in spec["pks"] and
            (only is None or n in only)]
  if not nonkey:
    return draw(leaf(spec, only))
  return ["not", draw(filters(spec, depth - 1, nonkey))]


@st.composite
def pair_filters(draw, spec, depth=2):
  """Filters which relate two primary keys of the same type."""
  a, b = spec["pks"]
  t = dict(map(tuple, spec["fields"]))[a]
  if depth and draw(st.integers(0, 3)) == 0:
    return [draw(st.sampled_from(["and", "or"])),
            draw(pair_filters(spec, depth - 1)),
            draw(pair_filters(spec, depth - 1))]
  if draw(st.integers(0, 3)) == 0:
    return draw(leaf(spec, [a, b]))
  if draw(st.booleans()):
    a, b = b, a
  return ["ff", draw(_op(t)), a, b]


layouts = st.sampled_from([0, 1, 1, 2, 3, 4])
