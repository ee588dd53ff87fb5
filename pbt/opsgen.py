"""Strategies for programs of Sim ops."""

from hypothesis import strategies as st

import gen

NAMES = ["t1", "b1", "b2"]
# Names which look like snapshot IDs are names, too.
NUMBERS = ["0", "1", "2", "4"]
REF_NAMES = st.sampled_from(NAMES * 5 + NUMBERS + ["main", ""])
FORKS = st.sampled_from(NAMES * 3 + ["1", "2"])
modes = st.integers(0, 59)


@st.composite
def data_op(draw, spec, weights=None, size=5, external=False):
  w = weights or dict(append=4, append_from=2, bulk=2, insert=3, upsert=4,
                      delete=5, delete_key=2, delete_all=1)
  if external:
    w = dict(w, **{"ar" if spec["records"] else "pq": 3})
  kinds = [k for k, n in w.items() for _ in range(n)]
  k = draw(st.sampled_from(kinds))
  if k == "append":
    return ["append", draw(gen.rows(spec, size, wide=draw(st.booleans()))),
            draw(modes)]
  if k == "append_from":
    return ["append_from",
            draw(st.lists(st.lists(gen.rows(spec, 4), max_size=3),
                          min_size=1, max_size=3)), draw(modes)]
  if k == "bulk":
    return ["bulk", draw(st.sampled_from(["append", "append", "upsert"])),
            draw(st.integers(0, 30)), draw(st.integers(1, 45)),
            draw(st.integers(1, 3))]
  if k == "insert":
    how = draw(st.integers(0, 6))
    if how < 2:
      return ["insert", draw(gen.rows(spec, size)), draw(modes)]
    if how < 4:
      return ["reinsert", draw(st.integers(0, 50)),
              draw(gen.distinct_rows(spec, 2, wide=True)), draw(modes)]
    return ["insert", draw(gen.distinct_rows(spec, 3, wide=True)), draw(modes)]
  if k == "upsert":
    if draw(st.integers(0, 7)) == 0:
      return ["upsert", draw(gen.rows(spec, size)), draw(modes)]
    return ["upsert", draw(gen.distinct_rows(spec, size)), draw(modes)]
  if k == "delete":
    return ["delete", draw(gen.filters(spec))]
  if k == "delete_key":
    return ["delete_key", draw(st.integers(0, 50))]
  if k == "delete_all":
    return ["delete_all"]
  if k == "pq":
    f = st.tuples(gen.rows(spec, 5), st.integers(1, 4), st.integers(0, 4))
    return ["pq", [list(x) for x in draw(st.lists(f, max_size=3))],
            draw(st.integers(0, 1))]
  if k == "ar":
    return ["ar", draw(st.lists(gen.rows(spec, 4), max_size=3)),
            draw(st.integers(0, 1))]
  raise AssertionError(k)


@st.composite
def ref_op(draw, handles=1):
  k = draw(st.sampled_from(
      ["tag", "tag", "tag_at", "tag_bad", "untag", "untag_any", "branch",
       "branch", "unbranch", "switch", "use", "use", "fresh", "fork", "fork",
       "fork", "goto", "goto", "goto", "goto", "drop"]))
  n = draw(REF_NAMES)
  if k in ("goto", "drop", "untag_any"):
    return [k, draw(st.integers(0, 3))]
  if k == "fork":
    return [k, draw(FORKS)]
  if k == "tag":
    return ["tag", n]
  if k == "tag_at":
    return ["tag", n, draw(st.integers(0, 30))]
  if k in ("use", "fresh"):
    return [k, draw(st.integers(0, handles - 1))]
  if k == "switch":
    return ["switch", draw(st.sampled_from(NAMES + ["main"] * 3 + ["1"]))]
  return [k, n]


@st.composite
def program(draw, data=5, refs=0, max_ops=8, min_ops=1, handles=1, size=5,
            weights=None, external=False, schema_kw=None, forked=False):
  """A schema, a layout and a list of ops; data:refs is their proportion."""
  spec = draw(gen.schemas(**(schema_kw or {})))
  total = data + refs
  one = st.integers(0, total - 1).flatmap(
      lambda i: data_op(spec, weights, size, external)
      if i < data else ref_op(handles))
  n = draw(st.integers(min_ops, max_ops))
  ops = [draw(one) for _ in range(n)]
  if forked:
    # A branch with commits on both sides, in the middle of the history.
    at = draw(st.integers(0, n))
    d = lambda: draw(data_op(spec, weights, size, external))
    ops[at:at] = [["append", draw(gen.rows(spec, size, 1)), 0], ["fork", "b1"],
                  d(), d(), ["goto", 1], d()]
  return dict(schema=spec, layout=draw(gen.layouts), handles=handles, ops=ops)


@st.composite
def large(draw, records=False, max_ops=3):
  """Files of more than 2**16 rows, and changes around both of their ends."""
  spec = dict(fields=[["k", "i64"], ["v", "i64"]], pks=["k"], records=[])
  if draw(st.booleans()):
    spec["pks"].append("v")
    spec["nonull"] = True
  if records:
    spec["fields"].append(["r", "bin"])
    spec["records"].append("r")
  n = draw(st.integers(65530, 72000))
  start = draw(st.integers(-70000, 5))
  edges = [start, start + n, start + 65536, start + 32768]
  at = st.builds(lambda e, d: e + d, st.sampled_from(edges),
                 st.integers(-4, 4))
  size = st.integers(1, 12)
  cut = st.builds(lambda op, k: ["cmp", op, "k", k, 0],
                  st.sampled_from(["<", "<=", ">", ">=", "=="]), at)
  window = st.builds(
      lambda k, m: ["and", ["cmp", ">=", "k", k, 0], ["cmp", "<", "k", k + m, 0]
                   ], at, size)
  delete = st.one_of(window, window, cut,
                     st.just(["null", "v"])).map(lambda f: ["delete", f])
  few = st.tuples(st.just("bulk"), st.sampled_from(["append", "upsert"]), at,
                  size, st.integers(1, 3)).map(list)
  ops = [["bulk", "append", start, n, 1]]
  if draw(st.booleans()):
    ops.insert(0, ["bulk", "append", start - 5, 3, 1])
  ops += [draw(delete)] + draw(st.lists(st.one_of(delete, few),
                                        max_size=max_ops))
  return dict(schema=spec, layout=0, handles=1, ops=ops)
