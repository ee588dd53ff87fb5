"""C04: filtered and projected reads."""

from hypothesis import strategies as st

from engine import Suite
import gen
from lib import call, check, evaluate, same_rows, table_rows, to_expr
import opsgen
from sim import Sim
from checks.c11 import resolve

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "A case is a generated dataset (history of up to 5 writes, schema, layout) "
    "and a list of reads with generated filters, field lists, versions and batch "
    "sizes, some by record reference; each is compared with an independent evaluation of the filter on "
    "the model's rows. Non-trivial: a filter that keeps some but not all rows.")
ASSUMPTIONS = [
    "NOT is not applied to primary keys in filters (known finding "
    "not-over-key); other negations are generated",
    "no NaN; primary keys are not null or larger than 4 KB",
]


def read_rows(sim, what, t, names, ref):
  schema = sim.schema
  if not ref:
    return call(what, table_rows, t, names, schema.types, what)
  check(sorted(t.schema.names) == sorted(names),
        lambda: f"{what}: fields {t.schema.names}, expected {names}")
  plain = [n for n in names if n not in schema.records]
  rows = call(what, table_rows, t.select(plain), plain, schema.types, what)
  cols = {n: [r[i] for r in rows] for i, n in enumerate(plain)}
  for n in names:
    if n not in cols:
      cols[n] = resolve(sim, t, n, {})
  return list(zip(*[cols[n] for n in names]))


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"])
  schema = sim.schema
  for op in case["ops"]:
    sim.step(op)
  ds = sim.load() if case["fresh"] else sim.ds
  for i, r in enumerate(case["reads"]):
    kw = {}
    rows = sim.head_rows()
    if r["version"] is not None:
      sid = sorted(sim.snaps)[r["version"] % len(sim.snaps)]
      kw["version"] = sid
      rows = sim.snaps[sid].rows
    total = len(rows)
    if r["filter"] is not None:
      f = r["filter"]
      kw["filter_"] = to_expr(f, schema)
      rows = [x for x in rows if evaluate(f, schema, x) is True]
      ctx.nontrivial(0 < len(rows) < total)
      ctx.label("filter:" + ("none" if not rows else "all" if len(rows) ==
                             total else "some"))
    names = schema.names
    if r["fields"] is not None:
      names = []
      for x in r["fields"]:
        n = schema.names[x % len(schema.names)]
        if n not in names:
          names.append(n)
      kw["fields"] = list(names)
      ctx.label("projected")
    if r["batch"] is not None:
      kw["batch_size"] = r["batch"]
    if r["ref"]:
      kw["reference_read"] = True
      ctx.label("reference_read")
    limit = r["batch"] or 16
    what = f"read {i} {r}"
    tables = call(what, lambda: list(ds.local().read(**kw)))
    got = []
    for t in tables:
      check(t.num_rows <= limit,
            lambda: f"{what}: batch of {t.num_rows} rows, limit {limit}")
      got += read_rows(sim, what, t, names, r["ref"])
    idx = [schema.names.index(n) for n in names]
    same_rows(got, [tuple(x[j] for j in idx) for x in rows], what)
    if len(tables) > 1:
      ctx.label("batched")


@st.composite
def strategy(draw, max_ops=4, depth=2, schema_kw=None, weights=None,
             layouts=None):
  spec = draw(gen.schemas(**(schema_kw or {})))
  w = weights or dict(append=6, append_from=3, bulk=2, upsert=2, delete=1)
  ops = draw(st.lists(opsgen.data_op(spec, w, 8, external=True), min_size=1,
                      max_size=max_ops))
  n = len(spec["fields"])
  one = st.fixed_dictionaries(
      dict(filter=st.one_of(gen.filters(spec, depth), gen.filters(spec, depth),
                            gen.filters(spec, depth), st.none()),
           fields=st.one_of(
               st.none(), st.none(),
               st.lists(st.integers(0, n - 1), min_size=1, max_size=n)),
           version=st.one_of(st.none(), st.none(), st.integers(0, 9)),
           batch=st.one_of(st.none(), st.none(), st.integers(1, 20)),
           ref=st.integers(0, 4).map(lambda i: i == 0)))
  return dict(schema=spec, layout=draw(layouts or gen.layouts), ops=ops,
              fresh=draw(st.booleans()),
              reads=draw(st.lists(one, min_size=2, max_size=8)))


@st.composite
def pairs(draw):
  """Two keys of one type, related to each other, in many small files."""
  t = draw(st.sampled_from(["i64", "i64", "str", "f64", "i32", "bin", "f32"]))
  spec = dict(fields=[["k", t], ["b", t]], pks=["k", "b"], records=[])
  if draw(st.booleans()):
    spec["fields"].append(["v", "i64"])
  ops = draw(st.lists(st.builds(
      lambda rows: ["append", rows, 0], gen.rows(spec, 3, 1)), min_size=2,
                      max_size=8))
  one = st.fixed_dictionaries(
      dict(filter=gen.pair_filters(spec), fields=st.none(),
           version=st.none(), batch=st.none(), ref=st.just(False)))
  return dict(schema=spec, layout=draw(st.sampled_from([0, 1, 2, 4])), ops=ops,
              fresh=False, reads=draw(st.lists(one, min_size=2, max_size=10)))


SUITES = [
    Suite("reads", lambda tier: strategy(), run, 1400),
    # Many small files, filters on keys: what pruning decides.
    Suite("pruning", lambda tier: strategy(
        max_ops=6, schema_kw=dict(max_extra=1, records=(0, 0), nested=False),
        weights=dict(append=8, append_from=2, delete_key=1),
        layouts=st.sampled_from([1, 1, 2, 4])), run, 1400),
    Suite("pairs", lambda tier: pairs(), run, 800),
    Suite("deep", lambda tier: strategy(
        max_ops=3, depth=3, schema_kw=dict(max_extra=3, records=(0, 0))), run,
          240),
]
