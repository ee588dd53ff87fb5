"""C14: the Ray runner does what the local runner does."""

from hypothesis import strategies as st

from engine import Suite
import gen
from lib import call, check, evaluate, same_rows, table_rows, to_expr
import opsgen
from sim import OK, Sim
import viewgen as vg
from checks.c05 import check_diff
from checks.c11 import resolve

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "A case is a generated history, run on one dataset with the Ray runner "
    "(generated parallelism, row range option and file layout per operation, "
    "mixed with local operations) and on a second one with the local runner, "
    "both against the model. Compared: the outcome, reported and stored row "
    "counts and record bytes of every operation, contents after each; at the "
    "end reads with generated filters, fields, versions, batch sizes and record "
    "references through both runners, diffs of every snapshot and of generated "
    "pairs, and ray_dataset(). Non-trivial: an operation on Ray with at least "
    "two tasks deleted or replaced some rows.")
ASSUMPTIONS = [
    "the Ray API is provided by a stand-in that runs tasks and actors one after "
    "another in one process, on copies of their messages",
    "append_from is given at least one source",
    "primary keys are not null, NaN or larger than 4 KB; no NOT over keys in "
    "filters (known finding)",
]


def ray_of(sim, o):
  return lambda ds: ds.ray(vg.ray_options(o), sim.opts)


def stats(sim, sid):
  s = sim.load().storage.snapshot(sid).storage_statistics
  return dict(num_rows=s.num_rows, record_bytes=s.record_uncompressed_bytes)


def read_both(sim, i, r, ctx):
  schema = sim.schema
  kw = {}
  rows = sim.head_rows()
  if r["version"] is not None:
    kw["version"] = sid = sorted(sim.snaps)[r["version"] % len(sim.snaps)]
    rows = sim.snaps[sid].rows
    refs = sorted(n for n, s in sim.refs().items() if s == sid)
    if refs and r["by_name"]:
      kw["version"] = refs[0]
  if r["filter"] is not None:
    kw["filter_"] = to_expr(r["filter"], schema)
    rows = [x for x in rows if evaluate(r["filter"], schema, x) is True]
  names = schema.names
  if r["fields"] is not None:
    names = list(
        dict.fromkeys(schema.names[x % len(schema.names)] for x in r["fields"]))
    kw["fields"] = list(names)
  if r["batch"] is not None:
    kw["batch_size"] = r["batch"]
  if r["ref"]:
    kw["reference_read"] = True
    ctx.label("reference_read")
  limit = r["batch"] or 16
  idx = [schema.names.index(n) for n in names]
  want = [tuple(x[j] for j in idx) for x in rows]
  plain = [n for n in names if not (r["ref"] and n in schema.records)]

  def rows_of(what, t):
    got = call(what, table_rows, t.select(plain), plain, schema.types, what)
    check(sorted(t.schema.names) == sorted(names),
          lambda: f"{what}: fields {t.schema.names}, expected {names}")
    cols = {n: [g[k] for g in got] for k, n in enumerate(plain)}
    for n in names:
      if n not in cols:
        cols[n] = resolve(sim, t, n, {})
    return list(zip(*[cols[n] for n in names]))

  for name, runner in (("ray", sim.ds.ray(vg.ray_options(r["ray"]))),
                       ("local", sim.ds.local())):
    what = f"read {i} ({name}) {r}"
    tables = call(what, lambda: list(runner.read(**kw)))
    got = []
    for t in tables:
      check(t.num_rows <= limit,
            lambda: f"{what}: batch of {t.num_rows} rows, limit {limit}")
      got += rows_of(what, t)
    same_rows(got, want, what)
    t = call(what, lambda: runner.read_all(**kw))
    same_rows(rows_of(what, t) if t is not None else [], want,
              what + " (read_all)")
  if len(want) > 1 and r["filter"] is not None:
    ctx.label("ray_filtered_read")


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], 2)
  twin = Sim(case["schema"], ctx, case["layout"], 2)
  for op, o in case["ops"]:
    sim.runner = ray_of(sim, o) if o else (lambda ds: ds.local(sim.opts))
    before = sim.max_id
    files = len(sim.load().index_files()) if o else 0
    sim.last_result = twin.last_result = None
    sim.step(op)
    twin.step(op)
    what = f"step {sim.count} {op[0]} {o}"
    sim.check_head(f" {o}")
    a, b = sim.last_result, twin.last_result
    check((a is None) == (b is None), f"{what}: only one wrote")
    if a is not None and a.state == OK:
      ua, ub = a.storage_statistics_update, b.storage_statistics_update
      check((ua.num_rows, ua.record_uncompressed_bytes) ==
            (ub.num_rows, ub.record_uncompressed_bytes),
            lambda: f"{what}: reported {ua} on Ray, {ub} locally")
      check(sim.max_id == twin.max_id, lambda: f"{what}: snapshot "
            f"{sim.max_id} on Ray, {twin.max_id} locally")
      sa, sb = stats(sim, sim.max_id), stats(twin, twin.max_id)
      check(sa == sb, lambda: f"{what}: stored {sa} on Ray, {sb} locally")
    if o and sim.max_id != before:
      ctx.label("ray_commit")
      ctx.nontrivial(sim.snaps[sim.max_id].dels and files > 1)
  for s in (sim, twin):
    s.check_all_heads()
  sim.ds.storage.reload()
  for i, r in enumerate(case["reads"]):
    read_both(sim, i, r, ctx)
  ids = sorted(sim.snaps)
  ray = sim.ds.ray(vg.ray_options(case["ray"]))
  for sid in ids[1:]:
    check_diff(sim, "ray", ray, sim.snaps[sid].parent, sid, case["batch"])
  for i, j in case["pairs"]:
    check_diff(sim, "ray", ray, ids[i % len(ids)], ids[j % len(ids)],
               case["batch"])
    check_diff(sim, "local", sim.ds.local(), ids[i % len(ids)],
               ids[j % len(ids)], case["batch"])
  if sim.head_rows():
    tables = call("ray_dataset", lambda: list(
        sim.ds.ray_dataset(vg.ray_options(case["ray"])).iter_batches(
            batch_size=None, batch_format="pyarrow")))
    same_rows([
        x for t in tables if t.num_rows for x in table_rows(
            t, sim.schema.names, sim.schema.types, "ray_dataset")
    ], sim.head_rows(), "ray_dataset")


batches = st.one_of(st.none(), st.integers(1, 20))


@st.composite
def strategy(draw, refs=0, max_ops=7, min_ops=2, **kw):
  p = draw(opsgen.program(data=5, refs=refs, max_ops=max_ops, min_ops=min_ops,
                          handles=2, size=7, **kw))
  spec = p["schema"]
  o = st.one_of(st.none(), vg.ray_opts, vg.ray_opts, vg.ray_opts)
  p["ops"] = [[op, draw(o)] for op in p["ops"]]
  n = len(spec["fields"])
  one = st.fixed_dictionaries(
      dict(filter=st.one_of(st.none(), gen.filters(spec), gen.filters(spec)),
           fields=st.one_of(
               st.none(),
               st.lists(st.integers(0, n - 1), min_size=1, max_size=n)),
           version=st.one_of(st.none(), st.integers(0, 9)),
           by_name=st.booleans(), ref=st.booleans(), batch=batches,
           ray=vg.ray_opts))
  return dict(p, reads=draw(st.lists(one, max_size=4)), batch=draw(batches),
              ray=draw(vg.ray_opts),
              pairs=draw(
                  st.lists(
                      st.tuples(st.integers(0, 9),
                                st.integers(0, 9)).map(list), max_size=2)))


@st.composite
def many_files(draw):
  """Operations that find their rows in one of several overlapping files."""
  p = draw(strategy(max_ops=0, min_ops=0,
                    schema_kw=dict(max_extra=1, records=(0, 1))))
  spec = p["schema"]
  w = dict(append=1, insert=3, upsert=2, delete_key=2)
  o = st.one_of(st.none(), vg.ray_opts, vg.ray_opts, vg.ray_opts)
  ops = [["append", draw(gen.rows(spec, 5, 2)), 0]
         for _ in range(draw(st.integers(3, 6)))]
  ops += [["reinsert", draw(st.integers(0, 50)),
           draw(gen.distinct_rows(spec, 2, wide=True)), 0]
          for _ in range(draw(st.integers(1, 3)))]
  ops += draw(st.lists(opsgen.data_op(spec, w, 3), min_size=1, max_size=3))
  return dict(p, ops=[[op, draw(o)] for op in ops])


SUITES = [
    Suite("history", lambda tier: strategy(), run, 900),
    Suite("files", lambda tier: many_files(), run, 250),
    Suite("branches", lambda tier: strategy(
        refs=2, forked=True, max_ops=5,
        schema_kw=dict(max_extra=2, records=(0, 1))), run, 200),
]
