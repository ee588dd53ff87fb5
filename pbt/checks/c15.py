"""C15: a view is its function applied to the rows of its source."""

from hypothesis import strategies as st

from engine import Suite
from lib import call, check, refused, same_rows, table_rows
import opsgen
from sim import Sim
import viewgen as vg

from space import MaterializedView
from space.core.ops.change_data import ChangeType

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "A case is a source dataset with a generated history (also with branches), "
    "and a generated chain of 1 to 3 map_batches (computed, constant, dropped, "
    "renamed and record columns; batches that drop or repeat rows; batch sizes) "
    "and filter steps, with and without selected input fields. The same chain is "
    "evaluated on the model's rows. Compared: reads at the head, at generated "
    "versions and at tags, for several batch sizes and Ray options; diffs "
    "between generated versions (keys of deleted rows, transformed added rows); "
    "the declared schema, keys and record fields; and the view of a materialized "
    "view after loading it. Non-trivial: the view's rows at some version are "
    "neither empty nor the source's rows.")
ASSUMPTIONS = [
    "views are read through a stand-in of the Ray API in one process",
    "functions keep the primary keys and see no nulls (the conversion of nulls "
    "to NumPy is Ray's)",
    "reads of views are given no filter or fields",
]


def view_rows(what, table, out):
  """Rows with the fields of the view's data."""
  return call(what, table_rows, table, out.avail, out.types, what)


def check_read(what, view, out, want, **kw):
  opts = vg.ray_options(kw.pop("ray"))
  if kw.get("batch_size") is None:
    kw.pop("batch_size", None)
  r = call(what, view.ray, opts)
  tables = call(what, lambda: list(r.read(**kw)))
  got = []
  for t in tables:
    got += view_rows(what, t, out)
  same_rows(got, want, what)
  t = call(what, lambda: view.ray(opts).read_all(**kw))
  same_rows(view_rows(what, t, out) if t is not None else [], want,
            what + " (read_all)")


def check_diff(sim, what, view, steps, out, a, b, ray, batch):
  path = sim.path_between(a, b)
  runner = view.ray(vg.ray_options(ray))
  kw = {} if batch is None else dict(batch_size=batch)
  if not path:
    refused(what, lambda: list(runner.diff(a, b, **kw)))
    return
  want = {}
  for sid in path:
    s = sim.snaps[sid]
    want[sid] = ([sim.schema.key(r) for r in s.dels],
                 vg.apply(steps, sim.schema, s.adds))
  got = {sid: ([], []) for sid in path}
  order = []
  for c in call(what, lambda: list(runner.diff(a, b, **kw))):
    check(c.snapshot_id in got, f"{what}: change of snapshot {c.snapshot_id}")
    if c.data.num_rows:
      order.append((path.index(c.snapshot_id), c.type_ == ChangeType.ADD))
    if c.type_ == ChangeType.DELETE:
      got[c.snapshot_id][0].extend(
          call(what, table_rows, c.data, sim.schema.pks, sim.schema.types,
               what))
    else:
      got[c.snapshot_id][1].extend(view_rows(what, c.data, out))
  check(order == sorted(order), lambda: f"{what}: order of changes {order}")
  for sid in path:
    same_rows(got[sid][0], want[sid][0], f"{what}: keys deleted in {sid}")
    same_rows(got[sid][1], want[sid][1], f"{what}: rows added in {sid}")


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  steps = case["steps"]
  ds = sim.handles[-1].ds if case["early"] else None
  early = (call("build view", vg.build, steps, ds, sim.schema)
           if case["early"] else None)
  for op in case["ops"]:
    sim.step(op)
  # The view's source handle stays on the branch it was on.
  base = sim.handles[-1] if case["early"] else None
  view = early or call("build view", vg.build, steps, sim.load(), sim.schema)
  branch = base.branch if base else "main"
  out = vg.schemas_of(steps, sim.schema)[-1]
  # Declared.
  check(view.schema.names == out.names,
        lambda: f"declared fields {view.schema.names}, expected {out.names}")
  for n in out.names:
    check(view.schema.field(n).type == vg.TYPES[out.types[n]],
          lambda: f"declared type of {n}: {view.schema.field(n).type}")
  check(list(view.primary_keys) == sim.schema.pks, "declared keys")
  want_rec = out.records if any(
      s[0] == "map" for s in steps) else sim.schema.records
  check(list(view.record_fields) == list(want_rec),
        lambda: f"declared record fields {view.record_fields}")

  views = [("view", view, branch)]
  if case["load"] and set(out.avail) == set(out.names):
    loc = ctx.new_dir()
    call("materialize", view.materialize, loc)
    mv = call("load view", MaterializedView.load, loc)
    check(mv.view.schema.names == out.names, lambda: "loaded view: fields "
          f"{mv.view.schema.names}, expected {out.names}")
    check(list(mv.view.record_fields) == list(want_rec),
          lambda: f"loaded view: record fields {mv.view.record_fields}")
    views.append(("loaded view", mv.view, "main"))
    ctx.label("loaded_view")

  ids = sorted(sim.snaps)
  for name, v, br in views:
    if br in sim.heads:
      rows = sim.head_rows(br)
      want = vg.apply(steps, sim.schema, rows)
      check_read(f"{name} read", v, out, want, ray=case["ray"],
                 batch_size=case["batch"])
    for i, batch, ray in case["reads"]:
      sid = ids[i % len(ids)]
      src = sim.snaps[sid].rows
      want = vg.apply(steps, sim.schema, src)
      ctx.nontrivial(want and want != src)
      check_read(f"{name} read at {sid}", v, out, want, version=sid, ray=ray,
                 batch_size=batch)
    for ref, sid in sim.refs().items():
      want = vg.apply(steps, sim.schema, sim.snaps[sid].rows)
      check_read(f"{name} read at {ref}", v, out, want, version=ref,
                 ray=case["ray"], batch_size=case["batch"])
    for i, j, batch, ray in case["diffs"]:
      a, b = ids[i % len(ids)], ids[j % len(ids)]
      check_diff(sim, f"{name} diff {a} {b}", v, steps, out, a, b, ray, batch)
    if len(ids) > 1:
      a = max(s for s in ids)
      check_diff(sim, f"{name} diff 0 {a}", v, steps, out, 0, a, case["ray"],
                 case["batch"])


batches = st.one_of(st.none(), st.integers(1, 20))


@st.composite
def strategy(draw, data=1, refs=0, max_ops=5, forked=False):
  spec = draw(vg.source_schemas(nested=draw(st.integers(0, 2)) == 0))
  p = draw(program(spec, data, refs, max_ops, forked))
  steps = draw(vg.steps(vg.VSchema(spec)))
  reads = draw(
      st.lists(st.tuples(st.integers(0, 9), batches, vg.ray_opts).map(list),
               min_size=1, max_size=3))
  diffs = draw(
      st.lists(
          st.tuples(st.integers(0, 9), st.integers(0, 9), batches,
                    vg.ray_opts).map(list), max_size=3))
  return dict(p, steps=steps, reads=reads, diffs=diffs, batch=draw(batches),
              ray=draw(vg.ray_opts), early=draw(st.booleans()),
              load=draw(st.booleans()))


@st.composite
def program(draw, spec, data, refs, max_ops, forked):
  w = dict(append=4, append_from=3, bulk=2, upsert=3, delete=2, delete_key=2)
  ops = [["append", draw(vg.gen.rows(spec, 6, 1)), 0]]
  one = st.integers(0, data + refs - 1).flatmap(
      lambda i: opsgen.data_op(spec, w, 5) if i < data else opsgen.ref_op(2))
  for _ in range(draw(st.integers(0, max_ops))):
    ops.append(draw(one))
  if forked:
    ops += [["fork", "b1"], draw(opsgen.data_op(spec, w, 5)), ["goto", 1],
            draw(opsgen.data_op(spec, w, 5))]
  return dict(schema=spec, layout=draw(vg.gen.layouts), handles=2, ops=ops)


SUITES = [
    Suite("chain", lambda tier: strategy(), run, 1000),
    Suite("branches", lambda tier: strategy(3, 2, 4, True), run, 200),
]
