"""C06: a crash leaves the state before or after the operation."""

import copy
import os
import shutil

from hypothesis import strategies as st

from engine import Suite, Violation
import gen
import hooks
from lib import Dataset, call, check, read, same_rows
import opsgen
from sim import FAILED, MAIN, Handle, Sim
import viewgen as vg
from checks.c05 import check_diff
from checks.c14 import ray_of
from checks.c16 import ENTRY, MvSim

from space import MaterializedView

PROPERTY = "C06"
ON_RAY = ("append", "append_from", "insert", "upsert", "delete", "delete_key")
LEVEL = "fault_enumeration"
RULE = (
    "A case is a generated history followed by one target operation (create, "
    "append, append_from, insert, upsert, delete, external load, tag, branch; data "
    "operations with the local or the Ray runner). "
    "While the target runs, every distinct state of the dataset's files between "
    "two lines of the code is recorded, plus states where a file write under way "
    "(not a rename) reached the disk only in part; each is one crash point. Every "
    "crash state is copied, loaded and compared in all versions, references and "
    "diffs with the model before and after; on some, further operations are run. "
    "evaluations counts cases; crash points are counted in labels. Suite views: "
    "the same while a view is materialized or refreshed (a sample of the crash "
    "states, always those around changes of the view's entry point). Non-trivial: "
    "the target changed the dataset (or view) and at least 4 crash states were "
    "examined.")
ASSUMPTIONS = [
    "the process dies; file data written before stays on disk in order (no "
    "reordering of writes by the operating system)",
    "renames are atomic",
]


def model_state(sim):
  return dict(ids=set(sim.snaps), refs=dict(sim.refs()), heads=dict(sim.heads),
              tags=dict(sim.tags), snaps=dict(sim.snaps), max_id=sim.max_id)


def clone(sim, location, state, ds):
  """A Sim on a copied dataset that is in a given model state."""
  c = copy.copy(sim)
  c.loc = location
  c.heads, c.tags = dict(state["heads"]), dict(state["tags"])
  c.snaps, c.max_id = dict(state["snaps"]), state["max_id"]
  c.handles, c.cur = [Handle(ds)], 0
  c.external = dict(sim.external)
  return c


def examine(sim, name, files, dirs, before, after, follow, ctx):
  loc = ctx.new_dir()
  hooks.materialize(files, dirs, loc)
  what = f"crash state {name}"
  try:
    if before is None:  # create
      try:
        ds = Dataset.load(loc)
      except Exception:  # No dataset yet: creating it must work.
        ds = call(f"{what}: create again", Dataset.create, loc,
                  sim.schema.arrow(), sim.schema.pks, sim.schema.records)
      state = after
    else:
      ds = call(f"{what}: load", Dataset.load, loc)
    ids, refs = sim.versions_of(ds)
    head = call(what, lambda: ds.storage.snapshot().snapshot_id)
    for s in (before, after):
      if s and ids == s["ids"] and refs == s["refs"] and head == s["heads"][
          MAIN]:
        state = s
        break
    else:
      raise Violation(
          f"{what}: neither the state before nor after the operation: "
          f"snapshots {sorted(ids)}, references {refs}, current {head}")
    ctx.label("state:" + ("before" if state is before else "after"))
    c = clone(sim, loc, state, ds)
    c.check_head(f", {what}")
    c.check_versions(ds=ds, what=f"{what}: ")
    for sid in sorted(state["snaps"])[1:][-2:]:
      check_diff(c, what, ds.local(), state["snaps"][sid].parent, sid)
    if follow:
      ctx.label("continued")
      for op in follow:
        c.step(op)
        c.check_head(f", {what}, continued with {op[0]}")
      c.check_versions(what=f"{what}, continued: ")
      c.check_refs()
  finally:
    shutil.rmtree(loc, ignore_errors=True)


def run(case, ctx):
  loc = ctx.new_dir()
  if case["target"][0] == "create":
    disk = hooks.DiskStates(loc)
    disk.capture()
    with hooks.LineWatch(disk.capture):
      sim = Sim(case["schema"], ctx, case["layout"], location=loc)
    before = None
  else:
    sim = Sim(case["schema"], ctx, case["layout"], location=loc)
    for op in case["ops"]:
      sim.step(op)
    if case["target"][0] in ("tag", "branch"):
      sim.step(["switch", MAIN])
    before = model_state(sim)
    disk = hooks.DiskStates(loc)
    disk.capture()
    local = sim.runner
    if case["ray"] and case["target"][0] in ON_RAY:
      ctx.label("on_ray")
      sim.runner = ray_of(sim, case["ray"])
    with hooks.LineWatch(disk.capture):
      sim.step(case["target"])
    sim.runner = local
  disk.capture()
  after = model_state(sim)
  states = disk.crash_states()
  ctx.label("crash_points", len(states))
  changed = before is None or before["ids"] != after["ids"] or before[
      "refs"] != after["refs"]
  ctx.nontrivial(changed and len(states) >= 4)
  # Which of the states are also continued is drawn; the last ones always are.
  n = len(states)
  labels = dict(ctx.labels)
  for i, (name, files, dirs) in enumerate(states):
    follow = case["follow"] if (i % 6 == case["phase"] or i >= n - 3) else None
    examine(sim, name, files, dirs, before, after, follow, ctx)
  # Keep only this module's labels of the examined copies.
  for k in list(ctx.labels):
    if k.startswith("op:") or k in ("commits",):
      ctx.labels[k] = labels.get(k, 0)


def run_view(case, ctx):
  """A crash while a view is materialized or refreshed."""
  sim = MvSim(case["schema"], ctx, case["layout"], 2)
  sim.setup(case)
  for op in case["ops"]:
    if op[0] != "mv_load":
      sim.step(op)
  opts = case["last"]
  fresh = not sim.mvs
  loc = sim.mloc = ctx.new_dir() if fresh else sim.mloc
  view = call("view", vg.build, sim.steps, sim.load(), sim.schema)
  disk = hooks.DiskStates(loc)
  disk.capture()
  start = sim.mv_at
  with hooks.LineWatch(disk.capture):
    mv = call("materialize", view.materialize, loc) if fresh else sim.load_mv()
    rs = call("refresh", sim.runner_of(mv, opts).refresh)
  check(all(r.state != FAILED for r in rs), lambda: f"refresh: {rs}")
  disk.capture()
  path = sim.path_between(start, sim.heads[MAIN]) or []
  states = disk.crash_states()
  ctx.label("crash_points", len(states))
  ctx.nontrivial(len(states) >= 4 and bool(path) and bool(rs))
  # All states next to a change of the entry point, and evenly spaced ones.
  n = len(states)
  entry = [next((d for p, d in files.items() if p.endswith(ENTRY)), None)
           for _, files, _ in states]
  picks = {j for i in range(1, n) if entry[i] != entry[i - 1] for j in (i - 1, i)}
  picks |= set(range(case["point"] % max(1, n // 8), n, max(1, n // 8))) | {n - 1}
  for i in sorted(picks):
    name, files, dirs = states[i]
    c = copy.copy(sim)
    c.mloc = ctx.new_dir()
    hooks.materialize(files, dirs, c.mloc)
    what = f"crash state {name}"
    try:
      try:
        mv = MaterializedView.load(c.mloc)
      except Exception as e:  # No view yet: creating it must work.
        if not fresh:
          raise Violation(f"{what}: load: {e!r}") from e
        ctx.label("not_created")
        mv = call(f"{what}: materialize again", view.materialize, c.mloc)
      c.mvs = [mv]
      c.check_mv_on_path(what, path)
      c.count = 0
      c.step(["refresh", 0, None, dict(opts, fault=None)])
    finally:
      shutil.rmtree(c.mloc, ignore_errors=True)


@st.composite
def views(draw):
  from checks.c16 import concurrent
  c = draw(concurrent())
  if draw(st.integers(0, 3)) == 0:
    c["ops"] = [o for o in c["ops"] if o[0] not in ("materialize", "refresh")]
  return c


@st.composite
def strategy(draw, targets=None):
  spec = draw(gen.schemas(max_extra=1, records=(0, 1), nested=False))
  kinds = targets or ["append", "append_from", "insert", "upsert", "delete",
                      "delete_key", "ext", "tag", "branch", "untag",
                      "unbranch", "create"]
  k = draw(st.sampled_from(kinds))
  w = dict(append=4, append_from=2, upsert=2, delete_key=2)
  ops = draw(st.lists(opsgen.data_op(spec, w, 4), max_size=3))
  ops.insert(0, ["append", draw(gen.rows(spec, 5, 2)), 0])
  ops.append(["tag", "t1"])
  if draw(st.booleans()) or k == "unbranch":
    ops += [["fork", "b1"], ["append", draw(gen.rows(spec, 3, 1)), 0]]
    if draw(st.booleans()) or k == "unbranch":
      ops.append(["switch", "main"])
  target = {
      "append": lambda: ["append", draw(gen.rows(spec, 5, 1)), 0],
      "append_from": lambda: [
          "append_from", [[draw(gen.rows(spec, 3, 1)), draw(gen.rows(spec, 3, 1))],
                          [draw(gen.rows(spec, 3, 1))]], 0],
      "insert": lambda: ["insert", draw(gen.distinct_rows(spec, 3, 1, True)), 0],
      "upsert": lambda: ["upsert", draw(gen.distinct_rows(spec, 4, 1)), 0],
      "delete": lambda: ["delete", draw(gen.filters(spec, 1))],
      "delete_key": lambda: ["delete_key", draw(st.integers(0, 9))],
      "ext": lambda: draw(opsgen.data_op(spec, {"ar" if spec["records"] else
                                                "pq": 1}, 4)),
      "tag": lambda: ["tag", "t2"],
      "branch": lambda: ["branch", "b2"],
      "untag": lambda: ["untag", "t1"],
      "unbranch": lambda: ["unbranch", "b1"],
      "create": lambda: ["create"],
      "read": lambda: ["read"],
  }[k]()
  follow = draw(st.lists(opsgen.data_op(
      spec, dict(append=2, upsert=2, delete_key=2, delete_all=1), 3),
                         min_size=1, max_size=2))
  return dict(schema=spec, layout=draw(gen.layouts), ops=ops, target=target,
              ray=draw(st.one_of(st.none(), st.none(), vg.ray_opts)),
              follow=follow, phase=draw(st.integers(0, 5)))


SUITES = [
    Suite("crash", lambda tier: strategy(), run, 176),
    Suite("writes", lambda tier: strategy(
        ["append", "upsert", "delete_key", "append_from", "delete"]), run, 96),
    Suite("views", lambda tier: views(), run_view, 48),
]
