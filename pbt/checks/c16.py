"""C16: a refreshed materialized view equals its view."""

import re
import shutil

from hypothesis import strategies as st

from engine import Suite, Violation
import gen
import hooks
from lib import SPACE_ERRORS, Schema, call, check, file_options, same_rows
from lib import table_rows
import opsgen
from sim import FAILED, OK, Sim
import viewgen as vg

from space import MaterializedView

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "A case is a generated view (chain of map_batches and filter) over a "
    "dataset, materialized at a generated point of a generated history of source "
    "writes, branches and tags. Refreshes happen in between, to the latest or a "
    "generated version (snapshot, tag, branch), with generated batch sizes, file "
    "layouts and Ray options, through the handle that created the view, stale "
    "handles and re-loaded ones; some refreshes fail in the view's function, or "
    "the source is written while they run. After every refresh the contents "
    "(local and Ray reads, every handle, and every version of the view) are "
    "compared with the view's functions applied to the model's rows of the "
    "source snapshot that the view was refreshed to; refreshing again must "
    "change nothing. Suite concurrent: another handle refreshes the view at a "
    "generated file access of a refresh (not between the conflict check and the "
    "replacement of the entry point); the view must hold its rows at a source "
    "version that is not before those reported as done, and be refreshable. "
    "Non-trivial: an incremental refresh over a snapshot that deleted or replaced "
    "rows, or (concurrent) the other refresh changed the view.")
ASSUMPTIONS = [
    "the source's primary keys are unique (deletes are propagated by key)",
    "functions keep the primary keys; filters of materialized views read all "
    "fields (known finding filter-subset)",
    "nothing but refresh writes to the view's storage",
    "the Ray API is provided by a stand-in in one process",
]
WRITES = re.compile("output|write|move|rename|replace|copy", re.I)
ENTRY = "entrypoint.txtpb"


class MvSim(Sim):

  def setup(self, case):
    self.case = case
    self.steps = case["steps"]
    self.vschema = Schema(vg.schemas_of(self.steps, self.schema)[-1].spec)
    self.mvs = []
    self.mv_at = 0
    self.incremental = False

  def view_rows(self, sid):
    return vg.apply(self.steps, self.schema, self.snaps[sid].rows)

  # ------------------------------------------------------------ source

  def _append_new(self, what, rows, pieces):
    """Appends those of the rows that have new keys."""
    have = set(self.schema.key(r) for r in self.head_or_none())
    new = []
    for cells in rows:
      k = self.schema.key(self.schema.row(cells))
      if k not in have:
        have.add(k)
        new.append(cells)
    if pieces < 2:
      return self._append(what, new)
    n = max(1, len(new) // pieces)
    parts = [new[i:i + n] for i in range(0, len(new), n)] or [[]]
    self._append_from(what, [[p] for p in parts])

  # ------------------------------------------------------------ view

  def _materialize(self, what):
    if self.mvs:
      return
    self.mloc = self.ctx.new_dir()
    ds = self.load() if self.case["own"] else self.handles[-1].ds
    view = call(what, vg.build, self.steps, ds, self.schema)
    self.mvs.append(call(what, view.materialize, self.mloc))

  def load_mv(self):
    return call("load the view", MaterializedView.load, self.mloc)

  def _mv_load(self, what):
    if self.mvs:
      self.mvs.append(self.load_mv())

  def runner_of(self, mv, o):
    return mv.ray(vg.ray_options(o["ray"]), file_options(o["layout"]))

  def _refresh(self, what, h, target, o):
    if not self.mvs:
      return
    mv = self.mvs[h % len(self.mvs)]
    runner = self.runner_of(mv, o)
    kw = {} if o["batch"] is None else dict(batch_size=o["batch"])
    # The branch of the view's source handle is main, except when shared.
    head = self.heads["main"]
    ids = sorted(self.snaps)
    if target is None:
      arg, sid = None, head
    elif target[0] == "ref":
      refs = dict(self.refs())
      if not refs:
        return
      arg = sorted(refs)[target[1] % len(refs)]
      sid = refs[arg]
    else:
      arg = sid = ids[target[1] % len(ids)]
    what = f"{what} to {arg}"
    path = self.path_between(self.mv_at, sid)
    self.fault = o["fault"]
    self.busy = False
    self.calls = 0
    if self.fault:
      vg.HOOK[0] = self.on_udf
    try:
      results = runner.refresh(arg, **kw)
      state = "done"
    except Fault:
      state = "fault"
    except SPACE_ERRORS as e:
      state = "refused"
      error = e
    finally:
      vg.HOOK[0] = None
    self.ctx.label("refresh:" + state)
    if state == "refused":
      # Refused when the view cannot get there by applying changes, or the
      # target is ahead of the source's main branch.
      check(path is None or sid > head,
            lambda: f"{what} (view is at {self.mv_at}): refused: {error!r}")
      self.check_mv(what + " (refused)")
      return
    if state == "fault":
      self.check_mv_on_path(what + " (failed)", path or [])
      return
    check(not path or sid <= head, lambda: f"{what}: not refused, although the "
          f"source's main branch is at {head}")
    # The view's own snapshot may be an ancestor of mv_at: it does not advance
    # over snapshots that do not change it.
    path = path or []
    for r in results:
      check(r.state != FAILED, lambda: f"{what}: {r}")
    if (path or self.calls) and self.fault and self.fault[0] == "write":
      # The source advanced meanwhile: to the target or beyond. (The view may
      # be behind mv_at, when there is no telling by its contents.)
      later = self.path_between(sid, self.heads["main"]) or []
      self.check_mv_on_path(what + " (concurrent)", [sid] + later, True)
      return
    if path and any(self.snaps[s].dels for s in path):
      self.incremental = True
    if len(path) > 1:
      self.ctx.label("refresh_several_snapshots")
    self.mv_at = sid
    self.check_mv(what, mv)
    if o["again"]:
      again = call(what + " again", runner.refresh, arg, **kw)
      check(all(r.state != OK for r in again) or not again,
            lambda: f"{what} again: {again}")
      self.check_mv(what + " again", mv)

  def on_udf(self):
    if self.busy:
      return
    self.calls += 1
    if self.calls != self.fault[1]:
      return
    if self.fault[0] == "raise":
      raise Fault()
    self.busy = True
    try:
      cur = self.cur
      self.cur = 0
      if self.handle.branch != "main":
        self._switch("during refresh", "main")
      self.step(self.fault[2])
      self.cur = cur
      self.ctx.label("written_during_refresh")
    finally:
      self.busy = False

  def current_of(self, mv):
    mv.storage.reload()
    return mv.storage.metadata.current_snapshot_id

  def mv_contents(self, what, mv, ray=False, **kw):
    r = mv.ray() if ray else mv.local()
    t = call(what, lambda: r.read_all(**kw))
    if t is None:
      return []
    return call(what, table_rows, t, self.vschema.names, self.vschema.types,
                what)

  def check_mv(self, what, mv=None):
    want = self.view_rows(self.mv_at)
    for i, m in enumerate([mv or self.mvs[0], self.mvs[-1], self.load_mv()]):
      same_rows(self.mv_contents(what, m), want,
                f"{what}: contents (handle {i}) at {self.mv_at}")
    same_rows(self.mv_contents(what, self.mvs[0], ray=True), want,
              f"{what}: contents read with Ray at {self.mv_at}")

  def check_mv_on_path(self, what, path, need=False):
    """The view is at some point of the path (or, unless needed, where it
    was); which one is told by its snapshot ID."""
    mv = self.load_mv()
    rows = self.mv_contents(what, mv)
    at = self.current_of(mv)
    # Snapshots that do not change the view are not in it.
    options = [s for s in ([] if need else [self.mv_at]) + path]
    # Later ones first: an unchanged snapshot may share its ID with a former.
    fits = [s for s in options if s <= at] or options[:1]
    if need:
      fits = options
      ok = [s for s in fits
            if sorted(self.view_rows(s), key=repr) == sorted(rows, key=repr)]
      check(ok, lambda: f"{what}: contents of no version from {options}: "
            f"{rows!r:.300}")
      self.mv_at = max(ok) if at not in ok else at
      return
    same_rows(rows, self.view_rows(fits[-1]),
              f"{what}: contents at {at}, allowed {options}")
    self.mv_at = fits[-1]

  def check_mv_versions(self):
    """Every snapshot of the view is the view at that source snapshot."""
    mv = self.load_mv()
    ids = set(call("versions", mv.dataset.versions)["snapshot_id"].to_pylist())
    for sid in sorted(ids):
      check(sid in self.snaps, f"view snapshot {sid} is no source snapshot")
      same_rows(self.mv_contents("versions", mv, version=sid),
                self.view_rows(sid), f"view at version {sid}")


class Fault(Exception):
  """Raised by a user defined function."""


def run(case, ctx):
  sim = MvSim(case["schema"], ctx, case["layout"], 2)
  sim.setup(case)
  for op in case["ops"]:
    sim.step(op)
  sim.step(["materialize"])
  sim.step(["refresh", 0, None, case["last"]])
  sim.step(["mv_load"])
  sim.step(["refresh", len(sim.mvs) - 1, None, dict(case["last"], fault=None)])
  sim.check_mv_versions()
  ctx.nontrivial(sim.incremental)


def allowed_points(sim, opts):
  """The I/O calls of a refresh at which another refresh may commit: not
  between the conflict check of a commit and its end (documented)."""
  loc = sim.ctx.new_dir()
  shutil.copytree(sim.mloc, loc)
  mv = call("load the view", MaterializedView.load, loc)
  groups, frames = [], []  # [first call, last call, is it a read]

  def see(n, frame):
    if any(isinstance(v, str) and v.startswith(loc) and v.endswith(ENTRY)
           for v in frame.f_locals.values()):
      if not frames or frames[-1] is not frame:
        frames.append(frame)
        groups.append([n, n, True])
      groups[-1][1] = n
      if WRITES.search(watch.callee):
        groups[-1][2] = False

  with hooks.CallWatch(see) as watch:
    results = call("refresh", sim.runner_of(mv, opts).refresh)
  check(all(r.state != FAILED for r in results), lambda: f"refresh: {results}")
  shutil.rmtree(loc, ignore_errors=True)
  first = groups[0][1] + 1 if groups else 0
  ok = set(range(first, watch.n))
  for i, (_, end, read) in enumerate(groups):
    if not read:
      reads = [g for g in groups[:i] if g[2]]
      ok -= set(range(reads[-1][0] + 1 if reads else 0, end + 1))
  near = {n for g in groups for n in (g[0] - 1, g[0], g[1] + 1)}
  return sorted(ok), sorted(ok & near)


def run_concurrent(case, ctx):
  """Another refresh runs while a refresh runs."""
  sim = MvSim(case["schema"], ctx, case["layout"], 2)
  sim.setup(case)
  for op in case["ops"]:
    sim.step(op)
  opts = dict(case["last"], fault=None)
  a, b = sim.load_mv(), sim.load_mv()
  before, target = sim.mv_at, sim.heads["main"]
  ks, near = allowed_points(sim, opts)
  ctx.label("points", len(ks))
  if not ks:
    return
  # Points at the start and the end of commits are likely.
  ks = near if near and case["near"] else ks
  k = ks[case["point"] % len(ks)]
  what = f"refresh from {before} to {target}, refreshed by another at call {k}"
  done = []

  def at(n, _frame):
    if n != k or done:
      return
    done.append(n)
    for op in case["between"]:
      sim.step(op)
    runner = sim.runner_of(b, case["other"])
    ids = sorted(sim.snaps)
    to = None if case["to"] is None else ids[case["to"] % len(ids)]
    sid = sim.heads["main"] if to is None else to
    path = sim.path_between(sim.current_of(b), sid)
    if not path:
      return
    rs = call(what + " (the other)", runner.refresh, to)
    check(all(r.state != FAILED for r in rs), lambda: f"{what}: the other: {rs}")
    ctx.nontrivial(any(r.state == OK for r in rs))
    sim.mv_at = sid
    sim.check_mv(what + " (the other)", b)

  failed = True
  try:
    with hooks.CallWatch(at):
      results = sim.runner_of(a, opts).refresh()
    failed = any(r.state == FAILED for r in results)
  except Violation:
    raise
  except SPACE_ERRORS as e:
    ctx.label("refused")
    results = repr(e)
  ctx.label("first_failed" if failed else "first_done")
  least = max(sim.mv_at, before if failed else target)
  end = sim.heads["main"]
  # From where the view must be at least, to what the source has now.
  start = least if least else 0
  sim.mv_at = start
  sim.check_mv_on_path(f"{what}: {results}", sim.path_between(start, end) or [])
  sim.check_mv_versions()
  sim.step(["refresh", 0, None, opts])
  sim.check_mv_versions()


@st.composite
def concurrent(draw):
  c = draw(strategy(max_ops=6))
  spec = c["schema"]
  w = dict(insert=2, upsert=6, delete=3, delete_key=4)
  ops = [o for o in c["ops"] if o[0] != "mv_load"]
  for _ in range(draw(st.integers(1, 4))):
    ops.append(draw(opsgen.data_op(spec, w, 4)))
  return dict(c, ops=ops, own=True, point=draw(st.integers(0, 10**6)),
              near=draw(st.booleans()),
              between=draw(st.lists(opsgen.data_op(spec, w, 3), max_size=2)),
              to=draw(st.one_of(st.none(), st.none(), st.integers(0, 12))),
              other=draw(st.fixed_dictionaries(
                  dict(ray=vg.ray_opts, layout=gen.layouts))))


@st.composite
def strategy(draw, branches=False, faults=False, max_ops=10):
  spec = draw(vg.source_schemas(nested=draw(st.integers(0, 2)) == 0))
  steps = draw(vg.steps(vg.VSchema(spec), max_steps=2, subset_filter=False))
  w = dict(insert=2, upsert=6, delete=4, delete_key=4, delete_all=1)

  def data(handles=1):
    return st.one_of(
        st.tuples(st.just("append_new"), gen.rows(spec, 6, 1, wide=False),
                  st.integers(1, 3)).map(list), opsgen.data_op(spec, w, 4),
        opsgen.data_op(spec, w, 4),
        st.tuples(st.just("bulk"), st.just("upsert"), st.integers(0, 30),
                  st.integers(1, 30), st.integers(1, 2)).map(list))

  fault = st.none()
  if faults:
    fault = st.one_of(
        st.tuples(st.just("raise"), st.integers(1, 5)).map(list),
        st.tuples(st.just("write"), st.integers(1, 4), data()).map(list))
  opts = st.fixed_dictionaries(
      dict(ray=vg.ray_opts, layout=gen.layouts, batch=st.one_of(
          st.none(), st.integers(1, 20)), fault=fault, again=st.booleans()))
  target = st.one_of(
      st.none(), st.none(),
      st.tuples(st.sampled_from(["snap", "snap", "ref"]),
                st.integers(0, 12)).map(list))
  refresh = st.tuples(st.just("refresh"), st.integers(0, 5), target,
                      opts).map(list)

  def one(i):
    if i < 5:
      return data()
    if i < 8:
      return refresh
    if i == 8:
      return st.just(["mv_load"])
    if i == 9:
      return st.tuples(st.just("use"), st.integers(0, 1)).map(list)
    return opsgen.ref_op(2)

  ops = [draw(data()) for _ in range(draw(st.integers(0, 3)))]
  ops.append(["materialize"])
  for _ in range(draw(st.integers(2, max_ops))):
    ops.append(draw(st.integers(0, 13 if branches else 9).flatmap(one)))
  return dict(schema=spec, layout=draw(gen.layouts), steps=steps, ops=ops,
              own=draw(st.booleans()) or branches, last=draw(opts))


SUITES = [
    Suite("refresh", lambda tier: strategy(), run, 700),
    Suite("branches", lambda tier: strategy(branches=True), run, 250),
    Suite("concurrent", lambda tier: concurrent(), run_concurrent, 300),
    Suite("faults", lambda tier: strategy(faults=True, max_ops=7), run, 300),
]
