"""C07: a failed operation changes nothing and leaves the handle usable."""

import copy
import errno
import os
import shutil

from hypothesis import strategies as st
import pyarrow as pa
import pyarrow.compute as pc

from engine import Suite, Violation
import gen
import hooks
from lib import Dataset, call, check, same_rows, table_rows
import opsgen
from sim import FAILED, MAIN, OK, SKIPPED, Handle, Sim
import viewgen as vg
from checks.c06 import ON_RAY, strategy
from checks.c14 import ray_of
from checks.c16 import MvSim

PROPERTY = "C07"
LEVEL = "fault_enumeration"
RULE = (
    "faults: a case is a generated history and a target operation; the target "
    "runs on copies of the dataset, each with an I/O error (ENOSPC) raised by "
    "one of the calls the code makes into file libraries (up to 14 per case: the "
    "last five and evenly spaced ones, counted in the label faults); in half of "
    "the cases another handle commits before, so the failing handle is stale. "
    "refresh: the same for refreshes of a materialized view, which must be left at "
    "a source version on its way to the target. bad_input: "
    "a case is a history with operations whose input or source is broken (an "
    "iterator that raises, a missing or mistyped column, an unknown filter "
    "field). After each, all versions and references are compared with the "
    "model through the same, an older and a new handle, and the same handle "
    "goes on with further operations. Non-trivial: the fault was raised and the "
    "target would have committed, or the broken operation followed a commit.")
ASSUMPTIONS = [
    "a failing file system call fails before it has an effect",
]


class FaultSim(Sim):
  """While armed, a write may fail; what happened decides what is expected."""

  armed = None  # The number of the call that fails; -1 only counts.
  calls = 0

  def _write(self, what, fn, expect, rows=None, adds=(), dels=()):
    if self.armed is None:
      return super()._write(what, fn, expect, rows, adds, dels)
    self.would_commit = expect == OK
    r, error = self.attempt(fn)
    what = f"{what}, with call {self.armed} failing"
    if error is not None or r.state == FAILED:
      if not self.raised and expect != FAILED:
        raise Violation(f"{what}: failed without a fault: {error or r}")
      return self.no_commit(what)
    check(r.state == expect,
          lambda: f"{what}: state {r.state.name}, expected {expect.name} or a "
          "failure")
    if expect == OK:
      self.commit(what, self.handle.branch, rows, adds, dels)
    else:
      self.no_commit(what)

  def attempt(self, fn):
    self.raised = False

    def fault(n, _frame):
      if n == self.armed:
        self.raised = True
        raise OSError(errno.ENOSPC, "No space left on device (injected)")

    with hooks.CallWatch(fault) as w:
      try:
        return fn(), None
      except Exception as e:  # pylint: disable=broad-except
        return None, e
      finally:
        self.calls = w.n

  def attempt_read(self):
    self.would_commit = True
    got, error = self.attempt(lambda: self.run().read_all())
    if error is None:
      same_rows(
          table_rows(got, self.schema.names, self.schema.types, "read"),
          self.head_rows(), "read")
    elif not self.raised:
      raise Violation(f"read: failed without a fault: {error!r}")

  def attempt_ref(self, op):
    """A reference operation that may fail."""
    name = op[1]
    fn, apply = {
        "tag": (lambda: self.ds.add_tag(name),
                lambda: self.tags.update({name: self.heads[MAIN]})),
        "branch": (lambda: self.ds.add_branch(name),
                   lambda: self.heads.update({name: self.heads[MAIN]})),
        "untag": (lambda: self.ds.remove_tag(name),
                  lambda: self.tags.pop(name)),
        "unbranch": (lambda: self.ds.remove_branch(name),
                     lambda: self.heads.pop(name)),
    }[op[0]]
    self.would_commit = True
    _, error = self.attempt(fn)
    if error is None:
      apply()
    elif not self.raised:
      raise Violation(f"{op}: failed without a fault: {error!r}")


def on_copy(sim, ctx):
  """The same dataset in a new place, with two handles."""
  loc = ctx.new_dir()
  shutil.copytree(sim.loc, loc)
  c = copy.copy(sim)
  c.loc = loc
  c.heads, c.tags, c.snaps = dict(sim.heads), dict(sim.tags), dict(sim.snaps)
  c.external = dict(sim.external)
  c.handles = [Handle(call("load", Dataset.load, loc)) for _ in range(2)]
  c.cur = 0
  b = sim.handle.branch
  for h in c.handles:
    call("switch", h.ds.set_current_branch, b)
    h.branch = b
  return c


def run_faults(case, ctx):
  sim = FaultSim(case["schema"], ctx, case["layout"])
  for op in case["ops"]:
    sim.step(op)
  target = case["target"]
  is_ref = target[0] in ("tag", "branch", "untag", "unbranch")
  if is_ref:
    sim.step(["switch", MAIN])

  def trial(k):
    c = on_copy(sim, ctx)
    try:
      if case["other"]:  # The handle that fails does not know this commit.
        c.cur = 1
        c.step(case["other"])
        c.cur = 0
      if case["ray"] and target[0] in ON_RAY + ("read",):
        c.runner = ray_of(c, case["ray"])
        ctx.label("on_ray")
      c.armed = k
      if target[0] == "read":
        c.attempt_read()
      elif is_ref:
        c.attempt_ref(target)
      else:
        c.step(target)
      c.armed, c.runner = None, sim.runner
      if k >= 0:
        ctx.label("faults", int(c.raised))
        ctx.nontrivial(c.raised and c.would_commit)
        what = f", after call {k} of {target[0]} failed"
        c.check_head(what)
        c.check_everything(what)
        for op in case["follow"]:
          c.step(op)
          c.check_head(f"{what}, then {op[0]}")
        c.cur = 1
        c.check_head(f"{what}, older handle")
        c.check_refs()
        c.check_versions(what=f"{what}: ")
      return c.calls
    finally:
      shutil.rmtree(c.loc, ignore_errors=True)

  n = trial(-1)
  ks = set(range(max(0, n - 5), n))
  step = max(1, n // 9)
  ks.update(range(case["phase"] % step, n, step))
  for k in sorted(ks):
    trial(k)


def run_refresh(case, ctx):
  """A refresh fails at one of its file accesses."""
  sim = MvSim(case["schema"], ctx, case["layout"], 2)
  sim.setup(case)
  for op in case["ops"]:
    if op[0] != "mv_load":
      sim.step(op)
  sim.step(["materialize"])
  opts = dict(case["last"], fault=None, again=False)
  start, target, home = sim.mv_at, sim.heads[MAIN], sim.mloc
  path = sim.path_between(start, target) or []

  def trial(k):
    """Returns the number of calls of a refresh whose call k fails."""
    c = copy.copy(sim)
    c.mloc = ctx.new_dir()
    shutil.copytree(home, c.mloc)
    c.mvs = [c.load_mv(), c.load_mv()]
    raised = []

    def fault(n, _frame):
      if n == k:
        raised.append(n)
        raise OSError(errno.ENOSPC, "No space left on device (injected)")

    try:
      runner = c.runner_of(c.mvs[0], opts)
      what = f"refresh from {start} to {target}, with call {k} failing"
      try:
        with hooks.CallWatch(fault) as w:
          results = runner.refresh()
        failed = any(r.state == FAILED for r in results)
      except Exception as e:  # pylint: disable=broad-except
        results, failed = repr(e), True
      check(raised or not failed, lambda: f"{what}: failed: {results}")
      if raised:
        ctx.label("faults")
        ctx.label("failed" if failed else "done")
        ctx.nontrivial(bool(path))
      c.count = 0
      if failed:
        c.check_mv_on_path(f"{what}: {results}", path)
      else:
        c.mv_at = target
      c.check_mv(what)
      c.check_mv_versions()
      c.step(["refresh", case["point"] % 2, None, opts])
      return w.n
    finally:
      shutil.rmtree(c.mloc, ignore_errors=True)

  n = trial(-1)
  step = max(1, n // 5)
  for k in sorted(set(range(max(0, n - 3), n)) |
                  set(range(case["point"] % step, n, step))):
    trial(k)


# ---------------------------------------------------------------- bad input


class SourceError(Exception):
  pass


def bad_table(schema, rows, kind):
  t = schema.table(rows)
  pk = schema.pks[0]
  if kind == "missing":
    return t.drop([pk])
  if kind == "mistyped":
    i = t.schema.names.index(pk)
    other = (pa.array([[1]] * t.num_rows))
    return t.set_column(i, pk, other)
  if kind == "bad_record" and schema.records:
    rec = schema.records[-1]
    i = t.schema.names.index(rec)
    return t.set_column(i, rec, pa.array([5] * t.num_rows, pa.int64()))
  return None  # Not a table.


def run_bad(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], handles=2)
  schema = sim.schema
  for op in case["ops"]:
    if op[0] != "bad":
      sim.step(op)
      continue
    _, kind, verb, good, rows, ray = op
    runner = (ray_of(sim, ray)(sim.ds) if ray else sim.run())
    what = f"step {sim.count}: {verb} with {kind}" + (" on Ray" if ray else "")
    ctx.label(f"bad:{verb}:{kind}")

    def source():
      for g in good:
        yield schema.table(g)
      if kind == "raise":
        raise SourceError()
      yield bad_table(schema, rows, kind)

    def attempt():
      if verb == "append_from":
        return runner.append_from([source])
      if verb == "delete":
        f = (pc.field("no such field") == 1
             if kind != "mistyped" else pc.field(schema.pks[0]) == [1])
        return runner.delete(f)
      data = bad_table(schema, rows, kind if kind != "raise" else "missing")
      if verb == "append":
        # An operation whose second write fails.
        return runner.append_from([lambda: iter([schema.table(rows), data])])
      return getattr(runner, verb)(data)

    try:
      r = attempt()
    except Exception:  # pylint: disable=broad-except
      r = None
    if r is not None:
      check(r.state != OK, lambda: f"{what}: reported success")
    sim.no_commit(what)
    sim.check_head(f", {what}")
    sim.check_all_heads()
    ctx.nontrivial(sim.max_id > 0)
  sim.check_everything()


@st.composite
def faults(draw, targets=None):
  c = draw(strategy(["append", "append_from", "insert", "upsert", "delete",
                     "delete_key", "ext", "tag", "branch", "untag",
                     "unbranch", "read"]))
  c["other"] = draw(st.one_of(st.none(), opsgen.data_op(
      c["schema"], dict(append=3, upsert=2, delete_key=2), 3)))
  return c


@st.composite
def refreshes(draw):
  from checks.c16 import concurrent
  return draw(concurrent())


@st.composite
def bad(draw):
  spec = draw(gen.schemas(max_extra=1, records=(0, 2), nested=False))
  good = opsgen.data_op(spec, dict(append=3, upsert=2, delete_key=2, insert=1),
                        4)
  r = gen.rows(spec, 3, 1)
  broken = st.tuples(
      st.just("bad"),
      st.sampled_from(["raise", "missing", "mistyped", "bad_record", "none"]),
      st.sampled_from(["append_from", "append_from", "append", "insert",
                       "upsert", "delete"]), st.lists(r, max_size=2),
      r, st.one_of(st.none(), vg.ray_opts)).map(list)
  ops = draw(st.lists(st.one_of(good, broken, broken), min_size=3, max_size=8))
  ops.insert(0, ["append", draw(gen.rows(spec, 4, 1)), 0])
  ops.append(["append", draw(gen.rows(spec, 4, 1)), 0])
  return dict(schema=spec, layout=draw(gen.layouts), ops=ops)


SUITES = [
    Suite("faults", lambda tier: faults(), run_faults, 128),
    Suite("refresh", lambda tier: refreshes(), run_refresh, 96),
    Suite("bad_input", lambda tier: bad(), run_bad, 500),
]
