"""C08: concurrent commits never lose updates."""

import copy
import re
import shutil

from hypothesis import strategies as st

from engine import Suite, Violation
import gen
import hooks
from lib import SPACE_ERRORS, Dataset, call, check
import opsgen
from sim import FAILED, MAIN, OK, SKIPPED, Handle, Sim

from space import RayOptions

PROPERTY = "C08"
LEVEL = "exploration"
RULE = (
    "calls: a case is a generated history, a data operation A of one handle and "
    "a few operations B (writes, tag and branch operations, on the same or "
    "another branch) of a second handle; B runs inside A, at a generated one of "
    "the calls A makes into file libraries between its first and its last look "
    "at the entry point file (the race inside the final check-and-replace is "
    "documented as unsupported, and excluded). yields: B runs when A asks its "
    "data source for the next table. stale: histories through three handles "
    "that are opened once. The outcome of A, all versions and references are "
    "compared with the model. Non-trivial: B changed something while A ran, or "
    "(stale) at least two handles committed.")
ASSUMPTIONS = [
    "the storage is single-writer inside the final check-and-replace of the "
    "entry point (TODO in Storage.commit)",
]
WRITES = re.compile("output|write|move|rename|replace|copy", re.I)
ENTRY = "entrypoint.txtpb"


class ConcSim(Sim):
  """The next write of handle 0 is interleaved with operations of handle 1."""

  between = None  # A function to run while A runs.
  how = None

  def _write(self, what, fn, expect, rows=None, adds=(), dels=()):
    if self.how is None:
      return super()._write(what, fn, expect, rows, adds, dels)
    how, self.how = self.how, None
    branch = self.handle.branch
    head = self.heads[branch]
    self.ran = False
    before = (dict(self.heads), dict(self.tags), self.max_id)

    def interleave():
      if self.ran:
        return
      self.ran = True
      cur, self.cur = self.cur, 1
      count = self.count
      try:
        for op in self.between:
          self.step(op)
          self.check_head(f", inside {what}")
      finally:
        self.cur = cur
        self.count = count

    error = None
    try:
      r = how(fn, interleave)
    except Violation:
      raise
    except SPACE_ERRORS as e:
      r, error = None, e
    changed = before != (self.heads, self.tags, self.max_id)
    self.ctx.nontrivial(self.ran and changed)
    state = r.state if r is not None else FAILED
    what = f"{what}, interleaved with {[o[0] for o in self.between]}"
    if self.heads.get(branch) != head:
      self.ctx.label("conflict" if branch in self.heads else "branch_lost")
      allowed = {FAILED} if expect == OK else {FAILED, SKIPPED}
      check(state in allowed,
            lambda: f"{what}: state {state.name} although the branch changed "
            "meanwhile; expected a failure")
      self.no_commit(what)
      if branch not in self.heads:
        self.handle.ds.set_current_branch(MAIN)
        self.handle.branch = MAIN
    else:
      self.ctx.label("no_conflict" if changed else "unchanged")
      check(state == expect,
            lambda: f"{what}: state {state.name}, expected {expect.name}: "
            f"{error or r}")
      if expect == OK:
        self.commit(what, branch, rows, adds, dels)
      else:
        self.no_commit(what)


def setup(case, ctx):
  sim = ConcSim(case["schema"], ctx, case["layout"], handles=2)
  if case["ray"] is not None:
    o = RayOptions(max_parallelism=case["ray"])
    local = sim.runner
    # Only A (handle 0) uses Ray.
    sim.runner = lambda ds: (ds.ray(o, sim.opts) if ds is sim.handles[0].ds and
                             case["ray"] else local(ds))
  for op in case["ops"]:
    sim.step(op)
  sim.step(["switch", case["a_branch"]])
  sim.cur = 1
  sim.step(["switch", case["b_branch"]])
  sim.cur = 0
  sim.between = case["between"]
  return sim


def finish(sim, case):
  sim.check_everything()
  sim.cur = 0
  # The handle goes on, on top of what the other did.
  for h in (0, 1, 0):
    sim.cur = h
    sim.step(case["after"])
    sim.check_head()
  sim.check_everything()
  sim.check_external()


def mentions_entry(frame):
  return any(isinstance(v, str) and v.endswith(ENTRY)
             for v in frame.f_locals.values())


def points(sim, case, ctx):
  """The range of calls at which A has started and not yet checked."""
  loc = ctx.new_dir()
  shutil.copytree(sim.loc, loc)
  c = copy.copy(sim)
  c.loc, c.external = loc, {}
  c.heads, c.tags, c.snaps = dict(sim.heads), dict(sim.tags), dict(sim.snaps)
  ds = call("load", Dataset.load, loc)
  call("switch", ds.set_current_branch, sim.handle.branch)
  c.handles = [Handle(ds, sim.handle.branch), sim.handles[1]]
  groups, frames = [], []  # [first call, last call, is it a read]

  def see(n, frame):
    if mentions_entry(frame):
      if not frames or frames[-1] is not frame:
        frames.append(frame)
        groups.append([n, n, True])
      groups[-1][1] = n
      if WRITES.search(c.watch.callee):
        groups[-1][2] = False

  def how(fn, _):
    with hooks.CallWatch(see) as c.watch:
      r = fn()
    c.n = c.watch.n
    return r

  c.how, c.between = how, []
  c.n = 0
  c.step(case["a"])
  shutil.rmtree(loc, ignore_errors=True)
  groups = [g for g in groups if g[2]]
  if not groups:
    return None
  first = groups[0][1] + 1
  last = groups[-1][0] if len(groups) > 1 else (first + c.n) // 2
  return (first, last) if last >= first else None


def run_calls(case, ctx):
  sim = setup(case, ctx)
  rng = points(sim, case, ctx)
  if rng is None:
    ctx.label("no_points")
    return
  first, last = rng
  span = last - first
  # The last point (just before the check) and the first are likely.
  p = case["point"]
  k = first + (span if p >= 90 else 0 if p >= 80 else span * p // 80)
  ctx.label("points", span + 1)

  def how(fn, interleave):

    def at(n, _frame):
      if n == k:
        interleave()

    with hooks.CallWatch(at):
      return fn()

  sim.how = how
  sim.step(case["a"])
  sim.how = None
  finish(sim, case)


def run_yields(case, ctx):
  sim = setup(case, ctx)
  sources = case["a"][1]
  total = sum(len(s) + 1 for s in sources)
  k = case["point"] * total // 100
  schema = sim.schema
  new = [r for s in sources for t in s for r in schema.rows(t)]

  def how(fn, interleave):
    n = 0

    def source(s):
      nonlocal n
      for rows in s:
        if n == k:
          interleave()
        n += 1
        yield schema.table(rows)
      if n == k:
        interleave()
      n += 1

    return sim.run().append_from([(lambda s=s: source(s)) for s in sources])

  sim.how = how
  sim._write("append_from", None, OK if new else SKIPPED,
             sim.head_or_none() + new, new)
  finish(sim, case)


def run_stale(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  committers = set()
  for i, op in enumerate(case["ops"]):
    sim.cur = case["use"][i % len(case["use"])] % case["handles"]
    before = sim.max_id
    sim.step(op)
    sim.check_head()
    if sim.max_id != before:
      committers.add(sim.cur)
  sim.check_everything()
  ctx.nontrivial(len(committers) > 1)


W = dict(append=3, append_from=2, insert=2, upsert=4, delete=2, delete_key=4,
         delete_all=1)


@st.composite
def strategy(draw, yields=False):
  spec = draw(gen.schemas(max_extra=1, records=(0, 1), nested=False))
  d = lambda w=W, ext=False: draw(opsgen.data_op(spec, w, 4, ext))
  ops = [["append", draw(gen.rows(spec, 5, 1)), 0]]
  ops += [d() for _ in range(draw(st.integers(0, 2)))]
  ops += [["tag", "t1"], ["fork", "b1"]]
  if draw(st.booleans()):
    ops.append(d())
  branches = st.sampled_from([MAIN, MAIN, "b1"])
  a_branch = draw(branches)
  b_branch = draw(st.one_of(st.just(a_branch), branches))
  if yields:
    a = ["append_from",
         draw(st.lists(st.lists(gen.rows(spec, 4), min_size=1, max_size=3),
                       min_size=1, max_size=2)), 0]
  else:
    a = d(dict(W, delete_all=2), True)
  one = st.one_of(
      opsgen.data_op(spec, dict(append=5, upsert=3, delete_key=3), 3),
      opsgen.data_op(spec, dict(append=5, upsert=3, delete_key=3), 3),
      opsgen.ref_op(2).filter(lambda o: o[0] not in ("use", "fresh")),
      st.sampled_from([["unbranch", "b1"], ["untag", "t1"], ["tag", "t2"],
                       ["fork", "b2"], ["tag", "b1"], ["branch", "b1"]]))
  between = draw(st.lists(one, min_size=1, max_size=3))
  if a_branch == "b1" and draw(st.integers(0, 3)) == 0:
    b_branch = MAIN
    between.insert(draw(st.integers(0, len(between))), ["unbranch", "b1"])
  after = ["append", draw(gen.rows(spec, 2, 1)), 0]
  return dict(schema=spec, layout=draw(gen.layouts), ops=ops, a=a,
              between=between, a_branch=a_branch, b_branch=b_branch,
              point=draw(st.integers(0, 99)), after=after,
              ray=None if a[0] in ("pq", "ar") else draw(
                  st.sampled_from([None, None, None, 1, 2])))


SUITES = [
    Suite("calls", lambda tier: strategy(), run_calls, 700),
    Suite("yields", lambda tier: strategy(yields=True), run_yields, 300),
    Suite("stale", lambda tier: st.builds(
        lambda p, u: dict(p, use=u),
        opsgen.program(data=3, refs=2, handles=3, max_ops=10, min_ops=4,
                       schema_kw=dict(max_extra=1, records=(0, 1))),
        st.lists(st.integers(0, 2), min_size=5, max_size=5)), run_stale, 500),
]
