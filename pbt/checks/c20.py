"""C20: an open reader keeps to the version it was opened at."""

import itertools

from hypothesis import strategies as st

from engine import Suite
import gen
from lib import call, check, evaluate, same_rows, to_expr
import opsgen
from sim import OK, SKIPPED, Sim
from checks.c04 import read_rows
from checks.c05 import check_diff
from checks.c11 import resolve

from space.core.random_access import RandomAccessDataSource

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "A case is a generated history through two handles. At generated points "
    "readers are opened through either handle: local reads with generated "
    "filter, fields, version and batch size (also by reference), diffs, and "
    "random access sources (also of addresses that were read earlier). They are "
    "advanced by some batches while the history goes on (writes, branches, tags, "
    "switching, reloading), and drained later: what a reader returns over its "
    "life must be what its version held when it was opened. Some writes append "
    "what a reader of the same dataset returns while the write runs. "
    "Non-trivial: a reader that was drained after a commit had deleted or "
    "replaced rows that it had still to return.")
ASSUMPTIONS = [
    "Ray readers are excluded: whether their version is the one at the call or "
    "at the first batch is not specified",
]


class Opened:
  """A reader and what it must return."""

  def __init__(self, what, sid):
    self.what, self.sid = what, sid
    self.parts = []
    self.it = None
    self.commits = False
    self.done = False

  def advance(self, k):
    """Takes k batches (all: None)."""
    if self.done or self.it is None:
      return
    got = call(self.what, lambda: list(itertools.islice(self.it, k)))
    self.parts += got
    self.done = k is None or len(got) < k


class Fixed:
  """A runner whose diff was read before."""

  def __init__(self, changes):
    self.changes = changes

  def diff(self, *_, **__):
    return iter(self.changes)


class Readers:

  def __init__(self, sim):
    self.sim = sim
    self.open = []

  def handle(self, h):
    return self.sim.handles[h % len(self.sim.handles)]

  def add(self, h, a):
    handle = self.handle(h)
    if handle.branch not in self.sim.heads:
      return
    o = getattr(self, "_" + a[0])(handle, *a[1:])
    if o is not None:
      self.sim.ctx.label("open:" + a[0])
      self.open.append(o)

  def version(self, handle, v):
    """(version argument or None, its snapshot ID)"""
    names = [None] * 3 + sorted(self.sim.snaps) + sorted(self.sim.refs())
    v = names[v % len(names)]
    if v is None:
      return None, self.sim.heads[handle.branch]
    return v, self.sim.refs().get(v, v)

  def _read(self, handle, o, k):
    sim, schema = self.sim, self.sim.schema
    v, sid = self.version(handle, o["version"])
    kw = dict(reference_read=o["ref"])
    rows, names = sim.snaps[sid].rows, list(schema.names)
    if o["filter"] is not None:
      kw["filter_"] = to_expr(o["filter"], schema)
      rows = [r for r in rows if evaluate(o["filter"], schema, r) is True]
    if o["fields"] is not None:
      names = list(dict.fromkeys(
          schema.names[x % len(schema.names)] for x in o["fields"]))
      kw["fields"] = list(names)
    if o["batch"] is not None:
      kw["batch_size"] = o["batch"]
    if v is not None:
      kw["version"] = v
    r = Opened(f"read {o} of snapshot {sid}, opened after step {sim.count}",
               sid)
    r.it = call(r.what, handle.ds.local().read, **kw)
    r.advance(k)

    def finish():
      got = [x for t in r.parts
             for x in read_rows(sim, r.what, t, names, o["ref"])]
      ii = [schema.names.index(n) for n in names]
      same_rows(got, [tuple(x[i] for i in ii) for x in rows], r.what)

    r.finish = finish
    return r

  def _diff(self, handle, i, j, batch, k):
    sim = self.sim
    v, sid = self.version(handle, i)
    if v is None:
      v = sid
    # An ancestor.
    path = [sid]
    while sim.snaps[path[-1]].parent is not None:
      path.append(sim.snaps[path[-1]].parent)
    if len(path) < 2:
      return None
    start = path[1 + j % (len(path) - 1)]
    r = Opened(f"diff from {start} to {sid}, opened after step {sim.count}",
               sid)
    kw = {} if batch is None else dict(batch_size=batch)
    r.it = iter(call(r.what, handle.ds.local().diff, start, v, **kw))
    r.advance(k)
    r.finish = lambda: check_diff(sim, r.what, Fixed(r.parts), start, sid,
                                  batch)
    return r

  def _source(self, handle, early, arrow, filter_, k):
    sim, schema = self.sim, self.sim.schema
    if not schema.records:
      return None
    f = schema.records[k % len(schema.records)]
    sid = sim.heads[handle.branch]
    rows = [r for r in sim.snaps[sid].rows
            if early == 0 or evaluate(filter_, schema, r) is True]
    if not rows:
      return None
    i = schema.names.index(f)
    r = Opened(f"random access to {f} of snapshot {sid}, opened after step "
               f"{sim.count}", sid)
    handle.ds.storage.reload()
    kw = {}
    if early:
      # The addresses are read now.
      t = call(r.what, lambda: handle.ds.local().read_all(
          filter_=to_expr(filter_, schema), reference_read=True, fields=[f]))
      check(t is not None, f"{r.what}: no addresses")
      kw["addresses"] = t
    make = lambda: call(r.what, RandomAccessDataSource, {f: handle.ds.storage},
                        use_array_record_data_source=arrow, **kw)
    src = make() if early < 2 else None

    def finish():
      s = src or make()
      check(len(s) == len(rows), lambda: f"{r.what}: length {len(s)}")
      same_rows(call(r.what, lambda: [s[x] for x in range(len(s))]),
                [x[i] for x in rows], r.what)
      if early:
        same_rows(call(r.what, resolve, sim, kw["addresses"], f, {}),
                  [x[i] for x in rows], r.what + ", addresses")

    r.finish = finish
    return r

  def committed(self):
    for r in self.open:
      s = self.sim.snaps[self.sim.max_id]
      gone = set(s.dels) & set(self.sim.snaps[r.sid].rows)
      r.commits |= bool(gone) and not r.done

  def drain(self, i):
    r = self.open.pop(i % len(self.open))
    r.advance(None)
    r.finish()
    self.sim.ctx.nontrivial(r.commits)


class ReadSim(Sim):

  def _copy(self, what, h, batch, times, version):
    """Appends what readers of the dataset return."""
    src = self.handles[h % len(self.handles)]
    if src.branch not in self.heads or self.handle.branch not in self.heads:
      return
    sid = self.heads[src.branch]
    kw = {} if batch is None else dict(batch_size=batch)
    if version is not None:
      sid = sorted(self.snaps)[version % len(self.snaps)]
      kw["version"] = sid
    fns = [lambda: src.ds.local().read(**kw)] * times
    rows = self.snaps[sid].rows * times
    self._write(f"{what} of snapshot {sid}",
                lambda: self.run().append_from(fns),
                OK if rows else SKIPPED, self.head_or_none() + rows, rows)


def run(case, ctx):
  sim = ReadSim(case["schema"], ctx, case["layout"], 2)
  readers = Readers(sim)
  for op, opens, steps, drain in case["ops"]:
    before = sim.max_id
    sim.step(op)
    if sim.max_id != before:
      readers.committed()
    for r, k in zip(readers.open, steps):
      r.advance(k)
    if drain is not None and readers.open:
      readers.drain(drain)
    for h, a in opens:
      readers.add(h, a)
  while readers.open:
    readers.drain(0)
  sim.check_everything()


batches = st.one_of(st.none(), st.integers(1, 4))
small = st.integers(0, 12)


def opens(spec):
  n = len(spec["fields"])
  opts = st.fixed_dictionaries(
      dict(filter=st.one_of(st.none(), st.none(), gen.filters(spec)),
           fields=st.one_of(
               st.none(), st.none(),
               st.lists(st.integers(0, n - 1), min_size=1, max_size=n)),
           version=small, ref=st.integers(0, 3).map(lambda i: i == 0),
           batch=batches))
  t = lambda *s: st.tuples(*s).map(list)
  read = t(st.just("read"), opts, st.integers(0, 2))
  diff = t(st.just("diff"), small, small, batches, st.integers(0, 2))
  one = [read, read, read, diff]
  if spec["records"]:
    one.append(t(st.just("source"), st.integers(0, 2), st.booleans(),
                 gen.filters(spec, 1), st.integers(0, 1)))
  return t(st.integers(0, 1), st.one_of(one))


@st.composite
def strategy(draw):
  spec = draw(gen.schemas(records=draw(st.sampled_from([(0, 0), (0, 2)])),
                          max_extra=2))
  copy = st.tuples(st.just("copy"), st.integers(0, 1), batches,
                   st.integers(1, 2), st.one_of(st.none(), st.none(), small)
                   ).map(list)
  w = dict(append=3, append_from=3, bulk=1, insert=2, upsert=5, delete=5,
           delete_key=5, delete_all=2)

  def one(i):
    if i < 9:
      return opsgen.data_op(spec, w, 6, True)
    return copy if i == 9 else opsgen.ref_op(2)

  op = st.integers(0, 12).flatmap(one)
  ops = [["append", draw(gen.rows(spec, 8, 1)), 0]]
  ops += [draw(op) for _ in range(draw(st.integers(2, 8)))]
  opening = st.lists(opens(spec), max_size=2)
  advance = st.lists(st.integers(0, 2), max_size=4)
  # Copies double the rows: not too often.
  copies = 0
  out = []
  for o in ops:
    copies += o[0] == "copy"
    if o[0] == "copy" and copies > 3:
      continue
    out.append([o, draw(opening), draw(advance),
                draw(st.one_of(st.none(), st.none(), small))])
  return dict(schema=spec, layout=draw(gen.layouts), ops=out)


SUITES = [
    Suite("readers", lambda tier: strategy(), run, 2500),
]
