"""C05: diff returns exactly what each snapshot changed."""

from collections import Counter

from hypothesis import strategies as st

from engine import Suite
from lib import call, check, refused, same_rows, table_rows
import opsgen
from sim import Sim

from space.core.ops.change_data import ChangeType

PROPERTY = "C05"
LEVEL = "exploration"
RULE = (
    "A case is a generated history of writes (also on branches, and loads of "
    "external files); diff is read for every adjacent pair of versions and for "
    "generated pairs, compared with the deleted and added rows the model "
    "recorded per snapshot, and replayed on the start contents. Non-trivial: a "
    "diff over a snapshot that deleted some rows of a file or replaced rows.")
ASSUMPTIONS = [
    "DELETE changes carry primary keys only, before the ADD changes of the same "
    "snapshot (documented)"
]


def diff_changes(sim, what, runner, start, end, batch=None):
  """[(snapshot ID, deleted keys, added rows)] as returned by diff."""
  schema = sim.schema
  kw = {} if batch is None else dict(batch_size=batch)
  changes = call(what, lambda: list(runner.diff(start, end, **kw)))
  out = []
  for c in changes:
    if c.data.num_rows == 0:
      continue
    if batch is not None:
      check(c.data.num_rows <= batch,
            lambda: f"{what}: {c.data.num_rows} rows in a batch of {batch}")
    if not out or out[-1][0] != c.snapshot_id:
      out.append((c.snapshot_id, [], []))
    if c.type_ == ChangeType.DELETE:
      check(not out[-1][2],
            f"{what}: snapshot {c.snapshot_id}: DELETE after ADD")
      out[-1][1].extend(
          call(what, table_rows, c.data, schema.pks, schema.types, what))
    else:
      out[-1][2].extend(
          call(what, table_rows, c.data, schema.names, schema.types, what))
  return out


def check_diff(sim, what, runner, start, end, batch=None, by=None):
  """start, end: snapshot IDs; by: the version arguments to use."""
  a, b = by or (start, end)
  path = sim.path_between(start, end)
  if not path:
    refused(f"{what}: diff({a!r}, {b!r}) of a non-ancestor",
            lambda: list(runner.diff(a, b)))
    sim.ctx.label("non_ancestor")
    return
  what = f"{what}: diff({a!r}, {b!r})"
  got = diff_changes(sim, what, runner, a, b, batch)
  want = [s for s in path if sim.snaps[s].adds or sim.snaps[s].dels]
  check([g[0] for g in got] == want,
        lambda: f"{what}: changes of snapshots {[g[0] for g in got]}, "
        f"expected {want}")
  state = Counter(sim.schema.key(r) for r in sim.snaps[start].rows)
  for sid, dels, adds in got:
    snap = sim.snaps[sid]
    same_rows(dels, [sim.schema.key(r) for r in snap.dels],
              f"{what}: deleted keys in {sid}")
    same_rows(adds, snap.adds, f"{what}: added rows in {sid}")
    state.subtract(dels)
    check(min(state.values(), default=0) >= 0,
          lambda: f"{what}: deletes keys that do not exist")
    state.update(sim.schema.key(r) for r in adds)
  check(+state == Counter(sim.schema.key(r) for r in sim.snaps[end].rows),
        f"{what}: replay does not give the end contents")


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  for op in case["ops"]:
    sim.step(op)
  ds = sim.load() if case["fresh"] else sim.ds
  if not case["fresh"]:
    ds.storage.reload()
  what = "final"
  ids = sorted(sim.snaps)
  for sid in ids[1:]:
    check_diff(sim, what, ds.local(), sim.snaps[sid].parent, sid,
               case["batch"])
    s = sim.snaps[sid]
    ctx.nontrivial(s.dels and len(s.dels) < len(sim.snaps[s.parent].rows))
  for i, j in case["pairs"]:
    check_diff(sim, what, ds.local(), ids[i % len(ids)], ids[j % len(ids)],
               case["batch"])
  for name, sid in sim.refs().items():
    check_diff(sim, what, ds.local(), 0, sid, by=(0, name))
  if len(ids) > 1:
    check_diff(sim, what, ds.local(), 0, sim.heads["main"])


def strategy(program=None, **kw):
  return st.builds(
      lambda p, pairs, batch, fresh: dict(p, pairs=pairs, batch=batch,
                                          fresh=fresh),
      opsgen.program(handles=2, external=True, **kw)
      if program is None else program,
      st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)).map(list),
               max_size=4), st.one_of(st.none(), st.integers(1, 30)),
      st.booleans())


SUITES = [
    Suite("linear", lambda tier: strategy(data=1, refs=0, max_ops=9,
                                          min_ops=2), run, 1200),
    Suite("branches", lambda tier: strategy(
        data=5, refs=2, max_ops=8, min_ops=1, forked=True,
        schema_kw=dict(max_extra=2, records=(0, 1))), run, 350),
    Suite("large", lambda tier: strategy(opsgen.large()).map(
        lambda c: dict(c, batch=c["batch"] and c["batch"] * 3000)), run, 16),
]
