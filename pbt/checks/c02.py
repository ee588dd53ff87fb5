"""C02: committed snapshots never change."""

from hypothesis import strategies as st

from engine import Suite
from lib import call, check, refused
import opsgen
from sim import Sim

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "A case is a generated history of writes and reference operations through "
    "three handles. Every snapshot's rows are recorded when it is committed; "
    "all snapshots, tags and branches are read again later, by snapshot ID and "
    "by name, through old and new handles, and unknown versions must be refused. "
    "Non-trivial: a snapshot is read again after a later commit deleted or "
    "replaced rows.")
ASSUMPTIONS = ["primary keys are not null, NaN or larger than 4 KB"]


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  files = {0: set()}
  removed = False
  for i, op in enumerate(case["ops"]):
    before = sim.max_id
    sim.step(op)
    if sim.max_id != before:
      sid = sim.max_id
      files[sid] = set(call("index_files", sim.ds.index_files, sid))
      if sim.snaps[sid].dels and len(sim.snaps) > 2:
        removed = True
    if i % 4 == 3:
      sim.check_versions(ds=sim.handles[i % case["handles"]].ds)
  sim.check_versions()
  for h in sim.handles:
    sim.check_versions(ds=h.ds, ids=list(sim.snaps)[::3])
  ds = sim.load()
  for sid, fs in files.items():
    got = call("index_files", ds.index_files, sid)
    check(set(got) == fs,
          lambda: f"index files of snapshot {sid} changed: {fs} -> {got}")
  for bad in (sim.max_id + 1 + case["bad"], "no-such-version", ""):
    refused(f"read of unknown version {bad!r}",
            lambda: ds.local().read_all(version=bad))
    refused(f"index_files of unknown version {bad!r}",
            lambda: ds.index_files(bad))
  ctx.nontrivial(removed)


def strategy(**kw):
  return st.builds(
      lambda p, bad: dict(p, bad=bad),
      opsgen.program(data=5, refs=2, handles=3, external=True, **kw),
      st.integers(0, 5))


SUITES = [
    Suite("history", lambda tier: strategy(max_ops=10, min_ops=2), run, 900),
    Suite("long", lambda tier: strategy(
        max_ops=18, min_ops=8, forked=True, schema_kw=dict(max_extra=2, records=(0, 1))),
          run, 120),
]
