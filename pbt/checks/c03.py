"""C03: branches are isolated; references and snapshot IDs are reliable."""

from engine import Suite
from lib import call, check, refused
import opsgen
from sim import MAIN, Sim

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "A case is a generated history mixing writes with tag and branch operations "
    "(add, remove, switch, also invalid ones) through three handles, one of "
    "them usually stale. After every step the versions table and every branch "
    "and tag are compared with a model. Non-trivial: a commit on a branch other "
    "than main, and at least two references made.")
ASSUMPTIONS = [
    "tags and branches are added without a snapshot ID only while on main "
    "(elsewhere the tagged snapshot is not specified)",
]


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  branch_commit = False
  for op in case["ops"]:
    before = sim.max_id
    sim.step(op)
    h = sim.handle
    if sim.max_id != before and h.branch != MAIN:
      branch_commit = True
    sim.check_refs()
    if op[0] in ("use", "fresh"):
      continue  # A read would reload the handle; it acts on what it knows.
    if h.branch in sim.heads:
      sim.check_head()
      sim.check_refs(h.ds)  # The acting handle has reloaded.
    else:
      refused("read on a removed branch", h.ds.local().read_all)
      sim.step(["switch", MAIN])
    check(call("current_branch", lambda: h.ds.storage.current_branch) ==
          h.branch, "the handle's current branch changed")
    for b in sim.heads:
      if b != MAIN:
        sim.check_versions(ids=[], refs=True)
        break
  sim.check_everything()
  ctx.nontrivial(branch_commit and ctx.labels.get("op:branch", 0) +
                 ctx.labels.get("op:tag", 0) >= 2)


_W = dict(append=5, upsert=2, delete=1, delete_key=2, insert=1)
_S = dict(max_extra=1, records=(0, 1), nested=False)

SUITES = [
    Suite("refs", lambda tier: opsgen.program(
        data=2, refs=5, min_ops=3, max_ops=14, handles=3, size=3, weights=_W,
        schema_kw=_S), run, 1000),
    Suite("long", lambda tier: opsgen.program(
        data=3, refs=5, min_ops=18, max_ops=36, handles=3, size=2, weights=_W,
        schema_kw=_S), run, 160),
]
