"""C01: histories of writes against a plain in-memory table."""

from engine import Suite
import opsgen
from sim import Sim

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "A case is a generated schema, file layout and list of write operations, "
    "run on a dataset and on an in-memory multiset of rows; the contents are "
    "compared after every operation, and through every handle and a fresh load "
    "at the end. Non-trivial: at least two commits, one of which removed or "
    "replaced rows.")
ASSUMPTIONS = [
    "primary keys are not null, NaN or larger than 4 KB",
    "NOT is not applied to primary keys in filters (known finding)",
]


def run(case, ctx):
  sim = Sim(case["schema"], ctx, case["layout"], case["handles"])
  removed = False
  for i, op in enumerate(case["ops"]):
    if case["handles"] > 1:
      sim.cur = i % case["handles"] if i % 3 else 0
    before = sim.max_id
    sim.step(op)
    sim.check_head()
    if sim.max_id != before and sim.snaps[sim.max_id].dels:
      removed = True
  sim.check_all_heads()
  ctx.nontrivial(removed and len(sim.snaps) > 2)


SUITES = [
    Suite("history",
          lambda tier: opsgen.program(max_ops=9, handles=2, external=True), run,
          1800),
    Suite("long",
          lambda tier: opsgen.program(
              max_ops=25, min_ops=12, size=8,
              schema_kw=dict(max_extra=2, records=(0, 1))), run, 160),
    Suite("large", lambda tier: opsgen.large(), run, 16),
]
