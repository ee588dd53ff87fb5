"""C18: a dataset is self-contained and layout options never show."""

import os
import shutil

from hypothesis import strategies as st

from engine import Suite
import gen
from lib import (Schema, call, check, evaluate, file_options, read, same_rows,
                 table_rows, to_expr, tree)
import opsgen
from sim import Handle, Sim
import viewgen as vg
from checks.c05 import check_diff
from checks.c11 import reference_rows

from space import Dataset, MaterializedView

PROPERTY = "C18"
LEVEL = "exploration"
RULE = (
    "relocate: a case is a generated history (writes, deletes, branches, tags) "
    "on a dataset at a generated location (absolute, relative to the working "
    "directory, with special characters, a trailing slash or '..'), whose "
    "directory is then moved or copied to another such location and opened "
    "there; several times, with further operations in between. After each: "
    "every version, tag, branch and diff, filtered and record reference reads "
    "equal the model, no path reported lies outside, and a copied original "
    "is byte for byte unchanged by what happens to the copy. layouts: the same "
    "history runs on two datasets with different file options (generated sizes "
    "of row groups, files, record files); all versions, changes and row counts "
    "equal each other and the model. view: a materialized view's directory is "
    "moved, then read, refreshed after further source writes and read again. "
    "Non-trivial: the moved dataset has at least two snapshots besides the "
    "empty one (relocate, layouts), the refresh after the move changed the view "
    "(view).")
ASSUMPTIONS = [
    "no operation runs while the directory is copied",
    "loads of external files stay bound to these files (by design)",
]

NAMES = ["d", "d é", "a b/c", "x%y", "g[1]*", "q?", "x.y", ".hidden", "a#b",
         "data", "metadata"]


class Places:
  """Makes locations and the strings to name them by."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.cwd = os.path.join(ctx.scratch, "cwd é")
    os.makedirs(self.cwd)
    os.chdir(self.cwd)
    self.n = 0

  def make(self, name, style):
    """(absolute path, how it is named)."""
    self.n += 1
    base = self.cwd if style % 2 else os.path.join(self.ctx.scratch, "abs")
    path = os.path.join(base, f"p{self.n}", NAMES[name % len(NAMES)])
    named = path if style % 2 == 0 else os.path.relpath(path, self.cwd)
    if style // 2 == 1:
      named += "/"
    elif style // 2 == 2:
      os.makedirs(os.path.join(base, "up"), exist_ok=True)
      named = os.path.join(os.path.dirname(os.path.dirname(named)), "up", "..",
                           f"p{self.n}", os.path.basename(named)
                           ) if "/" not in NAMES[name % len(NAMES)] else named
    elif style // 2 == 3 and style % 2:
      named = "./" + named
    return path, named


def check_everything(sim, case, ctx, what):
  ds = sim.load()
  sim.check_versions(ds, what=what + " ")
  sim.check_refs(ds)
  for b, sid in sim.heads.items():
    h = sim.load()
    if b != "main":
      call(f"{what}: switch", h.set_current_branch, b)
    same_rows(read(h, sim.schema, what), sim.snaps[sid].rows,
              f"{what}: branch {b}")
  for sid in sorted(sim.snaps)[1:]:
    check_diff(sim, what, ds.local(), sim.snaps[sid].parent, sid)
  for f in case["filters"]:
    rows = [r for r in sim.head_rows("main")
            if evaluate(f, sim.schema, r) is True]
    same_rows(
        read(ds, sim.schema, what, filter_=to_expr(f, sim.schema)), rows,
        f"{what}: read {f}")
  if sim.schema.records:
    same_rows(reference_rows(sim, what, ds, {}), sim.head_rows("main"),
              f"{what}: reference read")
  root = os.path.realpath(sim.loc)
  for sid in sim.snaps:
    for p in call(what, ds.index_files, sid):
      if os.path.realpath(p) in {os.path.realpath(x) for x in sim.external}:
        continue
      check(os.path.realpath(p).startswith(root + os.sep),
            lambda: f"{what}: index file {p} is outside of {root}")
    for name in ("index_manifest", "record_manifest"):
      for t in call(f"{what}: {name}", lambda: list(
          getattr(ds.storage, name)(snapshot_id=sid))):
        for p in t["_FILE"].to_pylist():
          p = os.path.join(sim.loc, p)
          check(os.path.exists(p),
                lambda: f"{what}: {name} lists the missing file {p}")


def run_relocate(case, ctx):
  places = Places(ctx)
  path, named = places.make(*case["first"])
  sim = Sim(case["schema"], ctx, case["layout"], 2, location=named)
  copies = []  # (path, tree)
  for part in case["parts"]:
    for op in part:
      if op[0] in ("pq", "ar"):
        op[2] = 0  # The location may be relative.
  for part, (how, name, style) in zip(case["parts"], case["moves"]):
    for op in part:
      sim.step(op)
    new, named = places.make(name, style)
    os.makedirs(os.path.dirname(new), exist_ok=True)
    if how == "move":
      os.rename(path, new)
    else:
      shutil.copytree(path, new)
      copies.append((path, tree(path)))
    ctx.label(how)
    path = new
    sim.loc = named
    sim.handles = [Handle(sim.load()) for _ in sim.handles]
    check_everything(sim, case, ctx, f"after {how} to {named!r}")
  for op in case["parts"][-1]:
    sim.step(op)
  ctx.nontrivial(len(sim.snaps) > 2)
  check_everything(sim, case, ctx, "at the end")
  sim.check_external()
  for p, t in copies:
    check(tree(p) == t, f"the original {p} was changed through its copy")
  # Opened with an absolute name, from another working directory.
  os.chdir("/")
  sim.loc = path
  check_everything(sim, case, ctx, "opened by absolute path")


def run_layouts(case, ctx):
  sims = []
  for rg, f, rec in case["options"]:
    s = Sim(case["schema"], ctx, 0, case["handles"])
    s.opts.parquet_options.max_uncompressed_row_group_bytes = rg
    s.opts.parquet_options.max_uncompressed_file_bytes = f
    s.opts.array_record_options.max_uncompressed_file_bytes = rec
    sims.append(s)
  a, b = sims
  for op in case["ops"]:
    a.step(op)
    b.step(op)
  ctx.nontrivial(len(a.snaps) > 2)
  check(sorted(a.snaps) == sorted(b.snaps),
        lambda: f"snapshots {sorted(a.snaps)} and {sorted(b.snaps)}")
  da, db = a.load(), b.load()
  nf = [0, 0]
  for sid in sorted(a.snaps):
    ra, rb = (read(d, a.schema, f"snapshot {sid}", version=sid)
              for d in (da, db))
    same_rows(ra, rb, f"snapshot {sid} with both layouts")
    na, nb = (d.storage.snapshot(sid).storage_statistics for d in (da, db))
    check((na.num_rows, na.record_uncompressed_bytes) == (
        nb.num_rows, nb.record_uncompressed_bytes),
          lambda: f"snapshot {sid}: statistics {na} and {nb}")
    nf = [x + len(d.index_files(sid)) for x, d in zip(nf, (da, db))]
  if nf[0] != nf[1]:
    ctx.label("layouts_differ")
  for s, d in ((a, da), (b, db)):
    s.check_versions(d)
    s.check_refs(d)
    for sid in sorted(s.snaps)[1:]:
      check_diff(s, "layouts", d.local(), s.snaps[sid].parent, sid)
    if s.schema.records:
      same_rows(reference_rows(s, "reference read", d, {}), s.head_rows("main"),
                "reference read")


def run_view(case, ctx):
  places = Places(ctx)
  _, source = places.make(*case["first"])
  # The view names its source by location.
  source = os.path.abspath(source)
  sim = Sim(case["schema"], ctx, case["layout"], location=source)
  steps = case["steps"]
  out = Schema(vg.schemas_of(steps, sim.schema)[-1].spec)
  path, named = places.make(*case["place"])
  view = call("build view", vg.build, steps, sim.load(), sim.schema)
  mv = call("materialize", view.materialize, named)

  def contents(what, want):
    for name, r in (("local", mv.local()), ("ray", mv.ray())):
      t = call(what, r.read_all)
      rows = [] if t is None else call(what, table_rows, t, out.names,
                                       out.types, what)
      same_rows(rows, want, f"{what} ({name})")

  for part, (how, name, style) in zip(case["parts"], case["moves"]):
    for op in part:
      sim.step(op)
    call("refresh", mv.ray(file_options=file_options(case["layout"])).refresh)
    want = vg.apply(steps, sim.schema, sim.head_rows("main"))
    contents("refreshed", want)
    new, named = places.make(name, style)
    os.makedirs(os.path.dirname(new), exist_ok=True)
    if how == "move":
      os.rename(path, new)
    else:
      shutil.copytree(path, new)
      shutil.rmtree(path)
    path = new
    mv = call("load", MaterializedView.load, named)
    contents(f"after {how} to {named!r}", want)
    same_rows(
        read(call("load", Dataset.load, named), out, "storage of the view"),
        want, "storage of the view")
  before = vg.apply(steps, sim.schema, sim.head_rows("main"))
  for op in case["parts"][-1]:
    sim.step(op)
  call("refresh", mv.ray(file_options=file_options(case["layout"])).refresh)
  want = vg.apply(steps, sim.schema, sim.head_rows("main"))
  contents("refreshed after the move", want)
  ctx.nontrivial(sorted(before, key=repr) != sorted(want, key=repr))


place = st.tuples(st.integers(0, len(NAMES) - 1),
                  st.integers(0, 7)).map(list)
move = st.tuples(st.sampled_from(["move", "copy"]),
                 st.integers(0, len(NAMES) - 1), st.integers(0, 7)).map(list)


@st.composite
def relocate(draw):
  p = draw(opsgen.program(data=3, refs=2, max_ops=8, min_ops=2, handles=2,
                          external=True, forked=draw(st.booleans()),
                          schema_kw=dict(max_extra=2)))
  return split(draw, p)


def split(draw, p):
  ops = p.pop("ops")
  n = draw(st.integers(1, 2))
  cuts = sorted(draw(st.integers(0, len(ops))) for _ in range(n))
  parts, at = [], 0
  for c in cuts + [len(ops)]:
    parts.append(ops[at:c])
    at = c
  return dict(p, parts=parts, first=draw(place),
              moves=[draw(move) for _ in range(n)],
              filters=draw(st.lists(gen.filters(p["schema"]), max_size=2)))


@st.composite
def layouts(draw):
  p = draw(opsgen.program(data=5, refs=1, max_ops=8, min_ops=2, size=8,
                          handles=1, weights=dict(
                              append_from=9, append=2, insert=1, upsert=3,
                              bulk=1, delete=3, delete_key=2)))
  size = st.sampled_from([1, 30, 60, 100, 150, 200, 300, 500, 1000, 100000])
  return dict(p, options=[[draw(size) for _ in range(3)] for _ in range(2)])


@st.composite
def view(draw):
  spec = draw(vg.source_schemas(max_extra=2))
  w = dict(insert=3, upsert=6, delete=3, delete_key=3)
  ops = [draw(opsgen.data_op(spec, w, 5))
         for _ in range(draw(st.integers(2, 6)))]
  ops.insert(0, ["upsert", draw(gen.distinct_rows(spec, 6)), 0])
  ops.append(["upsert", draw(gen.distinct_rows(spec, 4)), 0])
  p = dict(schema=spec, layout=draw(gen.layouts), ops=ops)
  return dict(split(draw, p), place=draw(place),
              steps=draw(vg.steps(vg.VSchema(spec), 2, subset_filter=False)))


SUITES = [
    Suite("relocate", lambda tier: relocate(), run_relocate, 500),
    Suite("layouts", lambda tier: layouts(), run_layouts, 500),
    Suite("view", lambda tier: view(), run_view, 240),
]
