"""C13: a catalog finds exactly the datasets and views created in it."""

import os

from hypothesis import strategies as st
import pyarrow as pa

from engine import Suite, Violation
import gen
from lib import (Schema, TYPES, call, check, file_options, gen_cell, read,
                 refused, same_rows, table_rows, tree)
from sim import Handle, Sim, Snap
import viewgen as vg

from space import Dataset, DirCatalog, MaterializedView
from space.core.utils import errors

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "A case is a generated history on a directory catalog whose location is "
    "absolute or relative to the working directory, plain or with special "
    "characters: datasets and materialized views are created under generated "
    "names (also equal but for case or a prefix), created again with the same or "
    "another definition, created with an invalid definition, opened through old "
    "and new catalog objects, written and refreshed through what was opened; "
    "files and directories that are no datasets are put beside them; the whole "
    "catalog directory is moved. After every step the listing (names and "
    "locations) is compared with the created names, and at the end every name is "
    "opened and its kind, schema, keys and rows are compared with the model, as "
    "are all its versions; unknown names must be reported as not found. "
    "Non-trivial: at least two names exist and a write went through an opened "
    "dataset, or a duplicate was refused.")
ASSUMPTIONS = [
    "the catalog directory exists; names are single path components",
    "views name their source by its location, so that catalogs with views are "
    "not moved",
]

NAMES = ["a", "A", "ab", "b", "a b", "é", "x.y", ".hidden", "d%20", "data",
         "metadata", "a~", "[a]*", "entrypoint", "udfs", "main", " a", "a ",
         "a.", "~", "..a", "-", "$HOME"]
UNKNOWN = NAMES + ["nope", "a.b", "A B"]
DIRS = ["cat", "c é", "c/d", "c[1]*", "x%y", "metadata"]


class CatalogSim:

  def __init__(self, case, ctx):
    self.ctx = ctx
    self.case = case
    self.cwd = os.path.join(ctx.scratch, "cwd")
    os.makedirs(self.cwd)
    os.chdir(self.cwd)
    self.moves = 0
    self.place(case["dir"], case["style"])
    os.makedirs(self.path)
    self.cat = DirCatalog(self.named)
    self.entries = {}  # name -> Sim | MaterializedEntry
    self.hidden = set()  # Strays.
    self.wrote = self.refused_dup = False
    self.views = False

  def place(self, i, style):
    self.path = os.path.join(self.cwd, f"at{self.moves}", DIRS[i])
    self.named = (os.path.relpath(self.path, self.cwd) if style % 2 else
                  self.path) + ("/" if style // 2 else "")

  def catalog(self, fresh):
    if fresh:
      self.cat = DirCatalog(self.named)
    return self.cat

  def step(self, i, op):
    what = f"step {i} {op[0]}"
    self.ctx.label("op:" + op[0])
    getattr(self, "_" + op[0])(what, *op[1:])
    if not self.case["end_only"]:
      self.check_listing(what)

  # ------------------------------------------------------------ steps

  def _create(self, what, name, spec, fresh):
    s = Schema(spec)
    what = f"{what} {name!r}"
    if name in self.entries:
      return self.duplicate(what, name, lambda: self.catalog(
          fresh).create_dataset(name, s.arrow(), s.pks, s.records))
    ds = call(what, self.catalog(fresh).create_dataset, name, s.arrow(), s.pks,
              s.records)
    self.entries[name] = NamedSim(spec, self.ctx, self.case["layout"], ds,
                                  os.path.join(self.path, name))
    self.hidden.discard(name)

  def duplicate(self, what, name, fn):
    before = tree(os.path.join(self.path, name))
    try:
      fn()
    except errors.StorageExistError:
      pass
    except Exception as e:
      raise Violation(f"{what}: a name created twice: expected "
                      f"StorageExistError, got {type(e).__name__}: {e}") from e
    else:
      raise Violation(f"{what}: a name was created twice")
    after = tree(os.path.join(self.path, name))
    for p, b in before.items():
      check(after.get(p) == b, f"{what}: refused, but {p} was changed")
    self.refused_dup = True
    self.ctx.label("duplicate_refused")
    self.check_entry(f"{what} (refused)", name)

  def _create_bad(self, what, name, kind, fresh):
    """An invalid definition: nothing is created."""
    known = name in self.entries
    fields = [("k", pa.int64()), ("r", pa.binary())]
    pks, recs = ["k"], ["r"]
    if kind == 0:
      pks = []
    elif kind == 1:
      pks = ["nope"]
    elif kind == 2:
      recs = ["k"]
    elif kind == 3:
      recs = ["nope"]
    else:
      fields.append(("l", pa.list_(pa.int64())))
      pks = ["l"]
    before = tree(os.path.join(self.path, name)) if known else None
    refused(f"{what} {name!r} ({kind})", self.catalog(fresh).create_dataset,
            name, pa.schema(fields), pks, recs)
    if known:
      after = tree(os.path.join(self.path, name))
      check(all(after.get(p) == b for p, b in before.items()),
            f"{what} {name!r}: refused, but the existing one was changed")

  def sims(self):
    return sorted(n for n, e in self.entries.items() if isinstance(e, Sim))

  def _write(self, what, i, ops, how):
    """Writes through the created handle, or one opened by name."""
    names = self.sims()
    if not names:
      return
    name = names[i % len(names)]
    sim = self.entries[name]
    if how:
      h = Handle(self.open(what, name, how == 2))
      sim.handles = [h, sim.handles[1]] if how == 1 else [sim.handles[0], h]
      sim.cur = how - 1
    for k, cells in ops:
      if k == "rows":
        rows = sim.schema.bulk(*cells)
        if self.case["views"]:  # Views need unique keys.
          have = set(map(sim.schema.key, sim.head_or_none()))
          rows = [r for r, x in zip(rows, sim.schema.rows(rows))
                  if sim.schema.key(x) not in have and
                  not have.add(sim.schema.key(x))]
        sim.step(["append", rows, 0])
      elif k == "upsert":
        sim.step(["bulk", "upsert", *cells])
      elif k == "delete":
        sim.step(["delete_key", cells[0]])
      else:
        sim.step(["tag", "t%d" % cells[0]])
    self.wrote = self.wrote or how > 0
    sim.check_all_heads()

  def open(self, what, name, fresh=False):
    ds = call(f"{what}: open {name!r}", self.catalog(fresh).dataset, name)
    return ds

  def _materialize(self, what, name, i, seed, fresh):
    names = self.sims()
    if not names or self.moves:
      return
    source = names[i % len(names)]
    sim = self.entries[source]
    if not vg_able(sim.schema):
      return
    steps = self.case["views"][seed % len(self.case["views"])]
    steps = adapt(steps, sim.schema)
    ds = self.open(what, source)
    if name in self.entries:
      def again():
        view = call(what, vg.build, steps, ds, sim.schema)
        self.catalog(fresh).materialize(name, view)
      return self.duplicate(f"{what} {name!r}", name, again)
    view = call(what, vg.build, steps, ds, sim.schema)
    mv = call(f"{what} {name!r}", self.catalog(fresh).materialize, name, view)
    check(isinstance(mv, MaterializedView), f"{what}: returned {mv!r}")
    self.entries[name] = View(source, steps, mv,
                              Schema(vg.schemas_of(steps, sim.schema)[-1].spec))
    self.hidden.discard(name)
    self.views = True

  def _refresh(self, what, i, how):
    names = sorted(n for n, e in self.entries.items() if isinstance(e, View))
    if not names:
      return
    name = names[i % len(names)]
    v = self.entries[name]
    mv = self.open(what, name, how == 2) if how else v.mv
    self.is_view(what, name, mv)
    call(f"{what} {name!r}", mv.ray().refresh)
    sim = self.entries[v.source]
    v.rows = vg.apply(v.steps, sim.schema, sim.snaps[sim.heads["main"]].rows)
    self.ctx.label("refreshed_opened" if how else "refreshed")
    self.check_entry(what, name)

  def is_view(self, what, name, mv):
    check(isinstance(mv, MaterializedView),
          f"{what}: {name!r} is a materialized view, opened as {type(mv)}")

  def _unknown(self, what, name, fresh):
    if name in self.entries:
      return
    try:
      r = self.catalog(fresh).dataset(name)
    except errors.StorageNotFoundError:
      self.ctx.label("not_found")
    except Exception as e:
      raise Violation(f"{what}: open unknown {name!r}: expected "
                      f"StorageNotFoundError, got {type(e).__name__}: "
                      f"{e}") from e
    else:
      raise Violation(f"{what}: open unknown {name!r} returned {r!r}")

  def _stray(self, what, name, kind):
    """Something that is not a dataset is put into the directory."""
    p = os.path.join(self.path, name)
    if name in self.entries or os.path.lexists(p):
      return
    self.hidden.add(name)
    if kind == 0:
      with open(p, "w") as f:
        f.write("x")
      self.hidden.discard(name)
      # A file stays in the way of a dataset.
      os.rename(p, p + ".file")
    elif kind == 1:
      os.makedirs(p)
    elif kind == 2:
      os.makedirs(os.path.join(p, "metadata"))
      os.makedirs(os.path.join(p, "data"))
    else:
      # A dataset deeper inside is not in this catalog.
      DirCatalog(p).create_dataset(
          "inner", pa.schema([("k", pa.int64())]), ["k"], [])

  def _open(self, what, i, fresh):
    names = sorted(self.entries)
    if names:
      self.catalog(fresh)
      self.check_entry(what, names[i % len(names)])

  def _move(self, what, i, style):
    """Moves the catalog directory."""
    if self.views:
      return
    old = self.path
    self.moves += 1
    self.place(i, style)
    os.makedirs(os.path.dirname(self.path), exist_ok=True)
    os.rename(old, self.path)
    self.cat = DirCatalog(self.named)
    for name, sim in self.entries.items():
      sim.loc = os.path.join(self.path, name)
      sim.handles = [Handle(self.open(what, name)), Handle(self.open(what, name))]

  # ------------------------------------------------------------ oracle

  def check_listing(self, what):
    for which, cat in (("", self.cat), (" (new catalog)",
                                        DirCatalog(self.named))):
      infos = call(f"{what}: list{which}", cat.datasets)
      names = [x.name for x in infos]
      check(sorted(names) == sorted(self.entries),
            lambda: f"{what}: listed{which} {sorted(names)}, created "
            f"{sorted(self.entries)}")
      for x in infos:
        check(os.path.realpath(x.location) == os.path.realpath(
            os.path.join(self.path, x.name)),
              lambda: f"{what}: {x.name!r} listed{which} at {x.location}")

  def check_entry(self, what, name):
    e = self.entries[name]
    ds = self.open(what, name)
    what = f"{what}: {name!r}"
    if isinstance(e, View):
      self.is_view(what, name, ds)
      for which, r in (("local", ds.local()), ("ray", ds.ray())):
        t = call(what, r.read_all)
        rows = [] if t is None else call(what, table_rows, t, e.schema.names,
                                         e.schema.types, what)
        same_rows(rows, e.rows, f"{what} ({which})")
      ds = ds.dataset
    check(isinstance(ds, Dataset), f"{what}: opened as {type(ds)}")
    s = e.schema
    check([(f.name, f.type) for f in ds.schema] ==
          [(n, TYPES[t]) for n, t in s.fields],
          lambda: f"{what}: schema is {ds.schema}, defined {s.fields}")
    check(list(ds.primary_keys) == s.pks,
          lambda: f"{what}: keys {ds.primary_keys}, defined {s.pks}")
    check(sorted(ds.record_fields) == sorted(s.records),
          lambda: f"{what}: records {ds.record_fields}, defined {s.records}")
    rows = (e.rows if isinstance(e, View) else e.snaps[e.heads["main"]].rows)
    same_rows(read(ds, s, what), rows, f"{what}: rows")
    if isinstance(e, Sim):
      e.check_versions(ds, what=what + " ")
      e.check_refs(ds)

  def check_all(self):
    self.check_listing("at the end")
    for name in sorted(self.entries):
      self.check_entry("at the end", name)


class View:

  def __init__(self, source, steps, mv, schema):
    self.source, self.steps, self.mv, self.schema = source, steps, mv, schema
    self.rows = []


class NamedSim(Sim):
  """A model of a dataset that the catalog created."""

  def __init__(self, spec, ctx, layout, ds, loc):
    # pylint: disable=super-init-not-called
    self.schema = Schema(spec)
    self.ctx = ctx
    self.opts = file_options(layout)
    self.loc = loc
    self.runner = lambda d: d.local(self.opts)
    self.handles = [Handle(ds), Handle(ds)]
    self.cur = 0
    self.snaps = {0: Snap([])}
    self.heads = {"main": 0}
    self.tags = {}
    self.max_id = 0
    self.external = {}
    self.last_result = self.expect_state = None
    self.count = 0


def vg_able(schema):
  return bool(schema.spec.get("nonull"))


def adapt(view, schema):
  """A view over any schema: [kind, keep low keys only, drop other fields]."""
  kind, n = view
  k = schema.pks[0]
  t = schema.types[k]
  pred = ["cmp", "<", k, gen_cell(t, n), 0] if t != "bool" else ["valid", k]
  outs = [[x, schema.types[x], ["copy", x]] for x in schema.names]
  if kind == 0:
    return [["filter", pred, None]]
  if kind == 1:
    outs = [o for o in outs if o[0] in schema.pks]
    outs.append(["zz", "i64", ["const", n]])
    return [["map", dict(outs=outs, records=[], keep=None, dup=1), None, None]]
  return [["map", dict(outs=outs, records=list(schema.records), keep=pred,
                       dup=1), None, 3]]


def run(case, ctx):
  cwd = os.getcwd()
  try:
    sim = CatalogSim(case, ctx)
    for i, op in enumerate(case["ops"]):
      sim.step(i, op)
    sim.check_all()
    for name in UNKNOWN:
      sim._unknown("at the end", name, 0)
    sim.check_listing("after lookups")
    ctx.nontrivial(len(sim.entries) > 1 and (sim.wrote or sim.refused_dup))
  finally:
    os.chdir(cwd)


names = st.sampled_from(NAMES[:6] * 2 + NAMES)
flag = st.integers(0, 1)


@st.composite
def write(draw):
  k = st.one_of(
      st.tuples(st.just("upsert"), st.tuples(
          st.integers(0, 9), st.integers(1, 6), st.integers(1, 2)).map(list)),
      st.tuples(st.just("rows"), st.tuples(
          st.integers(100, 999), st.integers(1, 5)).map(list)),
      st.tuples(st.just("delete"), st.tuples(st.integers(0, 9)).map(list)),
      st.tuples(st.just("tag"), st.tuples(st.integers(0, 3)).map(list))
  ).map(list)
  return ["write", draw(st.integers(0, 5)),
          draw(st.lists(k, min_size=1, max_size=3)),
          draw(st.integers(0, 2))]


@st.composite
def strategy(draw, views=False):
  specs = [draw(vg.source_schemas(max_extra=2) if views or draw(st.booleans())
                else gen.schemas(max_extra=2)) for _ in range(3)]
  create = st.tuples(st.just("create"), names, st.sampled_from(specs),
                     flag).map(list)
  kinds = [create] * 5 + [write()] * 5 + [
      st.tuples(st.just("open"), st.integers(0, 5), flag).map(list),
      st.tuples(st.just("unknown"), st.sampled_from(UNKNOWN), flag).map(list),
      st.tuples(st.just("create_bad"), names, st.integers(0, 4),
                flag).map(list),
      st.tuples(st.just("stray"), names, st.integers(0, 3)).map(list),
  ]
  if views:
    kinds += [
        st.tuples(st.just("materialize"), names, st.integers(0, 5),
                  st.integers(0, 9), flag).map(list)
    ] * 3 + [
        st.tuples(st.just("refresh"), st.integers(0, 3),
                  st.integers(0, 2)).map(list)
    ] * 4
  else:
    kinds += [st.tuples(st.just("move"), st.integers(0, len(DIRS) - 1),
                        st.integers(0, 3)).map(list)]
  ops = [draw(create)] + draw(
      st.lists(st.one_of(*kinds), min_size=2, max_size=9))
  if views:
    i = draw(st.integers(1, len(ops)))
    ops[i:i] = [["materialize", draw(names), draw(st.integers(0, 5)), 0, 0],
                draw(write())]
    ops.append(["refresh", draw(st.integers(0, 3)), draw(st.integers(0, 2))])
  return dict(dir=draw(st.integers(0, len(DIRS) - 1)),
              style=draw(st.integers(0, 3)), layout=draw(gen.layouts),
              end_only=draw(st.booleans()), ops=ops,
              views=draw(st.lists(st.tuples(
                  st.integers(0, 2), st.integers(1, 8)).map(list),
                                  min_size=1, max_size=3)))


SUITES = [
    Suite("datasets", lambda tier: strategy(), run, 1500),
    Suite("views", lambda tier: strategy(views=True), run, 1000),
]
