"""C12: loading external files equals appending their rows."""

import glob
import json
import os

from hypothesis import strategies as st
import pyarrow.parquet as pq

from engine import Suite
import gen
from lib import (check, decode, evaluate, same_rows,
                 to_expr, read)
import opsgen
from sim import FAILED, OK, SKIPPED, Sim
from checks.c05 import check_diff

from array_record.python import array_record_module as ar

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "A case is a history that loads generated sets of Parquet or ArrayRecord "
    "files (number, sizes, row groups, column order, encodings, with and without "
    "statistics, empty files, sub-directories, files that do not match, absolute "
    "and relative patterns, loaded again later) between appends, upserts and "
    "deletes, against the model of appending the rows of the matched files. "
    "Checked after every operation: contents; at the end: filtered and projected "
    "reads, every version, the diff of every snapshot, and that the external "
    "directories hold the same files with the same bytes. large_*: several files "
    "of hundreds of rows or one of more than 2**16. Loads that match an "
    "unreadable file or whose index function fails must change nothing. "
    "Non-trivial: rows of a loaded file were deleted or replaced.")
ASSUMPTIONS = [
    "external Parquet files have the dataset's fields and types",
    "ArrayRecord files are loaded into datasets with one record field "
    "(required by the loader)",
]

PQ_OPTIONS = [
    {}, dict(compression="gzip"), dict(compression="none", use_dictionary=False),
    dict(write_statistics=False), dict(version="1.0"),
    dict(data_page_version="2.0"), dict(data_page_size=16), dict(
        store_schema=False)
]


class ExtSim(Sim):

  def __init__(self, *a, **kw):
    super().__init__(*a, **kw)
    self.loads = []  # (kind, pattern, rows, base for relative patterns)
    self.ext_dirs = []
    self.touched = False

  # ["load", files, style]; a file: [rows, row group size, column order,
  # options, sub-directory]
  def _load(self, what, files, style):
    d = self.ext_dir()
    self.ext_dirs.append(d)
    ext = "array_record" if self.schema.records else "parquet"
    deep = style["deep"]
    new = []
    count = {}
    for f in files:
      sub = os.path.join(d, f"s{f[4]} é") if deep else d
      # Files of different directories have the same names.
      i = count[sub] = count.get(sub, -1) + 1
      os.makedirs(sub, exist_ok=True)
      p = os.path.join(sub, f"f{i}.{ext}")
      new += self.write_file(p, f)
      self.external[p] = open(p, "rb").read()
    # Not matched.
    for n in ("g0." + ext, "f0." + ext + ".bak", "f0.txt"):
      p = os.path.join(d, n)
      if n.startswith("g0"):
        self.write_file(p, [[self.schema.gen_row(3)], 1, 0, 0, 0])
      else:
        open(p, "w").write("not data")
      self.external[p] = open(p, "rb").read()
    if style["bad"]:
      p = os.path.join(d, "s0 é" if deep else "", f"f9.{ext}")
      os.makedirs(os.path.dirname(p), exist_ok=True)
      open(p, "w").write("not data" * style["bad"])
      self.external[p] = open(p, "rb").read()
    name = ["f*.", "f?.", "f[0-9]."][style["glob"]] + ext
    if len(files) == 1 and not style["bad"] and style["glob"] == 2:
      name = "f0." + ext
    pattern = os.path.join(glob.escape(d), "s*" if deep else "", name)
    matched = sorted(glob.glob(pattern))
    want = len(files) + bool(style["bad"])
    assert len(matched) == want, (matched, want)
    if style["relative"]:
      pattern = os.path.relpath(pattern, self.ctx.scratch)
    self.loads.append((pattern, new, style))
    self.load_pattern(what, pattern, new, style)

  def write_file(self, p, f):
    rows, rg, perm, opt, _ = f
    if not self.schema.records:
      t = self.schema.table(rows, perm=perm)
      pq.write_table(t, p, row_group_size=rg, **PQ_OPTIONS[opt])
      return self.schema.rows(rows)
    rec = self.schema.records[0]
    ri = self.schema.names.index(rec)
    w = ar.ArrayRecordWriter(p, options=f"group_size:{rg}")
    out = []
    for r in rows:
      r = list(r)
      r[ri] = None
      b = json.dumps(r).encode()
      w.write(b)
      full = list(self.schema.row(r))
      full[ri] = b
      out.append(tuple(full))
    w.close()
    return out

  def load_pattern(self, what, pattern, new, style):
    schema = self.schema
    count = [0]

    def index_fn(record):
      rec = schema.records[0]
      count[0] += 1
      if style["fail"] == count[0]:
        raise ValueError("index function")
      cells = json.loads(record[rec][0])
      return {
          n: decode(t, c)
          for (n, t), c in zip(schema.fields, cells) if n != rec
      }

    def fn():
      if style["relative"]:
        os.chdir(self.ctx.scratch)
      try:
        if schema.records:
          return self.run().append_array_record(pattern, index_fn)
        return self.run().append_parquet(pattern)
      finally:
        os.chdir("/")

    bad = style["bad"] or (schema.records and 0 < style["fail"] <= len(new))
    if bad:
      self.ctx.label("bad_load")
      try:
        r = fn()
      except Exception:  # An error of the libraries that read the files.
        r = None
      check(r is None or r.state == FAILED,
            lambda: f"{what}: of an unreadable file returned {r}")
      self.no_commit(what)
      self.check_head(" (failed load)")
      return
    self.ctx.label("loaded_empty" if not new else "loaded")
    self._write(what, fn, OK if new else SKIPPED, self.head_or_none() + new,
                new)

  def _again(self, what, i):
    if self.loads:
      self.load_pattern(what, *self.loads[i % len(self.loads)])

  def check_external(self):
    super().check_external()
    for d in self.ext_dirs:
      for base, _, files in os.walk(d):
        for f in files:
          p = os.path.join(base, f)
          check(p in self.external, f"a file {p} was made in the directory "
                "of the external files")


def run(case, ctx):
  sim = ExtSim(case["schema"], ctx, case["layout"])
  schema = sim.schema
  loaded = False
  for op in case["ops"]:
    before = sim.max_id
    sim.step(op)
    sim.check_head()
    if sim.max_id != before:
      loaded |= op[0] in ("load", "again")
      ctx.nontrivial(loaded and sim.snaps[sim.max_id].dels)
  ds = sim.load()
  for f, fields in case["reads"]:
    names = [schema.names[i % len(schema.names)] for i in fields]
    names = list(dict.fromkeys(names)) or None
    idx = [schema.names.index(n) for n in names or schema.names]
    rows = [r for r in sim.head_rows() if evaluate(f, schema, r) is True]
    same_rows(
        read(ds, schema, f"read {f}", filter_=to_expr(f, schema),
             fields=names), [tuple(r[i] for i in idx) for r in rows],
        f"read {f} of {names}")
  sim.check_versions(ds)
  for sid in sorted(sim.snaps)[1:]:
    check_diff(sim, "final", ds.local(), sim.snaps[sid].parent, sid)
  sim.check_external()


def run_large(case, ctx):
  """External files of many rows."""
  sim = ExtSim(case["schema"], ctx, 0)
  schema = sim.schema
  style = dict(deep=case["deep"], relative=False, glob=0, bad=0, fail=0)
  files = [[schema.bulk(a, n, s), rg, perm, 0, i % 2]
           for i, (a, n, s, rg, perm) in enumerate(case["files"])]
  sim.step(["load", files, style])
  for op in case["ops"]:
    sim.step(op)
  fields = None
  for ds in (sim.ds, sim.load()):
    same_rows(read(ds, schema, "read", batch_size=6000), sim.head_rows(),
              "contents")
  for sid in sorted(sim.snaps)[1:]:
    same_rows(read(ds, schema, "read", batch_size=6000, version=sid),
              sim.snaps[sid].rows, f"version {sid}")
  for f in case["reads"]:
    same_rows(
        read(ds, schema, f"read {f}", filter_=to_expr(f, schema),
             fields=fields, batch_size=6000),
        [r for r in sim.head_rows() if evaluate(f, schema, r) is True],
        f"read {f}")
  sim.check_external()
  ctx.nontrivial(len(sim.snaps) > 2)


@st.composite
def large(draw, records):
  """Several files of hundreds of rows, or one of more than 2**16."""
  p = draw(opsgen.large(bool(records), 2))
  if records:
    # As for all loads, the index function gets the other fields from a record.
    p["schema"].pop("nonull", None)
  if draw(st.integers(0, 2)) == 0:
    _, _, a, n, _ = max((o for o in p["ops"] if o[1] == "append"),
                        key=lambda o: o[3])
    files = [[a, n, 1, draw(st.sampled_from([1 << 20, 1 << 16, 5000])), 0]]
    files.append([a + n, 3, 1, 2, 1])
    if draw(st.booleans()):
      files.reverse()
  else:
    files = draw(
        st.lists(
            st.tuples(st.integers(-50, 1300), st.integers(60, 700),
                      st.integers(1, 2), st.sampled_from([1 << 20, 100, 64, 7]),
                      st.integers(0, 2)).map(list), min_size=2, max_size=4))
    a, n = files[0][:2]
  at = st.builds(lambda f, e, d: f[0] + e * f[1] * f[2] // 4 + d,
                 st.sampled_from(files), st.integers(0, 4), st.integers(-3, 3))
  window = st.builds(
      lambda k, m: ["and", ["cmp", ">=", "k", k, 0], ["cmp", "<", "k", k + m, 0]
                   ], at, st.integers(1, 300))
  one = st.one_of(
      window.map(lambda f: ["delete", f]), window.map(lambda f: ["delete", f]),
      st.builds(lambda k, m: ["bulk", "append", k, m, 1], at,
                st.integers(1, 40)))
  return dict(schema=p["schema"], files=files, deep=draw(st.booleans()),
              ops=draw(st.lists(one, min_size=1, max_size=3)),
              reads=draw(st.lists(window, max_size=2)))


@st.composite
def strategy(draw, records):
  spec = draw(
      gen.schemas(records=(records, records), max_extra=3,
                  **(dict(index_types=["i64", "str", "f64"]) if records else {})))
  n_files = st.integers(0, 9).flatmap(
      lambda i: st.lists(file_, min_size=int(i > 0), max_size=4))
  file_ = st.tuples(gen.rows(spec, 6, wide=draw(st.booleans())),
                    st.integers(1, 4), st.integers(0, 4),
                    st.integers(0, len(PQ_OPTIONS) - 1),
                    st.integers(0, 1)).map(list)
  odd = lambda s: st.integers(0, 11).flatmap(
      lambda i: s if i == 0 else st.just(0))
  style = st.fixed_dictionaries(
      dict(deep=st.booleans(), relative=st.booleans(), glob=st.integers(0, 2),
           bad=odd(st.integers(1, 9)), fail=odd(st.integers(1, 6))))
  load = st.tuples(st.just("load"), n_files, style).map(list)
  w = dict(append=2, upsert=4, delete=5, delete_key=4, delete_all=1, insert=1,
           bulk=1)

  def one(i):
    if i < 4:
      return load
    if i == 4:
      return st.tuples(st.just("again"), st.integers(0, 3)).map(list)
    return opsgen.data_op(spec, w, 5)

  ops = [draw(load)]
  for _ in range(draw(st.integers(1, 7))):
    ops.append(draw(st.integers(0, 10).flatmap(one)))
  reads = draw(
      st.lists(
          st.tuples(gen.filters(spec), st.lists(st.integers(0, 6),
                                                max_size=3)).map(list),
          max_size=4))
  return dict(schema=spec, layout=draw(gen.layouts), ops=ops, reads=reads)


SUITES = [
    Suite("parquet", lambda tier: strategy(0), run, 1000),
    Suite("array_record", lambda tier: strategy(1), run, 700),
    Suite("large_parquet", lambda tier: large(0), run_large, 64),
    Suite("large_array_record", lambda tier: large(1), run_large, 64),
]
