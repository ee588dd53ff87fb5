"""A reference model of a dataset, run in lockstep with the real one.

Ops (JSON lists) act through one of several handles:
  ["append", rows, mode]          ["append_from", [[rows,...],...], mode]
  ["bulk", kind, start, n, stride] kind: append | upsert | insert
  ["insert", rows, mode]  ["upsert", rows, mode]  ["delete", filter]
  ["delete_all"]
  ["tag", name, i|None] ["untag", name] ["branch", name] ["unbranch", name]
  ["fork", name] ["goto", i] ["drop", i] ["untag_any", i] (by position)
  ["switch", name]  ["use", h]  ["fresh", h]
  ["pq", [[rows, row group size, perm], ...], relative]
  ["ar", [[rows, ...], ...], relative]
"""

from dataclasses import dataclass, field
import json
import os
import tempfile

from lib import *  # noqa: F403
from lib import (Dataset, Schema, call, check, evaluate, file_options,
                 key_counter, read, refused, same_rows, to_expr, table_rows)
from engine import Violation

from space.core.jobs import JobResult

OK, FAILED, SKIPPED = (JobResult.State.SUCCEEDED, JobResult.State.FAILED,
                       JobResult.State.SKIPPED)
MAIN = "main"


@dataclass
class Snap:
  rows: list
  parent: int = None
  adds: list = field(default_factory=list)
  dels: list = field(default_factory=list)  # deleted rows


@dataclass
class Handle:
  ds: object
  branch: str = MAIN


class Sim:
  """The real dataset and its model."""

  def __init__(self, schema_spec, ctx, layout=0, handles=1, location=None,
               runner=None):
    self.schema = Schema(schema_spec)
    self.ctx = ctx
    self.opts = file_options(layout)
    self.loc = location or ctx.new_dir()
    self.runner = runner or (lambda ds: ds.local(self.opts))
    ds = call("create", Dataset.create, self.loc, self.schema.arrow(),
              self.schema.pks, self.schema.records)
    self.handles = [Handle(ds)]
    for _ in range(handles - 1):
      self.handles.append(Handle(self.load()))
    self.cur = 0
    self.snaps = {0: Snap([])}
    self.heads = {MAIN: 0}
    self.tags = {}
    self.max_id = 0
    self.external = {}  # path -> bytes
    self.last_result = None
    self.expect_state = None
    self.count = 0

  # ---------------------------------------------------------- access

  def load(self):
    return call("load", Dataset.load, self.loc)

  @property
  def handle(self):
    return self.handles[self.cur]

  @property
  def ds(self):
    return self.handle.ds

  def head_rows(self, branch=None):
    return self.snaps[self.heads[branch or self.handle.branch]].rows

  def refs(self):
    r = {b: s for b, s in self.heads.items() if b != MAIN}
    r.update(self.tags)
    return r

  def versions_of(self, ds):
    """(snapshot IDs, {tag or branch: snapshot ID}) as reported."""
    t = call("versions", ds.versions)
    ids, refs = set(), {}
    for sid, ref in call("versions", lambda: list(
        zip(t["snapshot_id"].to_pylist(), t["tag_or_branch"].to_pylist()))):
      ids.add(sid)
      if ref is not None:
        check(ref not in refs, f"versions: {ref} listed twice")
        refs[ref] = sid
    return ids, refs

  # ---------------------------------------------------------- steps

  def step(self, op):
    """Runs an op on both sides. Returns a description."""
    self.count += 1
    kind = op[0]
    self.ctx.label("op:" + (op[1] if kind == "bulk" else kind))
    what = f"step {self.count} {kind}"
    return getattr(self, "_" + kind)(what, *op[1:])

  def _write(self, what, fn, expect, rows=None, adds=(), dels=()):
    """A data operation. rows: the expected new contents."""
    branch = self.handle.branch
    if branch not in self.heads:
      return self._write_on_lost_branch(what, fn)
    r = call(what, fn)
    self.last_result, self.expect_state = r, expect
    check(isinstance(r, JobResult), lambda: f"{what}: returned {r!r}")
    check(r.state == expect,
          lambda: f"{what}: state {r.state.name}, expected {expect.name} "
          f"({(r.error_message or '')[:400]})")
    if expect == OK:
      self.commit(what, branch, rows, adds, dels)
      self.ctx.label("commits")
    else:
      self.ctx.label("outcome:" + expect.name)
      self.no_commit(what)
    return r

  def _write_on_lost_branch(self, what, fn):
    """The handle's branch was removed by another handle."""
    self.ctx.label("write_on_lost_branch")
    try:
      r = fn()
    except SPACE_ERRORS:  # noqa: F405
      r = None
    except Exception as e:
      raise Violation(f"{what} on removed branch: {type(e).__name__}: {e}")
    check(r is None or r.state == FAILED,
          f"{what}: a write on a removed branch must fail")
    self.no_commit(what)
    self.handle.ds.set_current_branch(MAIN)
    self.handle.branch = MAIN

  def commit(self, what, branch, rows, adds, dels):
    ids, _ = self.versions_of(self.load())
    new = ids - set(self.snaps)
    check(set(self.snaps) <= ids,
          lambda: f"{what}: snapshots {set(self.snaps) - ids} disappeared")
    check(len(new) == 1,
          lambda: f"{what}: expected one new snapshot, got {sorted(new)}")
    sid = new.pop()
    check(sid > self.max_id,
          f"{what}: new snapshot ID {sid} is not above {self.max_id}")
    self.max_id = sid
    self.snaps[sid] = Snap(list(rows), self.heads[branch], list(adds),
                           list(dels))
    self.heads[branch] = sid
    return sid

  def no_commit(self, what):
    ids, _ = self.versions_of(self.load())
    check(ids == set(self.snaps),
          lambda: f"{what}: committed nothing, but snapshots are "
          f"{sorted(ids)}, were {sorted(self.snaps)}")

  def run(self):
    return self.runner(self.ds)

  def arg(self, x):
    """An argument of the code under test (a hook for subclasses)."""
    return x

  # ---------------------------------------------------------- data ops

  def _append(self, what, rows, mode=0):
    new = self.schema.rows(rows)
    data = self.schema.input(rows, mode)
    self._write(what, lambda: self.run().append(data), OK if new else SKIPPED,
                self.head_or_none() + new, new)

  def head_or_none(self):
    return (list(self.head_rows())
            if self.handle.branch in self.heads else [])

  def _append_from(self, what, sources, mode=0):
    new = [r for src in sources for rows in src for r in self.schema.rows(rows)]
    tables = [[self.schema.input(rows, mode if rows else 0) for rows in src]
              for src in sources]
    fns = [(lambda src=src: iter(src)) for src in tables]
    arg = self.arg(fns[0] if len(fns) == 1 and mode % 2 else fns)
    self._write(what, lambda: self.run().append_from(arg),
                OK if new else SKIPPED, self.head_or_none() + new, new)

  def _bulk(self, what, kind, start, n, stride=1):
    getattr(self, "_" + kind)(what, self.schema.bulk(start, n, stride), 0)

  def _insert(self, what, rows, mode=0):
    new = self.schema.rows(rows)
    keys = [self.schema.key(r) for r in new]
    have = set(self.schema.key(r) for r in self.head_or_none())
    bad = len(set(keys)) < len(keys) or any(k in have for k in keys)
    data = self.schema.input(rows, mode)
    self._write(what, lambda: self.run().insert(data),
                FAILED if bad else OK if new else SKIPPED,
                self.head_or_none() + new, new)

  def _reinsert(self, what, i, rows, mode=0):
    """Inserts rows; the last one has the key of an existing row."""
    have = self.head_or_none()
    if have:
      old = sorted(have, key=repr)[i % len(have)]
      last = list(rows[-1])
      for k in self.schema.pks:
        j = self.schema.names.index(k)
        last[j] = old[j].hex() if isinstance(old[j], bytes) else old[j]
      rows = rows[:-1] + [last]
    self._insert(what, rows, mode)

  def _upsert(self, what, rows, mode=0):
    new = self.schema.rows(rows)
    keys = [self.schema.key(r) for r in new]
    bad = len(set(keys)) < len(keys)
    dels, keep, given = [], [], set(keys)
    for r in self.head_or_none():
      (dels if self.schema.key(r) in given else keep).append(r)
    if dels and not bad:
      self.ctx.label("upsert_replaces")
    data = self.schema.input(rows, mode)
    self._write(what, lambda: self.run().upsert(data),
                FAILED if bad else OK if new else SKIPPED, keep + new, new,
                dels)

  def _delete(self, what, f):
    dels, keep = [], []
    for r in self.head_or_none():
      (dels if evaluate(f, self.schema, r) is True else keep).append(r)
    if dels and keep:
      self.ctx.label("delete_some")
    elif dels:
      self.ctx.label("delete_everything")
    self._write(f"{what} {f}",
                lambda: self.run().delete(self.arg(to_expr(f, self.schema))),
                OK if dels else SKIPPED, keep, (), dels)

  def _delete_key(self, what, i):
    """Deletes the rows with the key of an existing row."""
    rows = self.head_or_none()
    if not rows:
      return
    f = None
    row = sorted(rows, key=repr)[i % len(rows)]
    for k in self.schema.pks:
      v = row[self.schema.names.index(k)]
      c = ["cmp", "==", k, v.hex() if isinstance(v, bytes) else v, 1]
      f = c if f is None else ["and", f, c]
    self._delete(what, f)

  def _delete_all(self, what):
    self._delete(what, ["valid", self.schema.pks[0]])

  # ---------------------------------------------------------- external files

  def ext_dir(self):
    return tempfile.mkdtemp(prefix="ext", dir=self.ctx.scratch)

  def _pq(self, what, files, relative=0):
    if self.schema.records:
      return self._append_from(what, [[f[0] for f in files]])
    d = self.ext_dir()
    new = []
    for i, (rows, rg, perm) in enumerate(files):
      p = os.path.join(d, f"f{i}.parquet")
      write_parquet(p, self.schema, rows, rg, perm)  # noqa: F405
      self.external[p] = open(p, "rb").read()
      new += self.schema.rows(rows)
    # Not matched by the pattern.
    with open(os.path.join(d, "other.txt"), "w") as f:
      f.write("x")
    pattern = os.path.join(d, "*.parquet")
    cwd = os.getcwd()
    if relative:
      os.chdir(self.ctx.scratch)
      pattern = os.path.relpath(pattern, self.ctx.scratch)
    self._write(what, lambda: self.run().append_parquet(pattern),
                OK if new else SKIPPED, self.head_or_none() + new, new)
    os.chdir(cwd)

  def _ar(self, what, files, relative=0):
    """Each record of an ArrayRecord file holds the JSON of its row."""
    if len(self.schema.records) != 1:
      return self._append_from(what, [files])
    from array_record.python import array_record_module as ar
    d = self.ext_dir()
    rec = self.schema.records[0]
    ri = self.schema.names.index(rec)
    new = []
    for i, rows in enumerate(files):
      p = os.path.join(d, f"f{i}.array_record")
      w = ar.ArrayRecordWriter(p, options="group_size:1")
      for r in rows:
        r = list(r)
        r[ri] = None
        b = json.dumps(r).encode()
        w.write(b)
        full = list(self.schema.row(r))
        full[ri] = b
        new.append(tuple(full))
      w.close()
      self.external[p] = open(p, "rb").read()
    pattern = os.path.join(d, "*.array_record")
    cwd = os.getcwd()
    if relative:
      os.chdir(self.ctx.scratch)
      pattern = os.path.relpath(pattern, self.ctx.scratch)
    schema = self.schema

    def index_fn(record):
      cells = json.loads(record[rec][0])
      return {
          n: decode(t, c)  # noqa: F405
          for (n, t), c in zip(schema.fields, cells) if n != rec
      }

    self._write(what,
                lambda: self.run().append_array_record(pattern, index_fn),
                OK if new else SKIPPED, self.head_or_none() + new, new)
    os.chdir(cwd)

  # ---------------------------------------------------------- references

  def _tag(self, what, name, i=None):
    if i is None:
      if self.handle.branch != MAIN:
        i = 0  # Which snapshot is tagged from another branch is not specified.
      else:
        sid = self.heads[MAIN]
        arg = None
    if i is not None:
      arg = sid = sorted(self.snaps)[i % len(self.snaps)]
    what = f"{what} {name!r} {arg}"
    if not name or name == MAIN or name in self.refs():
      refused(what, self.ds.add_tag, name, arg)
      self.ctx.label("refused")
    else:
      call(what, self.ds.add_tag, name, arg)
      self.tags[name] = sid

  def _tag_bad(self, what, name):
    refused(f"{what} of missing snapshot", self.ds.add_tag, name,
            self.max_id + 1000)

  def _untag(self, what, name):
    if name in self.tags:
      call(f"{what} {name!r}", self.ds.remove_tag, name)
      del self.tags[name]
    else:
      refused(f"{what} {name!r}", self.ds.remove_tag, name)
      self.ctx.label("refused")

  def _branch(self, what, name):
    if not name or name == MAIN or name in self.refs():
      refused(f"{what} {name!r}", self.ds.add_branch, name)
      self.ctx.label("refused")
    elif self.handle.branch == MAIN:
      call(f"{what} {name!r}", self.ds.add_branch, name)
      self.heads[name] = self.heads[MAIN]

  def _unbranch(self, what, name):
    if name != MAIN and name in self.heads and name != self.handle.branch:
      call(f"{what} {name!r}", self.ds.remove_branch, name)
      del self.heads[name]
      self.ctx.label("branch_removed")
    else:
      refused(f"{what} {name!r}", self.ds.remove_branch, name)
      self.ctx.label("refused")

  def _switch(self, what, name):
    # Switching looks the branch up in what the handle last loaded.
    call(what, self.ds.storage.reload)
    if name in self.heads:
      call(f"{what} {name!r}", self.ds.set_current_branch, name)
      self.handle.branch = name
      if name != MAIN:
        self.ctx.label("switched_to_branch")
    else:
      refused(f"{what} {name!r}", self.ds.set_current_branch, name)
      self.ctx.label("refused")

  def _fork(self, what, name):
    """Adds a branch (at the head of main) and switches to it."""
    self._switch(what, MAIN)
    self._branch(what, name)
    self._switch(what, name)

  def _goto(self, what, i):
    self._switch(what, sorted(self.heads)[i % len(self.heads)])

  def _drop(self, what, i):
    names = [b for b in sorted(self.heads) if b != MAIN]
    if names:
      self._unbranch(what, names[i % len(names)])

  def _untag_any(self, what, i):
    if self.tags:
      self._untag(what, sorted(self.tags)[i % len(self.tags)])

  def _use(self, what, h):
    self.cur = h % len(self.handles)

  def _fresh(self, what, h):
    """Replaces a handle by a newly loaded one."""
    self.handles[h % len(self.handles)] = Handle(self.load())

  # ---------------------------------------------------------- oracles

  def check_head(self, what=""):
    what = f"after step {self.count}{what}"
    if self.handle.branch in self.heads:
      same_rows(
          read(self.ds, self.schema, what), self.head_rows(),
          f"{what}: contents")

  def check_all_heads(self):
    what = f"after step {self.count}"
    for i, h in enumerate(self.handles):
      if h.branch in self.heads:
        same_rows(
            read(h.ds, self.schema, what), self.head_rows(h.branch),
            f"{what}: contents of {h.branch} through handle {i}")
    fresh = self.load()
    same_rows(
        read(fresh, self.schema, what), self.head_rows(MAIN),
        f"{what}: contents when loaded")

  def check_versions(self, ds=None, ids=None, refs=True, what=""):
    what = f"{what}after step {self.count}"
    ds = ds or self.load()
    for sid in (ids if ids is not None else self.snaps):
      same_rows(
          read(ds, self.schema, what, version=sid), self.snaps[sid].rows,
          f"{what}: snapshot {sid}")
    if refs:
      for name, sid in self.refs().items():
        same_rows(
            read(ds, self.schema, what, version=name), self.snaps[sid].rows,
            f"{what}: version {name!r}")

  def check_refs(self, ds=None):
    what = f"after step {self.count}"
    ids, refs = self.versions_of(ds or self.load())
    check(ids == set(self.snaps),
          lambda: f"{what}: snapshots are {sorted(ids)}, expected "
          f"{sorted(self.snaps)}")
    check(refs == self.refs(),
          lambda: f"{what}: references are {refs}, expected {self.refs()}")

  def check_everything(self, what=""):
    self.check_all_heads()
    self.check_versions(what=what)
    self.check_refs()

  def check_external(self):
    for p, b in self.external.items():
      check(os.path.exists(p), f"external file {p} was removed")
      check(open(p, "rb").read() == b, f"external file {p} was modified")

  def path_between(self, start, end):
    """Snapshot IDs after start up to end, or None when not an ancestor."""
    out = []
    while end != start:
      out.insert(0, end)
      end = self.snaps[end].parent
      if end is None:
        return None
    return out
