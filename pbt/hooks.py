"""Watches the code under test from outside, with sys.monitoring.

The hooks judge what the code does at its boundary (calls into other libraries,
changes of files), not how it is written: points are numbered as they occur.
"""

import os
import sys

import pyarrow as pa

import engine

SPACE_DIR = os.path.realpath(os.path.join(engine.REPO, "python/src/space"))
_TOOL = 3
_MON = sys.monitoring
_IO_MODULES = ("pyarrow._fs", "pyarrow.fs", "pyarrow.parquet", "pyarrow.dataset",
               "pyarrow._dataset", "pyarrow.feather", "pyarrow.ipc",
               "array_record", "posix", "os", "io", "_io", "shutil", "glob",
               "pathlib", "genericpath", "tempfile")


def _does_io(callee, arg0):
  """If a call goes to the file system; other library calls are in memory."""
  mod = getattr(callee, "__module__", None)
  if not isinstance(mod, str):
    mod = type(callee).__module__ or ""
  if mod.startswith("space"):
    return False
  for m in (mod, type(arg0).__module__ or ""):
    if any(m == i or m.startswith(i + ".") for i in _IO_MODULES):
      return True
  return "NativeFile" in (
      getattr(callee, "__qualname__", None) or "") or isinstance(
          arg0, pa.NativeFile)


def _space_code(code):
  f = code.co_filename
  return f.startswith(SPACE_DIR) or os.path.realpath(f).startswith(SPACE_DIR)


class _Monitor:

  def __init__(self, events):
    self.events = events
    self.on = False
    self.known = {}

  def relevant(self, code):
    r = self.known.get(code)
    if r is None:
      r = self.known[code] = _space_code(code)
    return r

  def __enter__(self):
    _MON.use_tool_id(_TOOL, "pbt")
    self.register()
    _MON.set_events(_TOOL, self.events)
    self.on = True
    return self

  def __exit__(self, *_):
    self.on = False
    _MON.set_events(_TOOL, 0)
    for e in (_MON.events.LINE, _MON.events.CALL):
      _MON.register_callback(_TOOL, e, None)
    _MON.free_tool_id(_TOOL)


class LineWatch(_Monitor):
  """Calls fn() at every line of the code under test."""

  def __init__(self, fn):
    super().__init__(_MON.events.LINE)
    self.fn = fn
    self.busy = False

  def register(self):
    _MON.restart_events()
    _MON.register_callback(_TOOL, _MON.events.LINE, self._line)

  def _line(self, code, _line_no):
    if not self.relevant(code):
      return _MON.DISABLE
    if self.on and not self.busy:
      self.busy = True
      try:
        self.fn()
      finally:
        self.busy = False
    return None


class CallWatch(_Monitor):
  """Numbers the calls that the code under test makes into I/O libraries; calls
  fn(n, frame) just before the call with number n is made. An exception raised
  by fn is raised by that call."""

  def __init__(self, fn):
    super().__init__(_MON.events.CALL)
    self.fn = fn
    self.n = 0
    self.busy = False

  def register(self):
    _MON.restart_events()
    _MON.register_callback(_TOOL, _MON.events.CALL, self._call)

  def _call(self, code, _offset, callee, arg0):
    if not self.relevant(code):
      return _MON.DISABLE
    if not self.on or self.busy:
      return None
    if not _does_io(callee, arg0):
      return None
    if isinstance(callee, type) and issubclass(callee, BaseException):
      return None
    self.busy = True
    try:
      n = self.n
      self.n += 1
      self.callee = getattr(callee, "__name__", "")
      self.fn(n, sys._getframe(1))
    finally:
      self.busy = False
    return None


# ---------------------------------------------------------------- disk states


class DiskStates:
  """The distinct states of a directory at the lines of an operation."""

  def __init__(self, location):
    self.location = location
    self.cache = {}  # (inode, mtime, size) -> bytes
    self.sig = None
    self.states = []  # [{relative path: bytes}]
    self.inodes = []  # [{relative path: inode}]
    self.dirs = []

  def capture(self):
    sig = self._sig()
    if sig == self.sig:
      return
    self.sig = sig
    files, inodes = {}, {}
    for rel, ino, mtime, size in sig[0]:
      key = (ino, mtime, size)
      p = os.path.join(self.location, rel)
      try:
        if key not in self.cache:
          with open(p, "rb") as f:
            self.cache[key] = f.read()
      except FileNotFoundError:
        continue
      files[rel] = self.cache[key]
      inodes[rel] = ino
    if not self.states or files != self.states[-1]:
      self.states.append(files)
      self.inodes.append(inodes)
      self.dirs.append(sig[1])

  def _sig(self):
    out, dirs = [], []
    stack = [""]
    while stack:
      d = stack.pop()
      dirs.append(d)
      try:
        it = os.scandir(os.path.join(self.location, d))
      except FileNotFoundError:
        dirs.pop()
        continue
      with it:
        for e in it:
          rel = os.path.join(d, e.name)
          if e.is_dir(follow_symlinks=False):
            stack.append(rel)
          else:
            try:
              s = e.stat(follow_symlinks=False)
            except FileNotFoundError:
              continue
            out.append((rel, s.st_ino, s.st_mtime_ns, s.st_size))
    return (tuple(sorted(out)), tuple(sorted(dirs)))

  def crash_states(self):
    """The captured states, and states where a write that was under way
    reached the disk in part. A file that appeared by a rename is complete."""
    out = []
    for i, files in enumerate(self.states):
      if i > 0:
        prev, pino = self.states[i - 1], self.inodes[i - 1]
        known = set(pino.values())
        for rel, data in files.items():
          ino = self.inodes[i][rel]
          if prev.get(rel) == data:
            continue
          renamed = ino in known and pino.get(rel) != ino
          if renamed or len(data) == 0:
            continue
          old = prev.get(rel)
          base = dict(prev)
          for cut in sorted({0, len(data) // 2}):
            torn = data[:cut]
            if torn != old:
              out.append((f"{i}:{rel}:{cut}", dict(base, **{rel: torn}),
                          self.dirs[i]))
      out.append((str(i), files, self.dirs[i]))
    return out


def materialize(files, dirs, location):
  os.makedirs(location, exist_ok=True)
  for d in dirs:
    os.makedirs(os.path.join(location, d), exist_ok=True)
  for rel, data in files.items():
    p = os.path.join(location, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
      f.write(data)
