"""A small in-process stand-in for the part of the Ray API that google/space uses.

Ray is not installed in the sandbox.  Everything runs eagerly or lazily in the
calling process; blocks are Arrow tables.  Only documented Ray behaviour that
Space's Ray code relies on is provided, and unknown uses fail loudly.
"""
import copy
import dataclasses
import functools

from . import types  # noqa: F401
from .types import ObjectRef


def init(*_, **__):
  return None


def shutdown(*_, **__):
  return None


def is_initialized():
  return True


def put(value):
  return ObjectRef(value)


def get(refs):
  if isinstance(refs, ObjectRef):
    return refs._get()
  if isinstance(refs, (list, tuple)) and all(
      isinstance(r, ObjectRef) for r in refs):
    return [r._get() for r in refs]
  raise ValueError(f"Invalid type of object refs: {type(refs)}")


def wait(refs, num_returns=1, **_):
  return refs[:num_returns], refs[num_returns:]


def _resolve(args, kwargs):
  args = tuple(a._get() if isinstance(a, ObjectRef) else a for a in args)
  kwargs = {
      k: (v._get() if isinstance(v, ObjectRef) else v)
      for k, v in kwargs.items()
  }
  return args, kwargs


def _isolated(x):
  """Tasks run in other processes: messages and options are not shared."""
  if isinstance(x, list):
    return [_isolated(v) for v in x]
  if hasattr(x, "SerializeToString") or dataclasses.is_dataclass(x) and type(
      x).__name__.endswith("Options"):
    return copy.deepcopy(x)
  return x


def _run(fn, args, kwargs, num_returns=1):
  if num_returns != 1:
    raise NotImplementedError(f"num_returns={num_returns}")
  try:
    args, kwargs = _resolve(args, kwargs)
    args = [_isolated(a) for a in args]
    kwargs = {k: _isolated(v) for k, v in kwargs.items()}
    return ObjectRef(_isolated(fn(*args, **kwargs)))
  except Exception as e:  # the error is raised by get(), as in Ray
    return ObjectRef(None, e)


class RemoteFunction:

  def __init__(self, fn):
    self._fn, self._num_returns = fn, 1
    functools.update_wrapper(self, fn)

  def __call__(self, *_, **__):
    raise TypeError("Remote functions cannot be called directly.")

  def options(self, num_returns=1, **_):
    f = copy.copy(self)
    f._num_returns = num_returns
    return f

  def remote(self, *args, **kwargs):
    return _run(self._fn, args, kwargs, self._num_returns)


class _ActorMethod:

  def __init__(self, actor, name):
    self._actor, self._name = actor, name

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    instance = self._actor._instance
    return _run(getattr(instance, self._name), args, kwargs)


class ActorHandle:

  def __init__(self, instance):
    self._instance = instance

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    getattr(type(self._instance), name)
    return _ActorMethod(self, name)


class ActorClass:

  def __init__(self, cls):
    self._cls = cls

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    args, kwargs = _resolve(args, kwargs)
    args = [_isolated(a) for a in args]
    kwargs = {k: _isolated(v) for k, v in kwargs.items()}
    return ActorHandle(self._cls(*args, **kwargs))


def remote(*args, **options):
  if len(args) == 1 and not options and callable(args[0]):
    target = args[0]
    return ActorClass(target) if isinstance(target, type) else RemoteFunction(
        target)
  return lambda target: remote(target)


def kill(*_, **__):
  return None


from . import data  # noqa: E402,F401
