"""Stand-in of ray.data: a Dataset is a lazy sequence of Arrow tables."""
import numpy as np
import pyarrow as pa

from ray.types import ObjectRef
from . import block  # noqa: F401
from . import datasource  # noqa: F401


def _check_block(b):
  if not isinstance(b, pa.Table):
    raise TypeError(f"Not a block type: {b} ({type(b)})")
  return b


def _to_numpy(table):
  result = {}
  for name, column in zip(table.column_names, table.columns):
    result[name] = column.to_numpy()
    if not result[name].flags.writeable:
      result[name] = result[name].copy()
  return result


def _from_batch(batch):
  if isinstance(batch, pa.Table):
    return batch
  if not isinstance(batch, dict):
    raise ValueError(f"Error validating batch type: {type(batch)}")
  sizes = {len(v) for v in batch.values()}
  if len(sizes) > 1:
    raise ValueError("Batch columns have different lengths")
  return pa.table({
      k: pa.array(v.tolist() if isinstance(v, np.ndarray) and v.dtype == object
                  else v) for k, v in batch.items()
  })


class Dataset:

  def __init__(self, blocks_fn):
    self._blocks_fn = blocks_fn

  def _blocks(self):
    for b in self._blocks_fn():
      yield _check_block(b)

  def _rebatched(self, batch_size):
    """Batches of exactly `batch_size` rows (the last may be smaller)."""
    blocks = [b for b in self._blocks() if b.num_rows > 0]
    if not blocks:
      return
    table = pa.concat_tables(blocks)
    for i in range(0, table.num_rows, batch_size):
      yield table.slice(i, batch_size)

  def map_batches(self, fn, *, batch_size="default", batch_format="default",
                  **kwargs):
    if kwargs or batch_format not in ("default", "numpy"):
      raise NotImplementedError(f"map_batches {kwargs} {batch_format}")
    # With the default size, batches do not cross the blocks of read tasks.
    size = None if batch_size == "default" else batch_size

    def blocks():
      source = (self._rebatched(size) if size is not None else
                (b for b in self._blocks() if b.num_rows > 0))
      for b in source:
        out = fn(_to_numpy(b))
        if hasattr(out, "__next__"):
          for o in out:
            yield _from_batch(o)
        else:
          yield _from_batch(out)

    return Dataset(blocks)

  def filter(self, fn, **kwargs):
    if kwargs:
      raise NotImplementedError(f"filter {kwargs}")

    def blocks():
      for b in self._blocks():
        if b.num_rows == 0:
          continue
        keep = [bool(fn(row)) for row in b.to_pylist()]
        yield b.filter(pa.array(keep, pa.bool_()))

    return Dataset(blocks)

  def select_columns(self, cols, **_):

    def blocks():
      for b in self._blocks():
        if b.num_rows == 0 and not set(cols).issubset(b.column_names):
          continue
        yield b.select(cols)

    return Dataset(blocks)

  def repartition(self, num_blocks, **_):

    def blocks():
      tables = [b for b in self._blocks() if b.num_rows > 0]
      if not tables:
        return
      table = pa.concat_tables(tables).combine_chunks()
      n = table.num_rows
      for i in range(num_blocks):
        start, end = i * n // num_blocks, (i + 1) * n // num_blocks
        yield table.slice(start, end - start)

    return Dataset(blocks)

  def count(self):
    return sum(b.num_rows for b in self._blocks())

  def iter_batches(self, *, batch_size=256, batch_format="default",
                   drop_last=False, **kwargs):
    if kwargs or batch_format != "pyarrow" or drop_last:
      raise NotImplementedError("iter_batches arguments")
    if batch_size is None:
      for b in self._blocks():
        if b.num_rows > 0:
          yield b
    else:
      yield from self._rebatched(batch_size)

  def take_all(self):
    return [row for b in self._blocks() for row in b.to_pylist()]

  def materialize(self):
    blocks = list(self._blocks())
    return Dataset(lambda: blocks)


def read_datasource(source, *, parallelism=-1, ray_remote_args=None,
                    **read_args):
  reader = source.create_reader(**read_args)
  tasks = reader.get_read_tasks(parallelism)

  def blocks():
    for t in tasks:
      yield from t()

  return Dataset(blocks)


def from_arrow_refs(refs):
  if isinstance(refs, ObjectRef):
    refs = [refs]
  # Ray computes the metadata of every block eagerly.
  tables = [_check_block(r._get()) for r in refs]
  return Dataset(lambda: tables)


def from_arrow(tables):
  if isinstance(tables, pa.Table):
    tables = [tables]
  return Dataset(lambda: tables)
