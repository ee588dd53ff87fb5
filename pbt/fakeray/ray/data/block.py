import dataclasses
from typing import Any, Optional

import pyarrow as pa

Block = pa.Table


@dataclasses.dataclass
class BlockMetadata:
  num_rows: Optional[int]
  size_bytes: Optional[int]
  schema: Any
  input_files: Any
  exec_stats: Any
