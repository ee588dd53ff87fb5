from .datasource import Datasource, Reader, ReadTask, WriteResult  # noqa: F401
