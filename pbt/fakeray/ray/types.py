class ObjectRef:
  """Reference to a computed value (or to the error of its task)."""

  def __init__(self, value=None, error=None):
    self._value, self._error = value, error

  def __class_getitem__(cls, _):
    return cls

  def _get(self):
    if self._error is not None:
      raise self._error
    return self._value
