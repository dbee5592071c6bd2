"""Building blocks shared by the harnesses."""
from pyvc.model import AbsIterDataset, AbsIterator, AbsMapDataset, PosMapDataset, ReadAhead  # noqa: F401


def step(it):
  try:
    return ("v", next(it))
  except StopIteration:
    return ("stop",)


def outcome(f):
  """("v", value) or ("raise", exception type name)."""
  try:
    return ("v", f())
  except Exception as e:  # pylint: disable=broad-except
    return ("raise", type(e).__name__)
