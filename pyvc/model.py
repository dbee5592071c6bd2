"""Abstract datasets and iterators: the interface contracts of the parents.

`AbsMapDataset`: `len` is n, element i is an uninterpreted function of i.
`AbsIterator`: ghost stream and position; `next` returns the element at the
position and advances, `get_state` names the position, `set_state` goes back to
it, `_set_next_index`/`_get_next_index` read and write the position.
Every concrete transformation is proved to satisfy this same contract relative
to parents which satisfy it, so a pipeline of any depth does.
"""
from __future__ import annotations

from grain._src.python.dataset import dataset


class AbsMapDataset(dataset.MapDataset):

  def __init__(self, stream, n):
    super().__init__()
    self.stream = stream
    self.n = n

  def __len__(self):
    return self.n

  def __getitem__(self, index):
    if isinstance(index, slice):
      return self.slice(index)
    return self.stream.get(index)

  def __str__(self):
    return "AbsMapDataset"


class PosMapDataset(dataset.MapDataset):
  """n elements; the element at a position is the position."""

  def __init__(self, n):
    super().__init__()
    self.n = n

  def __len__(self):
    return self.n

  def __getitem__(self, index):
    if isinstance(index, slice):
      return self.slice(index)
    return index

  def __str__(self):
    return "PosMapDataset"


class AbsIterDataset(dataset.IterDataset):

  def __init__(self, stream, set_index=True):
    super().__init__()
    self.stream = stream
    self.set_index = set_index

  def __iter__(self):
    return AbsIterator(self.stream)

  def __str__(self):
    return "AbsIterDataset"


class AbsIterator(dataset.DatasetIterator):

  def __init__(self, stream):
    super().__init__()
    self.stream = stream
    self.pos = 0

  def __next__(self):
    self._assert_not_closed()
    s = self.stream
    if s.n is not None and self.pos >= s.n:
      raise StopIteration
    v = s.get(self.pos)
    self.pos = self.pos + 1
    return v

  def get_state(self):
    return {"abs_pos": self.pos}

  def set_state(self, state):
    self.pos = state["abs_pos"]

  def _set_next_index(self, index):
    self.pos = index

  def _get_next_index(self):
    return self.pos

  def __str__(self):
    return "AbsIterator"


class ReadAhead(AbsIterDataset):
  """An iterator which a background thread may own: nobody else may use it then."""

  def __init__(self, c, stream):
    super().__init__(stream)
    self.c = c

  def __iter__(self):
    it = OwnedIterator(self.stream)
    it.c = self.c
    return it


class OwnedIterator(AbsIterator):
  thread = None

  def _free(self):
    t = self.thread
    if t is not None and t.runs():
      self.c.fail("used-while-a-thread-reads-it")

  def __next__(self):
    self._free()
    return super().__next__()

  def get_state(self):
    self._free()
    return super().get_state()

  def set_state(self, state):
    self._free()
    super().set_state(state)

  def _set_next_index(self, index):
    self._free()
    super()._set_next_index(index)

  def _get_next_index(self):
    self._free()
    return super()._get_next_index()
