"""C13: prefetching changes nothing but the speed."""
from contracts.common import AbsIterDataset, AbsMapDataset, ReadAhead
from contracts.iters import checkpoint, isolated, step
from grain._src.python import options
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import prefetch
from pyvc.harness import harness


def sparse(c, n="n"):
  """A random-access dataset some elements of which are missing."""
  n = c.int(n, 0)
  return AbsMapDataset(c.stream("p", n), n).filter(c.pred("keep"))


def ahead(c):
  """What an iterator holds in its buffer, in terms of its positions."""
  def inv(it):
    return [
        lambda: len(it._buffer) == it._next_buffered_index - it._next_returned_index,
        lambda: it._next_buffered_index <= it._dataset_length,
        lambda: it._next_returned_index >= 0,
    ]
  return inv


def note(c, it):
  c.loose(it._buffer)
  for h in ahead(c)(it):
    c.hint(h)
  c.sequence(lambda k: it._next_buffered_index - len(it._buffer) + k)


def settings(c, x="", pool=None):
  """Any settings, or any with (without) reading ahead."""
  t, b = c.setting("threads" + x), c.setting("buffer" + x)
  if pool is not None:
    on = c.all(t > 0, b > 0)
    c.assume(on if pool else c.neg(on))
  return options.ReadOptions(num_threads=t, prefetch_buffer_size=b)


MEASURE = ("+PrefetchDatasetIterator._measure_prefetch_depth",)




class Stream:
  """The stream of the present elements, one step of an iterator at a time."""

  def __init__(self, c, pool):
    n = self.n = c.int("n", 0)
    keep = c.pred("keep")
    s = c.stream("p", n)
    ds = AbsMapDataset(s, n).filter(keep)
    it = c.own(prefetch.PrefetchIterDataset(
        ds, read_options=settings(c, pool=pool)).__iter__())
    note(c, it)
    self.c, self.s, self.it = c, s, it
    self.dropped = lambda i: c.any(c.absent(s.get(i)), c.neg(keep(s.get(i))))
    # ghost: how far the stream had been read before the current step
    self.at = 0
    c.hint(lambda: self.at <= it._next_returned_index)
    c.hint(lambda: c.every(it._next_returned_index - self.at,
                           lambda k: self.dropped(self.at + k)))

  def step(self):
    c, s = self.c, self.s
    at = self.at = self.it.get_state()["next_index"]
    a = step(self.it)
    to = self.at = self.it.get_state()["next_index"]
    if a[0] == "v":
      c.check(at < to, "reads-on")
      c.same(a, ("v", s.get(to - 1)), "element")
      c.check(c.neg(self.dropped(to - 1)), "only-kept-elements")
      to = to - 1
    else:
      c.same(a, ("stop",), "end")
      c.check(to == self.n, "end-only-at-the-end")
    c.forall(to - at, lambda k, ok: ok(self.dropped(at + k), "skips-only-others"),
             "skips-only-others")


def in_order(c, pool):
  g = Stream(c, pool)
  if c.bool("start"):
    g.it.start_prefetch()
  while c.more():
    g.step()
  c.cover("read")


@harness("C13", stubs=MEASURE, budget=300)
def prefetch_stream(c):
  """Reading ahead yields the present elements of the parent in order, whatever
  the number of threads and the size of the buffer; the state is the position."""
  in_order(c, True)


@harness("C13", stubs=MEASURE, budget=300)
def prefetch_stream_off(c):
  """The same without reading ahead."""
  in_order(c, False)


@harness("C13", stubs=MEASURE, budget=300)
def prefetch_restore(c):
  """Restoring a state goes to its position, whatever has been read ahead; the
  stream goes on from there."""
  g = Stream(c, None)
  while c.more():
    step(g.it)
    g.at = g.it.get_state()["next_index"]
  to = c.index("saved", 0, g.n + 1)
  g.at = 0
  g.it.set_state(c.json({"next_index": to}))
  c.cover("restored")
  c.check(g.it.get_state()["next_index"] == to, "state-restored")
  g.at = to
  g.step()


def resize(c, it):
  """Anything the tuning of an iterator may do to it."""
  k = c.pick("tune", ["none", "buffer", "threads", "start"])
  if k == "buffer":
    it._set_prefetch_buffer_size(c.int("newbuffer", 0, 6))
  elif k == "threads":
    it._set_num_threads(c.int("newthreads", 0, 3))
  elif k == "start":
    it.start_prefetch()


def restored(c, one, two):
  """A state saved after any history continues identically in an iterator with
  other settings and any other history."""
  n = c.int("n", 0)
  ds = AbsMapDataset(c.stream("p", n), n)
  it, jt = c.own(
      prefetch.PrefetchIterDataset(ds, read_options=settings(c, "1", one)).__iter__(),
      prefetch.PrefetchIterDataset(ds, read_options=settings(c, "2", two)).__iter__())
  note(c, it)
  note(c, jt)
  while c.more():
    step(it)
  s = c.json(it.get_state())
  while c.more():
    step(jt)
  jt.set_state(s)
  c.cover("restored")
  c.same(jt.get_state(), s, "state-kept")
  while c.more():
    a, b = step(it), step(jt)
    c.same(a, b, "same-continuation")
    c.same(it.get_state(), jt.get_state(), "same-state")


@harness("C13", sym=False, bounded="drawn datasets, settings and histories")
def ck_prefetch(c):
  """Save/restore between iterators which read ahead differently."""
  restored(c, c.pick("one", [True, False]), c.pick("two", [True, False]))


@harness("C13", sym=False, bounded="drawn datasets, settings and histories")
def ck_prefetch_tuned(c):
  """Save/restore of iterators whose settings change while they are used; reads
  may fail."""
  n = c.int("n", 0)
  bad, keep = c.pred("bad"), c.pred("keep")
  fail = c.bool("fail")

  def f(x):
    if fail and bad(x):
      raise ValueError("cannot be read")
    return x

  ds = AbsMapDataset(c.stream("p", n), n).filter(keep).map(f)
  it, jt = c.own(
      prefetch.PrefetchIterDataset(ds, read_options=settings(c, "1")).__iter__(),
      prefetch.PrefetchIterDataset(ds, read_options=settings(c, "2")).__iter__())
  while c.more():
    step(it)
    resize(c, it)
  s = c.json(it.get_state())
  while c.more():
    step(jt)
    resize(c, jt)
  jt.set_state(s)
  c.cover("restored")
  while c.more():
    a, b = step(it), step(jt)
    c.same(a, b, "same-continuation")
    if a[0] == "error":
      # whether the element which could not be read is tried again is open,
      # but the state says it
      jt.set_state(it.get_state())
    c.same(it.get_state(), jt.get_state(), "same-state")
    resize(c, it)


@harness("C13")
def prefetch_measure(c):
  """Measuring how far the buffer is filled changes nothing."""
  n = c.int("n", 0)
  ds = AbsMapDataset(c.stream("p", n), n)
  r = settings(c)
  c.assume(c.all(r.num_threads > 0, r.prefetch_buffer_size > 0))
  it = c.own(prefetch.PrefetchIterDataset(ds, read_options=r).__iter__())
  note(c, it)
  it.start_prefetch()
  a, b, held = it._next_returned_index, it._next_buffered_index, list(it._buffer)
  it._measure_prefetch_depth()
  c.cover("measured")
  c.check(c.all(it._next_returned_index == a, it._next_buffered_index == b),
          "positions-kept")
  c.same(list(it._buffer), held, "buffer-kept")


class Recorder:
  """Stands for the queue: what the producer puts must be the stream, each
  element with the state after it, and at last what ended it."""

  def __init__(self, c, p, start):
    self.c, self.s, self.pos, self.over = c, p.stream, start, False

  def put(self, item):
    c = self.c
    element, state, err = item
    c.check(not self.over, "nothing-after-the-end")
    if err is None:
      c.check(self.pos < self.s.n, "only-elements-of-the-stream")
      c.same(element, self.s.get(self.pos), "element")
      self.pos = self.pos + 1
      c.same(state, {"abs_pos": self.pos}, "state-after-the-element")
    else:
      c.check(isinstance(err, StopIteration), "what-ended-the-stream")
      c.check(self.pos == self.s.n, "end-only-at-the-end")
      self.over = True


class Flag:
  """May be set at any time by the consumer."""

  def __init__(self, c):
    self.c, self.on = c, False

  def is_set(self):
    if not self.on:
      self.on = self.c.bool("stop")
    return self.on


@harness("C13")
def thread_producer(c):
  """The background thread puts the stream in order, each element with the state
  after it, until the stream ends or it is told to stop."""
  n = c.int("n", 0)
  p = AbsIterDataset(c.stream("p", n))
  it = p.__iter__()
  start = c.index("start", 0, n + 1)
  it.set_state({"abs_pos": start})
  q, stop = Recorder(c, p, start), Flag(c)
  prefetch._put_iterator_elements_in_buffer(it, q, stop, it._stats)
  c.cover("stopped")
  c.check(q.over or stop.on, "stops-only-when-told-or-at-the-end")
  if q.over:
    c.check(c.neg(stop.on), "goes-on-until-told")


@harness("C13", budget=300)
def thread_stream(c):
  """An iterator read ahead on a thread yields its stream, its state is that
  after the last element, and any of the ways to move it move it there."""
  n = c.int("n", 0)
  p = ReadAhead(c, c.stream("p", n))
  it = c.own(prefetch.ThreadPrefetchIterDataset(
      p, prefetch_buffer_size=c.setting("buffer")).__iter__())
  at = 0
  while c.more():
    k = c.pick("op", ["next", "state", "start", "restore", "move", "where"])
    if k == "next":
      a = step(it)
      if at < n:
        c.same(a, ("v", p.stream.get(at)), "element")
        at = at + 1
      else:
        c.same(a, ("stop",), "end")
    elif k == "state":
      c.same(it.get_state(), {"abs_pos": at}, "state")
    elif k == "start":
      it.start_prefetch()
    elif k == "restore":
      at = c.fresh("to", 0, n + 1)
      it.set_state(c.json({"abs_pos": at}))
    elif k == "move":
      at = c.fresh("to", 0, n + 1)
      dataset.set_next_index(it, at)
    else:
      c.check(dataset.get_next_index(it) == at, "index")
  c.cover("used")
