"""C13: reading ahead in another process.

The two sides are proved separately: the worker against a recorder which stands
for the queues (process_producer), the consumer against a worker which does what
that contract says, at any speed (process_stream).
"""
import queue
import types

from contracts.common import AbsIterDataset
from contracts.iters import step
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import process_prefetch as pp
from pyvc.harness import harness


class Nothing:

  @staticmethod
  def enable_async_del(*a):
    pass

  @staticmethod
  def from_traceback(tb):
    return None


def same(x, **kw):
  return x


def nothing(*a, **kw):
  return None


def pickled(x):
  return Pickled(x)


class Pickled:

  def __init__(self, x):
    self.x = x


def unpickled(p):
  return p.x


class Apart:
  """Stands in for pickling, shared memory (C22: what is copied there is read
  from there), traceback copies and waiting."""

  def __init__(self, c, context=None):
    self.new = dict(
        cloudpickle=types.SimpleNamespace(dumps=pickled, loads=unpickled),
        shared_memory_array=types.SimpleNamespace(
            copy_to_shm=same, open_from_shm=same, unlink_shm=same,
            SharedMemoryArray=Nothing),
        traceback_util=types.SimpleNamespace(PicklableTraceback=Nothing),
        util=types.SimpleNamespace(Finalize=nothing),
        _PARENT_EXHAUSTED_WAIT_S=0)
    if context is not None:
      self.new["mp"] = types.SimpleNamespace(get_context=lambda m: context)

  def __enter__(self):
    self.old = {k: getattr(pp, k) for k in list(self.new) + ["_is_in_worker_process"]}
    for k, v in self.new.items():
      setattr(pp, k, v)

  def __exit__(self, *a):
    for k, v in self.old.items():
      setattr(pp, k, v)


# -- the worker ----------------------------------------------------------------
class Out:
  """What the worker puts must be its stream from the last requested position on,
  each element with the state and the index after it; then what ended it."""

  def __init__(self, c, s):
    self.c, self.s = c, s
    self.pos, self.over, self.counted = 0, False, True
    self.asked = None

  def put(self, item, timeout=None):
    c = self.c
    if c.bool("full"):
      raise queue.Full
    element, state, index, err, tb = item
    if isinstance(element, pp._SetStateIsDone):
      c.check(self.asked is not None, "done-only-when-asked")
      self.pos, self.counted = self.asked
      self.asked, self.over = None, False
      return
    c.check(self.asked is None, "done-before-the-elements")
    c.check(not self.over, "nothing-after-the-end")
    if err is None:
      c.check(self.pos < self.s.n, "only-elements-of-the-stream")
      c.same(element, self.s.get(self.pos), "element")
      self.pos = self.pos + 1
      c.same(state, {"abs_pos": self.pos}, "state-after-the-element")
      if self.counted:
        c.check(index == self.pos, "index-after-the-element")
      else:
        c.check(index is None, "index-unknown-after-a-state")
    else:
      c.check(isinstance(err, StopIteration), "what-ended-the-stream")
      c.check(self.pos == self.s.n, "end-only-at-the-end")
      self.over = True

  def get_nowait(self):
    raise queue.Empty


class Asked:
  """The consumer may ask for another position, and withdraw that, at any time
  at which it holds the lock."""

  def __init__(self, c, out):
    self.c, self.out, self.n, self.held = c, out, 0, False

  def get_lock(self):
    return self

  def __enter__(self):
    self.held = True
    self.n = 1 if self.c.bool("asked") else 0

  def __exit__(self, *a):
    self.held = False

  @property
  def value(self):
    if not self.held:
      return 1 if self.c.bool("asking") else 0
    return self.n

  @value.setter
  def value(self, v):
    self.c.check(self.held, "changed-under-the-lock")
    self.n = v

  def get(self):
    self.c.check(self.held, "taken-under-the-lock")
    self.c.check(self.n == 0, "counted-as-taken")
    to = self.c.fresh("to", 0, self.out.s.n + 1)
    counted = self.c.bool("index")
    self.out.asked = (to, counted)
    return to if counted else {"abs_pos": to}

  def get_nowait(self):
    raise queue.Empty


class Flag:
  """May be set at any time by the consumer."""

  def __init__(self, c):
    self.c, self.on = c, False

  def is_set(self):
    if not self.on:
      self.on = self.c.bool("stop")
    return self.on


@harness("C13")
def process_producer(c):
  """The worker puts its stream from the position it was last asked for, each
  element with the state and index after it, and says when it begins anew; it
  goes on until it is told to stop."""
  n = c.int("n", 0)
  p = AbsIterDataset(c.stream("p", n))
  out, stop = Out(c, p.stream), Flag(c)
  asked = Asked(c, out)
  with Apart(c):
    pp._put_dataset_elements_in_buffer(
        pickled(nothing), pickled(None), pickled(p), out, stop, asked, asked,
        None, None, None, {})
  c.cover("stopped")
  c.check(stop.on, "goes-on-until-told")


# -- the consumer -----------------------------------------------------------------
class Counter:
  """A number both sides see."""

  def __init__(self, kind, v):
    self.value = v

  def get_lock(self):
    return self

  def __enter__(self):
    pass

  def __exit__(self, *a):
    pass


class Event:

  def __init__(self):
    self.on = False

  def set(self):
    self.on = True

  def clear(self):
    self.on = False

  def is_set(self):
    return self.on


class Requests:
  """Positions asked for which the worker has not taken yet."""

  def __init__(self):
    self.to = None

  def put(self, x):
    assert self.to is None
    self.to = x

  def get_nowait(self):
    if self.to is None:
      raise queue.Empty
    x, self.to = self.to, None
    return x


class Worker:
  """A worker process which does what process_producer says, at any speed."""

  def __init__(self, c, s):
    self.c, self.s = c, s
    self.queues = 0
    self.requests = Requests()
    self.count = None
    self.runs, self.used = False, False
    self.pos, self.counted, self.over, self.dones = 0, True, False, 0

  # the multiprocessing context
  def Event(self):
    return Event()

  def Value(self, kind, v):
    self.count = Counter(kind, v)
    return self.count

  def Queue(self, maxsize=0):
    self.queues += 1
    return self.requests if self.queues == 1 else self

  def Process(self, target, kwargs, daemon, name):
    c = self.c
    c.check(target is pp._put_dataset_elements_in_buffer, "what-the-worker-runs")
    c.check(kwargs["buffer"] is self and kwargs["set_state_queue"] is self.requests
            and kwargs["set_state_request_count"] is self.count, "the-queues-of-the-worker")
    self.stop = kwargs["should_stop"]
    return self

  # the process
  exitcode = None
  pid = 1

  def start(self):
    c = self.c
    c.check(not self.runs, "one-worker-at-a-time")
    c.check(not self.used, "a-new-worker-finds-no-elements-of-an-old-one")
    c.check(not self.stop.is_set(), "not-told-to-stop")
    self.runs, self.used = True, True
    self.pos, self.counted, self.over, self.dones = 0, True, False, 0

  def is_alive(self):
    return self.runs

  def join(self, timeout=None):
    self.c.check(self.stop.is_set(), "told-to-stop")
    self.runs = False

  def kill(self):
    self.runs = False

  def take(self):
    """The worker may see a request at any time."""
    c = self.c
    if self.runs and self.count.value > 0 and c.bool("take"):
      c.check(self.count.value == 1, "requests-counted")
      self.count.value -= 1
      to = self.requests.get_nowait()
      self.counted = not isinstance(to, dict)
      self.pos = to if self.counted else to["abs_pos"]
      self.over = False
      self.dones = self.dones + 1

  # the buffer
  def get(self, timeout=None):
    c = self.c
    c.check(self.runs, "waits-for-a-worker")
    if c.bool("slow"):
      raise queue.Empty
    self.take()
    if self.dones > 0 or self.count.value > 0:
      k = c.pick("old", ["element", "error", "done"])
      if k == "element":
        return self.s.get(c.fresh("old", 0, self.s.n)), None, None, None, None
      if k == "error":
        return None, None, None, StopIteration(), None
      if self.dones == 0:
        raise queue.Empty
      self.dones = self.dones - 1
      return pp._SetStateIsDone(), None, None, None, None
    c.check(not self.over, "asks-only-while-there-is-more")
    if self.pos < self.s.n:
      i = self.pos
      self.pos = self.pos + 1
      return (self.s.get(i), {"abs_pos": self.pos},
              self.pos if self.counted else None, None, None)
    self.over = True
    return None, None, None, StopIteration(), None

  def get_nowait(self):
    if self.runs and self.c.bool("held"):
      return None, None, None, None, None
    if not self.runs:
      self.used = False
    raise queue.Empty


def used(c, ways, keep):
  n = c.int("n", 0)
  p = AbsIterDataset(c.stream("p", n))
  w = Worker(c, p.stream)
  with Apart(c, w):
    it = pp.ProcessPrefetchIterDataset(p, buffer_size=c.setting("buffer", 1)).__iter__()
    it.set_keep_workers_after_stop_iteration(keep)
    c.hint(lambda: it._set_state_count == w.dones + w.count.value)
    at = 0
    while c.more():
      k = c.pick("op", ways)
      if k == "next":
        a = step(it)
        if at < n:
          c.same(a, ("v", p.stream.get(at)), "element")
          at = at + 1
        else:
          c.same(a, ("stop",), "end")
      elif k == "state":
        c.same(it.get_state(), {"abs_pos": at}, "state")
      elif k == "start":
        it.start_prefetch()
      elif k == "restore":
        at = c.fresh("to", 0, n + 1)
        it.set_state(c.json({"abs_pos": at}))
      elif k == "move":
        at = c.fresh("to", 0, n + 1)
        dataset.set_next_index(it, at)
      else:
        c.check(dataset.get_next_index(it) == at, "index")
    c.cover("used")
    it.close()
    c.check(not w.runs, "no-worker-after-close")


@harness("C13", budget=300)
def process_restore(c):
  """An iterator read ahead by another process yields its stream, its state is
  that after the last element, and restoring a state moves it there."""
  used(c, ["next", "state", "restore"], False)


@harness("C13", budget=300)
def process_move(c):
  """The same when it is moved to an index."""
  used(c, ["next", "where", "move"], False)


@harness("C13", budget=300)
def process_restore_kept(c):
  """The same when the worker is kept at the end of the stream."""
  used(c, ["next", "state", "restore"], True)


@harness("C13", sym=False, bounded="drawn streams and histories")
def process_stream(c):
  """All of these together."""
  used(c, ["next", "state", "start", "restore", "move", "where"], c.bool("keep"))
