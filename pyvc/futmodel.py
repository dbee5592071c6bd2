"""Symbolic mode: thread pools and queues of their results.

Trusted: `submit` gives a future whose result is what the call returns or
raises, whenever it is run; `done` and `cancel` may answer anything.  (The call
may be run at any time before `result` returns; the contracts use it for calls
which are functions of their arguments.)
"""
import functools
import queue
import threading

from pyvc import rt
from pyvc.engine import SymInt, Unsupported, cur, i2z


class SymFuture:
  """The call of `fn` with one integer."""

  def __init__(self, fn, arg):
    self.fn, self.arg = fn, arg

  def result(self, timeout=None):
    return self.fn(self.arg)

  def exception(self, timeout=None):
    try:
      self.fn(self.arg)
    except Exception as e:  # pylint: disable=broad-except
      return e
    return None

  def done(self):
    return cur().choose(2) == 0

  def cancel(self):
    return cur().choose(2) == 0


class SymPool:

  def __init__(self, max_workers=None, **kw):
    self.open = True

  def submit(self, fn, *args):
    if not self.open:
      raise RuntimeError("cannot schedule new futures after shutdown")
    if len(args) != 1 or not rt.is_int(args[0]):
      if not args and isinstance(fn, functools.partial) and len(fn.args) and rt.is_int(fn.args[-1]):
        return SymFuture(functools.partial(fn.func, *fn.args[:-1]), fn.args[-1])
      raise Unsupported("submitting a call without an integer")
    return SymFuture(fn, args[0])

  def shutdown(self, wait=True, *, cancel_futures=False):
    self.open = False

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.shutdown()


def same_call(f, g):
  if f is g:
    return True
  if isinstance(f, functools.partial) and isinstance(g, functools.partial):
    return (f.func is g.func and len(f.args) == len(g.args)
            and all(a is b for a, b in zip(f.args, g.args))
            and f.keywords.keys() == g.keywords.keys()
            and all(f.keywords[k] is g.keywords[k] for k in f.keywords))
  return False


class VDeque(rt.VList):
  """A deque which may be of symbolic length.  Futures of one function are held
  as the integers they were submitted with."""

  call = None

  def _in(self, v):
    if type(v) is SymFuture:
      if self.call is None or (self._s is None and not list.__len__(self)):
        if self:
          raise Unsupported("futures among other values in a deque")
        sym = self._s is not None
        self.clear()
        if sym:
          self.symbolize("int")
        self.call = v.fn
      elif not same_call(self.call, v.fn):
        raise Unsupported("futures of several functions in a deque")
      return v.arg
    if self.call is not None:
      raise Unsupported("futures among other values in a deque")
    return v

  def _out(self, v):
    return v if self.call is None else SymFuture(self.call, v)

  def append(self, v):
    rt.VList.append(self, self._in(v))

  def extend(self, it):
    if self.call is None:
      rt.VList.extend(self, it)
    else:
      for v in it:
        self.append(v)

  def popleft(self):
    try:
      return self._out(rt.VList.pop(self, 0))
    except IndexError:
      raise IndexError("pop from an empty deque") from None

  def pop(self):
    try:
      return self._out(rt.VList.pop(self))
    except IndexError:
      raise IndexError("pop from an empty deque") from None

  def appendleft(self, v):
    v = self._in(v)
    if self._s is not None:
      raise Unsupported("appendleft to a symbolic deque")
    list.insert(self, 0, v)

  def __getitem__(self, i):
    return self._out(rt.VList.__getitem__(self, i))

  def read(self, v):
    return self._out(v)

  def __iter__(self):
    return iter([self._out(v) for v in rt.VList.__iter__(self)])

  def copy(self):
    r = VDeque()
    r.call = self.call
    if self._s is None:
      list.extend(r, list.__iter__(self))
    else:
      r._s = self._s
    return r


class SymThread:
  """A thread which reads an iterator into a queue (contract of the function it
  runs: harness thread_producer).  It may have run ahead by any amount."""

  def __init__(self, target=None, args=(), kwargs=None, daemon=None, name=None, group=None):
    kw = dict(getattr(target, "keywords", None) or {})
    kw.update(kwargs or {})
    f = getattr(target, "func", target)
    if args or getattr(target, "args", ()) or getattr(f, "__name__", "") != (
        "_put_iterator_elements_in_buffer"):
      raise Unsupported("a thread which runs an unknown function")
    self.it, self.queue, self.stop = kw["iterator"], kw["buffer"], kw["should_stop"]
    self.state = "new"

  def runs(self):
    return self.state == "runs"

  def start(self):
    if self.state != "new":
      raise RuntimeError("threads can only be started once")
    self.state = "runs"
    self.it.thread = self
    if self.queue.item is not None:
      raise Unsupported("a thread continues to fill a queue")
    if self.stop.is_set():
      self.state = "over"
    else:
      self.queue.item = self.it.pos
      self.queue.source = self
    self.ahead()

  def ahead(self):
    """The iterator may be anywhere from the last element taken to the end."""
    e, it = cur(), self.it
    v = e.fresh("ahead")
    e.assume(v >= i2z(self.queue.item if self.queue.item is not None else it.pos))
    e.assume(v <= i2z(it.stream.n))
    it.pos = SymInt(v)

  def join(self, timeout=None):
    self.state = "over"

  def is_alive(self):
    return self.state == "runs"


class SymQueue:
  """Holds what its thread has put and is still to be taken: the elements of the
  iterator from `item` on; how many are there at a time is open."""

  def __init__(self, maxsize=0):
    self.item = None
    self.source = None

  def get(self, block=True, timeout=None):
    if self.item is None or not block:
      raise Unsupported("taking from a queue which nobody fills")
    it = self.source.it
    if self.item < it.stream.n:
      x = it.stream.get(self.item)
      self.item = self.item + 1
      self.source.ahead()
      return x, {"abs_pos": self.item}, None
    it.pos = it.stream.n
    self.item = None
    self.source.state = "over"
    return None, None, StopIteration()

  def get_nowait(self):
    if self.item is None:
      raise queue.Empty
    if self.source.runs() and not self.source.stop.is_set():
      # how far the thread has got is open
      if cur().choose(2):
        return self.get()
      raise queue.Empty
    # whoever empties the queue does not look at what was in it
    self.item = None
    return None, None, None


class SymEvent:

  def __init__(self):
    self.on = False

  def set(self):
    self.on = True

  def clear(self):
    self.on = False

  def is_set(self):
    return self.on


def _class(name, real, sym):
  def make(o, *a, **kw):
    if getattr(o, name, None) is real and rt.active():
      return sym(*a, **kw)
    return getattr(o, name)(*a, **kw)
  return make


m_thread = _class("Thread", threading.Thread, SymThread)
m_event = _class("Event", threading.Event, SymEvent)
m_queue = _class("Queue", queue.Queue, SymQueue)


def m_deque(o, *a, **kw):
  import collections
  if getattr(o, "deque", None) is collections.deque and rt.active() and not kw:
    r = VDeque()
    if a:
      r.extend(a[0])
    return r
  return o.deque(*a, **kw)


def m_pool(o, *a, **kw):
  from concurrent import futures
  if getattr(o, "ThreadPoolExecutor", None) is futures.ThreadPoolExecutor and rt.active():
    return SymPool(*a, **kw)
  return o.ThreadPoolExecutor(*a, **kw)


class SymJson:
  """JSON text (or its bytes) of a value which holds symbols."""

  def __init__(self, v):
    self.v = v

  def encode(self, *a):
    return self

  decode = encode

  def vc_same(self, c, b, label):
    if type(b) is not SymJson:
      c.fail(label)
    else:
      c.same(self.v, b.v, label)


def m_dumps(o, x, *a, **kw):
  import json
  if o is json and rt.active():
    from pyvc.api import jsonify
    return SymJson(jsonify(x))
  return o.dumps(x, *a, **kw)


def m_loads(o, x, *a, **kw):
  if type(x) is SymJson:
    from pyvc.api import jsonify
    return jsonify(x.v)
  return o.loads(x, *a, **kw)
