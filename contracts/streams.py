"""C16: what the iterator operations emit."""
from contracts.common import AbsIterDataset
from contracts.iters import Fan, src, step
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import cache
from grain._src.python.dataset.transformations import flatmap
from grain._src.python.dataset.transformations import limit
from grain._src.python.dataset.transformations import repeat
from grain._src.python.dataset.transformations import zip as zip_ds
from pyvc.harness import harness


class Ghost:
  """Ghost position in a stream."""

  def __init__(self):
    self.pos = 0


def elementwise(c, it, n, spec):
  """The stream is spec(0), ..., spec(n - 1) and then ends for good."""
  g = Ghost()
  while c.more():
    a = step(it)
    if g.pos < n:
      c.same(a, ("v", spec(g.pos)), "element")
      g.pos = g.pos + 1
    else:
      c.same(a, ("stop",), "end-persists")
  c.cover("read")


@harness("C16")
def stream_map(c):
  """map(f) yields f of every element; with an index, f of index and element."""
  p = src(c)
  get = p.stream.get
  if c.bool("index"):
    f = c.ifn("f")
    ds, spec = p.map_with_index(f), (lambda i: f(i, get(i)))
  else:
    f = c.fn("f")
    ds, spec = p.map(f), (lambda i: f(get(i)))
  it = ds.__iter__()
  g = Ghost()
  while c.more():
    a = step(it)
    if g.pos < p.stream.n:
      # None stands for an element which was filtered out
      if c.is_none(get(g.pos)):
        c.same(a, ("v", None), "filtered-out-stays")
      else:
        c.same(a, ("v", spec(g.pos)), "element")
      g.pos = g.pos + 1
    else:
      c.same(a, ("stop",), "end-persists")
  c.cover("read")


@harness("C16")
def stream_filter(c):
  """filter(keep) yields the kept elements in order."""
  p = src(c)
  keep = c.pred("keep", track=True)
  it = p.filter(keep).__iter__()
  n = p.stream.n
  while c.more():
    at = it.get_state()["abs_pos"]    # how much of the parent has been used
    a = step(it)
    to = it.get_state()["abs_pos"]
    if a[0] == "v":
      c.check(at < to, "reads-on")
      c.same(a, ("v", p.stream.get(to - 1)), "element")
      c.check(keep(p.stream.get(to - 1)), "only-kept-elements")
      to = to - 1
    else:
      c.same(a, ("stop",), "end")
      c.check(to == n, "end-only-at-the-end")
    c.forall(to - at, lambda k, ok: ok(c.neg(keep(p.stream.get(at + k))),
                                       "skips-only-others"), "skips-only-others")
  c.cover("read")


@harness("C16")
def stream_limit(c):
  """limit(k) yields the first k elements."""
  p = src(c)
  k = c.int("k", 1)
  n = c.ite(k < p.stream.n, k, p.stream.n)
  elementwise(c, limit.LimitIterDataset(p, k).__iter__(), n, p.stream.get)


@harness("C16")
def stream_batch(c):
  """batch(b) yields consecutive groups of b elements, the last one shorter or
  dropped."""
  p = src(c)
  b, drop = c.int("b", 1), c.bool("drop")
  it = p.batch(b, drop_remainder=drop, batch_fn=c.agg("B")).__iter__()
  g = Ghost()
  n = p.stream.n
  B = c.agg("B")
  while c.more():
    a = step(it)
    m = c.ite(n - g.pos < b, n - g.pos, b)
    if m == 0 or (drop and m < b):
      c.same(a, ("stop",), "end-persists")
      g.pos = n
    else:
      c.same(a, ("v", B([p.stream.get(g.pos + i) for i in range(m)])), "batch")
      g.pos = g.pos + m
  c.cover("read")


@harness("C16")
def stream_repeat(c):
  """repeat(k) yields the stream k times, repeat() forever."""
  finite = c.bool("finite")
  k = c.int("k", 1) if finite else None
  p = AbsIterDataset(c.stream("p", c.int("L", 1)))
  it = repeat.RepeatIterDataset(p, k).__iter__()
  g = Ghost()
  g.epoch = 0
  n = p.stream.n
  while c.more():
    a = step(it)
    if g.pos == n:
      g.pos = 0
      g.epoch = g.epoch + 1
    if finite and g.epoch >= k:
      c.same(a, ("stop",), "end")
      c.done()
    c.same(a, ("v", p.stream.get(g.pos)), "element")
    g.pos = g.pos + 1
  c.cover("read")


@harness("C16")
def stream_repeat_refuses(c):
  """repeat(k) with k <= 0 is an error."""
  p = src(c)
  ok = False
  try:
    repeat.RepeatIterDataset(p, c.int("k", None, 0))
  except ValueError:
    ok = True
  c.cover("called")
  c.check(ok, "refused")


@harness("C16")
def stream_flatmap(c):
  """flat_map yields the pieces of every element in order."""
  p, fan = src(c), Fan(c)
  it = flatmap.FlatMapIterDataset(p, fan).__iter__()
  cnt, get, n = fan.cnt, p.stream.get, p.stream.n
  c.track("empty", lambda x: cnt(x) <= 0)

  def inside():
    return it._parent.pos > 0
  c.hint(lambda: c.implies(inside(), len(it._buffer) == cnt(get(it._parent.pos - 1))))
  c.hint(lambda: c.every(len(it._buffer), lambda k: c.implies(
      inside(), c.at(it._buffer, k) == fan.piece(k, get(it._parent.pos - 1)))))
  c.hint(lambda: c.implies(c.neg(inside()), it._next_index_in_buffer >= len(it._buffer)))
  c.hint(lambda: it._parent.pos >= 0)
  g = Ghost()           # the next piece is piece g.k of element g.at - 1
  g.at, g.k = 0, 0

  def left():
    return g.at > 0 and g.k < cnt(get(g.at - 1))
  c.hint(lambda: it._parent.pos >= g.at)
  c.hint(lambda: g.k >= 0)
  c.hint(lambda: c.implies(it._parent.pos == g.at, it._next_index_in_buffer == g.k))
  c.hint(lambda: c.implies(it._parent.pos > g.at, it._next_index_in_buffer == 0))
  c.hint(lambda: c.implies(it._parent.pos > g.at and g.at > 0,
                           g.k >= cnt(get(g.at - 1))))
  c.hint(lambda: c.every(it._parent.pos - 1 - g.at,
                         lambda j: cnt(get(g.at + j)) <= 0))
  while c.more():
    a = step(it)
    more = left()
    to = it._parent.pos
    if more:
      c.check(to == g.at, "all-pieces-of-an-element")
      c.same(a, ("v", fan.piece(g.k, get(g.at - 1))), "piece")
      g.k = g.k + 1
    elif a[0] == "v":
      c.check(g.at < to, "reads-on")
      c.same(a, ("v", fan.piece(0, get(to - 1))), "piece")
      c.forall(to - 1 - g.at, lambda j, ok: ok(cnt(get(g.at + j)) <= 0,
                                               "skips-only-empty"), "skips-only-empty")
      g.at, g.k = to, 1
    else:
      c.same(a, ("stop",), "end")
      c.check(to == n, "end-only-at-the-end")
      c.forall(n - g.at, lambda j, ok: ok(cnt(get(g.at + j)) <= 0,
                                          "skips-only-empty"), "skips-only-empty")
      c.done()
  c.cover("read")


@harness("C16")
def stream_cache(c):
  """An in-memory cache does not change the stream."""
  p = src(c)
  elementwise(c, cache.CacheIterDataset(p).__iter__(), p.stream.n, p.stream.get)


@harness("C16", bounded="number of zipped iterators <= 3")
def stream_zip(c):
  """zip yields tuples up to the shortest stream, or reports a mismatch."""
  c.unroll(4)
  k = c.small("parents", 1, 3)
  ps = [src(c, f"p{x}", f"L{x}") for x in range(k)]
  strict = c.bool("strict")
  it = zip_ds.ZipIterDataset(ps, strict=strict).__iter__()
  m = ps[0].stream.n
  for p in ps[1:]:
    m = c.ite(p.stream.n < m, p.stream.n, m)
  g = Ghost()
  while c.more():
    a = step(it)
    if g.pos < m:
      c.same(a, ("v", tuple(p.stream.get(g.pos) for p in ps)), "tuple")
      g.pos = g.pos + 1
    else:
      even = c.all(*[p.stream.n == m for p in ps])
      if not strict or even:
        c.same(a, ("stop",), "end")
      else:
        c.same(a, ("error",), "mismatch-reported")
      c.done()
  c.cover("read")


@harness("C16", bounded="2 mixed iterators of equal weight")
def stream_mix(c):
  """Iterators mixed with equal weights take turns until one is used up."""
  ps = [src(c, "pa", "La"), src(c, "pb", "Lb")]
  it = dataset.IterDataset.mix(ps, [1.0, 1.0]).__iter__()
  g = Ghost()
  g.turn = 0
  while c.more():
    a = step(it)
    s = ps[0].stream if g.turn == 0 else ps[1].stream
    if g.pos < s.n:
      c.same(a, ("v", s.get(g.pos)), "element")
      g.pos = g.pos + g.turn
      g.turn = 1 - g.turn
    else:
      c.same(a, ("stop",), "end")
      c.done()
  c.cover("read")
