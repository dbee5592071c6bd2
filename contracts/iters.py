"""Sequential iterators: what they emit (C18) and save/restore (C08-C10)."""
from contracts.common import AbsIterDataset, AbsMapDataset
from grain._src.core import transforms
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import cache
from grain._src.python.dataset.transformations import flatmap
from grain._src.python.dataset.transformations import limit
from grain._src.python.dataset.transformations import mix
from grain._src.python.dataset.transformations import repeat
from grain._src.python.dataset.transformations import shuffle
from grain._src.python.dataset.transformations import zip as zip_ds
from pyvc.harness import harness


def step(it):
  """The element, the end of the stream, or a reported misuse."""
  try:
    return ("v", next(it))
  except StopIteration:
    return ("stop",)
  except ValueError:
    return ("error",)


def src(c, name="p", n="L", hi=None):
  return AbsIterDataset(c.stream(name, c.int(n, 0, hi)))


def annotate(c, inv, *its):
  """Class invariants: candidates which the engine proves before it uses them."""
  if inv is not None:
    for it in its:
      for h in inv(it):
        c.hint(h)


def checkpoint(c, ds, inv=None):
  """A state saved after any history of one iterator, restored into an iterator
  with any other history, continues identically.  Here the state goes through
  JSON, in `second_generation` it is used as it is."""
  it, jt = c.own(ds.__iter__(), ds.__iter__())
  annotate(c, inv, it, jt)
  while c.more():
    if step(it)[0] == "error":
      c.done()
  s = c.json(it.get_state())
  while c.more():
    if step(jt)[0] == "error":
      c.done()
  jt.set_state(s)
  c.cover("restored")
  c.same_state(it, jt, "same-continuation")
  while c.more():
    a = step(it)
    b = step(jt)
    c.same(a, b, "same-continuation")
    if a[0] == "error":
      c.done()
    c.same_state(it, jt, "same-continuation")


def isolated(c, ds, inv=None):
  """A saved state is a value: neither going on with the iterator which gave
  it, nor going on with one it was restored into, changes it."""
  it, jt = c.own(ds.__iter__(), ds.__iter__())
  annotate(c, inv, it, jt)
  while c.more():
    if step(it)[0] == "error":
      c.done()
  s = it.get_state()
  t = c.snap(s)
  while c.more():
    step(it)
  c.same(s, t, "saved-state-unchanged-by-saver")
  jt.set_state(s)
  while c.more():
    step(jt)
  c.cover("restored and used")
  c.same(s, t, "saved-state-unchanged-by-restored")


def second_generation(c, ds, inv=None):
  """A state saved right after a restore is as good as the original."""
  it, jt, kt = c.own(ds.__iter__(), ds.__iter__(), ds.__iter__())
  annotate(c, inv, it, jt, kt)
  while c.more():
    if step(it)[0] == "error":
      c.done()
  s = it.get_state()
  jt.set_state(s)
  t = jt.get_state()
  while c.more():
    step(kt)
  kt.set_state(t)
  c.cover("restored twice")
  c.same_state(it, kt, "same-continuation")
  while c.more():
    a = step(it)
    b = step(kt)
    c.same(a, b, "same-continuation")
    c.same_state(it, kt, "same-continuation")


# -- C08 -----------------------------------------------------------------------
@harness("C08")
def ck_map(c):
  """Save/restore of element-wise map."""
  checkpoint(c, src(c).map(c.fn("f")))


@harness("C08")
def ck_filter(c):
  """Save/restore of a filter."""
  checkpoint(c, src(c).filter(c.pred("keep")))


@harness("C08")
def ck_limit(c):
  """Save/restore of a limit."""
  checkpoint(c, limit.LimitIterDataset(src(c), c.int("lim", 1)))


@harness("C08")
def ck_map_with_index(c):
  """Save/restore of a map with index."""
  checkpoint(c, src(c).map_with_index(c.ifn("f")))


@harness("C08")
def ck_random_map(c):
  """Save/restore of a random map: the same numbers are drawn again."""
  checkpoint(c, src(c, hi=2**60).random_map(c.rngfn("f"), seed=c.int("seed", 0, 2**32 - 1)))


@harness("C08")
def ck_batch(c):
  """Save/restore of batching."""
  checkpoint(c, src(c).batch(c.int("bs", 1), drop_remainder=c.bool("drop"),
                             batch_fn=c.agg("B")))


@harness("C08")
def iso_elementwise(c):
  """Saved states of the element-wise iterators are values."""
  k = c.pick("k", ["map", "filter", "limit", "index", "batch", "random"])
  p = src(c, hi=2**60)
  if k == "map":
    ds = p.map(c.fn("f"))
  elif k == "filter":
    ds = p.filter(c.pred("keep"))
  elif k == "limit":
    ds = limit.LimitIterDataset(p, c.int("lim", 1))
  elif k == "index":
    ds = p.map_with_index(c.ifn("f"))
  elif k == "random":
    ds = p.random_map(c.rngfn("f"), seed=c.int("seed", 0, 2**32 - 1))
  else:
    ds = p.batch(c.int("bs", 1), batch_fn=c.agg("B"))
  isolated(c, ds)


# -- C09 -----------------------------------------------------------------------
class Fan(transforms.FlatMap):
  """Abstract one-to-many transform: piece(s, x) for s < cnt(x)."""
  max_fan_out = 1 << 40

  def __init__(self, c):
    self.cnt = c.intfn("cnt", 0)
    self.piece = c.ifn("piece")

  def flat_map(self, element):
    piece = self.piece
    return [piece(s, element) for s in range(self.cnt(element))]


def flat_inv(c, p, fan):
  """The buffer holds the pieces of the element at the remembered parent state
  and the parent is one past it, or the iterator is fresh or at its end."""
  def inv(it):
    def last():
      return it._last_parent_state["abs_pos"]

    def has_element():
      return it._parent.pos == last() + 1

    def fresh_or_end():
      return it._parent.pos == last()
    return [
        lambda: c.any(has_element(), fresh_or_end()),
        lambda: c.implies(fresh_or_end(), it._next_index_in_buffer >= len(it._buffer)),
        lambda: c.implies(fresh_or_end(), c.any(
            c.all(last() == 0, it._next_index_in_buffer == 0), last() == p.stream.n)),
        lambda: c.implies(has_element(), last() < p.stream.n),
        lambda: c.implies(has_element(),
                          len(it._buffer) == fan.cnt(p.stream.get(last()))),
        lambda: c.every(len(it._buffer), lambda k: c.implies(
            has_element(),
            c.at(it._buffer, k) == fan.piece(k, p.stream.get(last())))),
    ]
  return inv


@harness("C09", sym=False, bounded="native exploration of drawn streams and histories")
def ck_flatmap(c):
  """Save/restore inside a one-to-many expansion."""
  p, fan = src(c), Fan(c)
  checkpoint(c, flatmap.FlatMapIterDataset(p, fan), flat_inv(c, p, fan))


@harness("C09", sym=False, bounded="native exploration of drawn streams and histories")
def ck2_flatmap(c):
  """Save right after a restore of a one-to-many expansion."""
  p, fan = src(c), Fan(c)
  second_generation(c, flatmap.FlatMapIterDataset(p, fan), flat_inv(c, p, fan))


@harness("C09")
def ck_cache(c):
  """Save/restore of the in-memory cache."""
  checkpoint(c, cache.CacheIterDataset(src(c)))


@harness("C09")
def ck2_cache(c):
  """Save right after a restore of the in-memory cache."""
  second_generation(c, cache.CacheIterDataset(src(c)))


@harness("C09", budget=250)
def ck_cache_rewound(c):
  """Save/restore of a cache which has been rewound (as repeat() does)."""
  ds = cache.CacheIterDataset(src(c))
  it, jt = c.own(ds.__iter__(), ds.__iter__())
  start = it.get_state()
  while c.more():
    step(it)
  it.set_state(start)
  c.same(it.get_state()["position"], 0, "rewound")
  while c.more():
    step(it)
  s = c.json(it.get_state())
  while c.more():
    step(jt)
  jt.set_state(s)
  c.cover("restored")
  while c.more():
    c.same(step(it), step(jt), "same-continuation")
  it.set_state(start)
  jt.set_state(start)
  while c.more():
    c.same(step(it), step(jt), "same-after-rewinding")


@harness("C09", so=True, sym=False, bounded="native exploration of drawn streams and histories")
def ck_window_shuffle(c):
  """Save/restore inside a shuffled window."""
  w = c.int("w", 1, 2**31)
  checkpoint(c, shuffle.WindowShuffleIterDataset(
      src(c), window_size=w, seed=c.int("seed", 0, 2**20)))


@harness("C09")
def iso_flatmap(c):
  """Saved states of a one-to-many expansion are values."""
  isolated(c, flatmap.FlatMapIterDataset(src(c), Fan(c)))


@harness("C09")
def iso_cache(c):
  """Saved states of the in-memory cache are values."""
  isolated(c, cache.CacheIterDataset(src(c)))


# -- C10 -----------------------------------------------------------------------
@harness("C10", bounded="number of zipped iterators <= 3")
def ck_zip(c):
  """Save/restore of zipped iterators."""
  k = c.small("parents", 1, 3)
  checkpoint(c, zip_ds.ZipIterDataset(
      [src(c, f"p{x}", f"L{x}") for x in range(k)], strict=c.bool("strict")))


@harness("C10", bounded="2 mixed iterators, weights 1:1 or 1:2")
def ck_mix(c):
  """Save/restore of mixed iterators."""
  ps = [src(c, "pa", "La"), src(c, "pb", "Lb")]
  checkpoint(c, dataset.IterDataset.mix(ps, c.pick("w", [[1.0, 1.0], [1.0, 2.0]])))


@harness("C10", bounded="2 mixed iterators")
def ck_mix_dict(c):
  """Save/restore of iterators mixed by name."""
  ps = {"a": src(c, "pa", "La"), "b": src(c, "pb", "Lb")}
  checkpoint(c, mix.MixedIterDataset(ps, {"a": 1.0, "b": 2.0}))


@harness("C10")
def ck_repeat(c):
  """Save/restore of a repeated iterator."""
  k = c.int("k", 1) if c.bool("finite") else None
  p = AbsIterDataset(c.stream("p", c.int("L", 1)))
  checkpoint(c, repeat.RepeatIterDataset(p, k))


@harness("C10", bounded="2 parents")
def iso_multi(c):
  """Saved states of multi-parent iterators are values."""
  k = c.pick("k", ["zip", "mix", "repeat"])
  ps = [src(c, "pa", "La"), src(c, "pb", "Lb")]
  if k == "zip":
    ds = zip_ds.ZipIterDataset(ps, strict=False)
  elif k == "mix":
    ds = dataset.IterDataset.mix(ps)
  else:
    ds = repeat.RepeatIterDataset(AbsIterDataset(c.stream("p", c.int("L", 1))),
                                  c.int("n", 1))
  isolated(c, ds)
