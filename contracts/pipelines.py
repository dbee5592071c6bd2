"""C08-C10: nested pipelines under arbitrary histories of steps, saves and
restores (native exploration; the proofs are about one transformation each)."""
from contracts.common import AbsIterDataset, AbsMapDataset
from contracts.iters import Fan, src, step
from grain._src.python import options
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import cache
from grain._src.python.dataset.transformations import flatmap
from grain._src.python.dataset.transformations import interleave
from grain._src.python.dataset.transformations import limit
from grain._src.python.dataset.transformations import repeat
from grain._src.python.dataset.transformations import shuffle
from grain._src.python.dataset.transformations import zip as zip_ds
from pyvc.harness import harness

NATIVE = "native exploration of drawn pipelines and histories"
FIRST = 40      # elements compared; pipelines may be endless


def elementwise(c, ds, x):
  return c.pick("op", [
      lambda: ds.map(c.fn(f"f{x}")),
      lambda: ds.filter(c.pred(f"keep{x}")),
      lambda: limit.LimitIterDataset(ds, c.small("lim", 1, 9)),
      lambda: ds.map_with_index(c.ifn(f"g{x}")),
      lambda: ds.random_map(c.rngfn(f"r{x}"), seed=c.small("seed", 0, 99)),
      lambda: ds.batch(c.small("bs", 1, 3), drop_remainder=c.bool("drop"),
                       batch_fn=c.agg(f"B{x}")),
  ])()


def buffering(c, ds, x):
  return c.pick("op", [
      lambda: cache.CacheIterDataset(ds),
      lambda: flatmap.FlatMapIterDataset(ds, Fan(c)),
      lambda: shuffle.WindowShuffleIterDataset(
          ds, window_size=c.small("w", 1, 5), seed=c.small("seed", 0, 99)),
  ])()


def reader(c, name):
  n = c.int(f"L{name}", 1)
  s = c.stream(name, n)
  return AbsMapDataset(s, n).to_iter_dataset(options.ReadOptions(
      num_threads=c.small("threads", 0, 1), prefetch_buffer_size=2))


def several(c, ds, x):
  def other():
    y = src(c, f"o{x}", f"Lo{x}") if c.bool("abstract") else reader(c, f"o{x}")
    return elementwise(c, y, f"{x}o") if c.bool("transformed") else y

  def mixed():
    parents = [ds, other()]
    return dataset.IterDataset.mix(parents, c.pick("weights", [[1, 1], [1, 2], [3, 1]]))

  def woven():
    ps = [ds, other(), other()]
    return interleave.InterleaveIterDataset(
        ps, cycle_length=c.small("cycle", 1, 3), num_make_iter_threads=1,
        make_iter_buffer_size=1, iter_buffer_size=1)

  def repeated():
    k = c.pick("epochs", [1, 2, 3, None])
    if k is None:     # endless: only at the top, and only if there is an element
      if x != "z" or step(c.own(ds.__iter__()))[0] != "v":
        k = 2
    return repeat.RepeatIterDataset(ds, k)
  return c.pick("op", [
      mixed, mixed, woven,
      lambda: zip_ds.ZipIterDataset([ds, other()], strict=False),
      repeated,
  ])()


def explore(c, ds):
  """Whatever has been done before, an iterator restored to a state goes on as
  the one which saved it did, and a state stays what it was."""
  ref = c.own(ds.__iter__())
  want = []
  while len(want) < FIRST:
    a = step(ref)
    want.append(a)
    if a[0] != "v":
      break
  if want[-1][0] == "error":
    c.done()
  last = len(want) if want[-1][0] == "v" else len(want) - 1
  its = [[c.own(ds.__iter__()), 0]]
  saved = []
  for _ in range(c.small("steps", 5, 60)):
    how = c.pick("do", ["step"] * 6 + ["run", "save", "save", "restore",
                                      "restore", "new"])
    me = c.pick("who", its)
    if how in ("step", "run"):
      for _ in range(1 if how == "step" else 10):
        if me[1] == FIRST:
          break
        a = step(me[0])
        c.same(a, want[min(me[1], last)], "as-without-restoring")
        me[1] = min(me[1] + 1, last)
    elif how == "save":
      s = me[0].get_state()
      saved.append((c.json(s) if c.bool("json") else s, me[1]))
    elif how == "restore" and saved:
      s, at = c.pick("which", saved)
      me[0].set_state(s)
      me[1] = at
    elif how == "new" and len(its) < 3:
      its.append([c.own(ds.__iter__()), 0])


def grow(c, ds, kinds, last):
  for x in range(c.small("depth", 0, 3)):
    ds = c.pick("kind", kinds)(c, ds, x)
  return last(c, ds, "z")


@harness("C08", sym=False, bounded=NATIVE)
def nested_elementwise(c):
  """Nested element-wise pipelines under any history of saves and restores."""
  explore(c, grow(c, src(c), [elementwise], elementwise))


@harness("C09", so=True, sym=False, bounded=NATIVE, weight=2)
def nested_buffering(c):
  """Nested buffering pipelines under any history of saves and restores."""
  explore(c, grow(c, src(c), [elementwise, buffering, buffering], buffering))


@harness("C10", so=True, sym=False, bounded=NATIVE, weight=2)
def nested_multi(c):
  """Nested multi-source pipelines under any history of saves and restores."""
  p = src(c) if c.bool("abstract") else reader(c, "p")
  explore(c, grow(c, p, [elementwise, buffering, several, several], several))
