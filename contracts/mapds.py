"""C03, C06, C07: random-access transformations."""
import sys

from pyvc.harness import harness
from contracts.common import AbsMapDataset
from grain._src.python import options
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import batch
from grain._src.python.dataset.transformations import flatmap
from grain._src.python.dataset.transformations import mix
from grain._src.python.dataset.transformations import repeat
from grain._src.python.dataset.transformations import slice as slice_ds
from grain._src.python.dataset.transformations import source
from grain._src.python.dataset.transformations import zip as zip_ds


def parent(c, name="p", lo=1):
  return AbsMapDataset(c.stream(name), c.int("n_" + name, lo))


class AbsSource:
  """A random-access data source of n opaque records."""

  def __init__(self, stream, n):
    self.stream, self.n = stream, n

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    if i < 0 or i >= self.n:
      raise IndexError("read outside of the source")
    return self.stream.get(i)


class BatchSource(AbsSource):

  def _getitems(self, indices):
    return [self[i] for i in indices]


def opt_int(c, name):
  return c.int(name) if c.bool("has_" + name) else None


# -- C03 ---------------------------------------------------------------------
@harness("C03")
def slice_elements(c):
  """ds[a:b:s] holds exactly the positions Python slicing selects, and further
  epochs read the parent's further epochs."""
  p = parent(c)
  a, b, s = opt_int(c, "a"), opt_int(c, "b"), opt_int(c, "s")
  if s is not None:
    c.assume(s != 0)
  ds = p[slice(a, b, s)]
  sel = range(*slice(a, b, s).indices(p.n))
  m = len(ds)
  c.cover("sliced")
  c.check(m == len(sel), "length")
  if m > 0:
    j = c.index("j", None)
    e, o = j // m, j % m
    c.same(ds[j], p.stream.get(sel[o] + e * p.n), "element")


@harness("C03")
def slice_of_slice(c):
  """Slices compose: (ds[k:])[::2] reads ds at k, k + 2, ..."""
  p = parent(c)
  k = c.int("k", 0)
  c.assume(k < p.n)
  ds = p[k:][::2]
  m = len(ds)
  c.cover("sliced twice")
  c.check(m == (p.n - k + 1) // 2, "length")
  j = c.index("j", 0, m)
  c.same(ds[j], p.stream.get(k + 2 * j), "element")


@harness("C03")
def shard_by_slicing(c):
  """ds[i::k] for i < k: every position is read by exactly one shard."""
  p = parent(c)
  k = c.int("k", 1)
  x = c.index("x", 0, p.n)
  i = x % k
  ds = p[i::k]
  c.cover("sharded")
  c.check(x // k < len(ds), "position-is-reached")
  c.same(ds[x // k], p.stream.get(x), "element")
  i2 = c.index("i2", 0, k)
  j2 = c.index("j2", 0, None)
  ds2 = p[i2::k]
  if j2 < len(ds2):
    c.same(ds2[j2], p.stream.get(i2 + j2 * k), "element-of-other-shard")


@harness("C03")
def reindex_elements(c):
  """Reindexing reads the parent at the given indices, epoch by epoch."""
  p = parent(c)
  m = c.int("m", 1)
  idx = c.intlist("idx", m, 0, p.n)
  ds = slice_ds.ReindexMapDataset(p, idx)
  c.cover("reindexed")
  c.check(len(ds) == m, "length")
  j = c.index("j", None)
  c.same(ds[j], p.stream.get(idx[j % m] + (j // m) * p.n), "element")


@harness("C03")
def repeat_elements(c):
  """repeat: length epochs * n; element j is the parent's element j (or j mod n
  without reseeding)."""
  p = parent(c, lo=0)
  c.assume(p.n < 2**40)
  k = c.int("k", 1)
  reseed = c.bool("reseed")
  ds = p.repeat(k, reseed_each_epoch=reseed)
  c.cover("repeated")
  c.check(len(ds) == k * p.n, "length")
  if p.n > 0:
    j = c.index("j", None)
    c.same(ds[j], p.stream.get(j if reseed else j % p.n), "element")


@harness("C03")
def repeat_forever(c):
  """repeat(): endless unless the parent is empty."""
  p = parent(c, lo=0)
  c.assume(p.n < 2**40)
  ds = p.repeat()
  c.cover("repeated")
  c.check(len(ds) == (0 if p.n == 0 else sys.maxsize), "length")
  if p.n > 0:
    j = c.index("j", None)
    c.same(ds[j], p.stream.get(j), "element")
    ok = False
    try:
      ds.repeat(2)
    except ValueError:
      ok = True
    c.check(ok, "repeating-an-infinite-dataset-is-refused")


@harness("C03")
def repeat_refuses_nonpositive(c):
  """repeat(k) with k <= 0 is an error, never an empty or endless dataset."""
  p = parent(c)
  c.assume(p.n < 2**40)
  k = c.int("k", None, 0)
  ok = False
  try:
    p.repeat(k)
  except ValueError:
    ok = True
  c.cover("called")
  c.check(ok, "refused")


@harness("C03")
def range_elements(c):
  """range: the elements of Python's range, cyclically."""
  a, b, s = c.int("a"), opt_int(c, "b"), c.int("s")
  c.assume(s != 0)
  ds = dataset.MapDataset.range(a, b, s)
  r = range(a, b, s) if b is not None else range(0, a, s)
  m = len(ds)
  c.cover("range")
  c.check(m == len(r), "length")
  if m > 0:
    j = c.index("j", None)
    c.same(int(ds[j]), r[j % m], "element")


@harness("C03")
def source_elements(c):
  """source: reads stay inside the source; indices wrap around."""
  n = c.int("n", 1)
  st = c.stream("rec")
  ds = dataset.MapDataset.source(AbsSource(st, n))
  c.cover("source")
  c.check(len(ds) == n, "length")
  j = c.index("j", None)
  c.same(ds[j], st.get(j % n), "element")


@harness("C03", bounded="number of concatenated datasets <= 4 (lengths, indices and contents unbounded)")
def concat_elements(c):
  """concatenate: element i of epoch e is the element of the dataset whose
  cumulative length range contains i, at the same epoch."""
  k = c.small("parents", 1, 4)
  ps = [parent(c, f"p{x}", lo=0) for x in range(k)]
  for p in ps:
    c.assume(p.n < 2**50)
  total = sum(p.n for p in ps)
  ds = dataset.MapDataset.concatenate(ps)
  c.cover("concatenated")
  c.check(len(ds) == total, "length")
  if total > 0:
    j = c.index("j", None)
    e, o = j // total, j % total
    got = ds[j]
    for p in ps:
      if o < p.n:
        c.same(got, p.stream.get(o + e * p.n), "element")
        return
      o = o - p.n
    c.fail("no dataset holds the position")


@harness("C03", bounded="number of zipped datasets <= 4")
def zip_elements(c):
  """zip: tuple of the parents' elements; unequal lengths are refused."""
  k = c.small("parents", 1, 4)
  ps = [parent(c, f"p{x}", lo=0) for x in range(k)]
  equal = all(p.n == ps[0].n for p in ps)
  try:
    ds = zip_ds.ZipMapDataset(ps)
  except ValueError:
    c.check(not equal, "refused-only-if-unequal")
    return
  c.cover("zipped")
  c.check(equal, "unequal-lengths-refused")
  c.check(len(ds) == ps[0].n, "length")
  j = c.index("j", None)
  c.same(ds[j], tuple(p.stream.get(j) for p in ps), "element")


@harness("C03")
def batch_map_elements(c):
  """MapDataset.batch: batch i of epoch e holds parent elements
  [i * b, min((i + 1) * b, n)) of epoch e, in order; only the last may be short."""
  p = parent(c)
  b = c.int("b", 1)
  drop = c.bool("drop")
  ds = p.batch(b, drop_remainder=drop, batch_fn=c.agg("B"))
  m = len(ds)
  n = p.n
  c.cover("batched")
  c.check(m == (n // b if drop else (n + b - 1) // b), "length")
  if m > 0:
    j = c.index("j", None)
    e, o = j // m, j % m
    got = ds[j]
    start = o * b
    stop = min(n, start + b)
    if drop:
      c.check(stop - start == b, "full-batch")
    c.check(stop > start, "nonempty-batch")
    c.same(got, c.agg("B")([p.stream.get(x + e * n) for x in range(start, stop)]), "batch")


@harness("C03", sym=False)
def lengths_of_huge_datasets(c):
  """Lengths stay exact beyond the precision of floating point numbers."""
  n = c.int("n", 1, big=True)
  b = c.int("b", 1, 40)
  p = dataset.MapDataset.range(n)
  c.check(len(p.batch(b)) == -(-n // b), "batch-length", f"{n} {b}")
  c.check(len(p.batch(b, drop_remainder=True)) == n // b, "batch-length-drop")
  c.check(len(p[::b]) == -(-n // b), "slice-length")
  m = n
  inf = dataset.MapDataset.range(7).repeat()
  c.check(len(inf.batch(b)) == -(-sys.maxsize // b), "batch-of-endless-length")
  from grain._src.python import data_sources
  st = c.int("st", 1, 9)
  src = data_sources.RangeDataSource(0, m, st)
  c.check(len(src) == len(range(0, m, st)), "range-source-length", f"{m} {st}")


@harness("C03", bounded="fan-out <= 3")
def flatmap_map_elements(c):
  """Random-access flat map: slot s of parent element i is the s-th split, or
  nothing when there are fewer splits."""
  from grain._src.core import transforms
  p = parent(c)
  c.assume(p.n < 2**40)
  fan = c.small("fan", 1, 3)
  cnt = c.intfn("cnt", 0, fan)
  piece = c.ifn("piece")

  class FM(transforms.FlatMap):
    max_fan_out = fan

    def flat_map(self, element):
      return [piece(s, element) for s in range(int(cnt(element)))]

  ds = flatmap.FlatMapMapDataset(p, FM())
  c.cover("flat map")
  c.check(len(ds) == fan * p.n, "length")
  j = c.index("j", None)
  src = p.stream.get(j // fan)
  got = ds[j]
  if c.is_none(src):
    c.same(got, None, "missing-stays-missing")
  elif j % fan < cnt(src):
    c.same(got, piece(j % fan, src), "split")
  else:
    c.same(got, None, "padding")


@harness("C03")
def range_source_elements(c):
  """RangeDataSource: the elements of Python's range; reads outside refused."""
  from grain._src.python import data_sources
  a, b, s = c.int("a"), c.int("b"), c.int("s")
  c.assume(s != 0)
  r = range(a, b, s)
  c.assume(c.any(len(r) > 0, a == b))
  ds = data_sources.RangeDataSource(a, b, s)
  c.cover("range source")
  c.check(len(ds) == len(r), "length")
  j = c.index("j", None)
  try:
    got = ds[j]
  except IndexError:
    c.check(c.any(j < 0, j >= len(r)), "refused-only-outside")
    return
  c.check(c.all(j >= 0, j < len(r)), "outside-refused")
  c.same(got, a + j * s, "element")


# -- C06 ---------------------------------------------------------------------
def pointwise(c, ds, lo=None, hi=None, max_len=None):
  m = c.int("m", 0) if max_len is None else c.small("m", 0, max_len)
  idx = c.intlist("idx", m, lo, hi)
  got = ds._getitems(idx)
  c.cover("batched read")
  c.check(len(got) == m, "one-result-per-index")
  c.forall(m, lambda k, ok: c.same(got[k], ds[idx[k]], "same-as-single-read"),
           "same-as-single-read")


@harness("C06")
def getitems_slice(c):
  """Batched reads of a slice."""
  p = parent(c)
  ds = p[opt_int(c, "a"):opt_int(c, "b"):c.pick("s", [1, 2, -1])]
  c.assume(len(ds) > 0)
  pointwise(c, ds)


@harness("C06")
def getitems_reindex(c):
  """Batched reads of a reindexed dataset."""
  p = parent(c)
  q = c.int("q", 1)
  pointwise(c, slice_ds.ReindexMapDataset(p, c.intlist("re", q, 0, p.n)))


@harness("C06")
def getitems_repeat(c):
  """Batched reads of a repeated dataset, with and without reseeding."""
  p = parent(c)
  c.assume(p.n < 2**40)
  pointwise(c, p.repeat(c.int("k", 1), reseed_each_epoch=c.bool("reseed")))


@harness("C06")
def getitems_source(c):
  """Batched reads of a source, with and without native batched reads."""
  n = c.int("n", 1)
  cls = c.pick("cls", [AbsSource, BatchSource])
  pointwise(c, dataset.MapDataset.source(cls(c.stream("rec"), n)))


@harness("C06")
def getitems_map(c):
  """Batched reads of an element-wise map (missing elements stay missing)."""
  pointwise(c, parent(c).map(c.fn("f")))


@harness("C06")
def getitems_map_with_index(c):
  """Batched reads of a map with index."""
  pointwise(c, parent(c).map_with_index(c.ifn("f")))


@harness("C06")
def getitems_filter(c):
  """Batched reads of a filter."""
  pointwise(c, parent(c).filter(c.pred("keep")))


@harness("C06")
def getitems_batch(c):
  """Batched reads of batches."""
  p = parent(c)
  ds = p.batch(c.int("b", 1), batch_fn=c.agg("B"))
  pointwise(c, ds)


@harness("C06")
def getitems_range(c):
  """Batched reads of a range."""
  a, b, s = c.int("a"), c.int("b"), c.pick("s", [1, 3, -2])
  ds = dataset.MapDataset.range(a, b, s)
  c.assume(len(ds) > 0)
  pointwise(c, ds)


@harness("C06", bounded="number of zipped datasets <= 3")
def getitems_zip(c):
  """Batched reads of zipped datasets."""
  k = c.small("parents", 1, 3)
  n = c.int("n", 1)
  ps = [AbsMapDataset(c.stream(f"p{x}"), n) for x in range(k)]
  pointwise(c, zip_ds.ZipMapDataset(ps))


@harness("C06", bounded="2 concatenated datasets, at most 2 indices per read")
def getitems_concat(c):
  """Batched reads of concatenated datasets."""
  a, b = parent(c, "pa"), parent(c, "pb")
  c.assume(c.all(a.n < 2**40, b.n < 2**40))
  pointwise(c, dataset.MapDataset.concatenate([a, b]), 0, None, 2)


@harness("C06", bounded="2 mixed datasets, weights 1:1 or 1:2, at most 2 indices per read")
def getitems_mix(c):
  """Batched reads of mixed datasets."""
  a, b = parent(c, "pa"), parent(c, "pb")
  c.assume(c.all(a.n < 2**30, b.n < 2**30))
  ds = dataset.MapDataset.mix([a, b], c.pick("w", [[1.0, 1.0], [1.0, 2.0]]))
  pointwise(c, ds, 0, None, 2)


@harness("C06", so=True)
def getitems_shuffle(c):
  """Batched reads of a shuffled dataset."""
  p = parent(c)
  c.assume(p.n < 2**31)
  pointwise(c, p.shuffle(seed=c.int("seed", 0, 2**32 - 1)))


@harness("C06", so=True)
def getitems_window_shuffle(c):
  """Batched reads of a window-shuffled dataset."""
  from grain._src.python.dataset.transformations import shuffle
  p = parent(c)
  w = c.int("w", 1, 2**31)
  ds = shuffle.WindowShuffleMapDataset(p, window_size=w, seed=c.int("seed", 0, 2**20))
  pointwise(c, ds, 0, 2**30)


@harness("C06", "C07")
def getitems_random_map(c):
  """Batched reads of a random map draw the same numbers as single reads."""
  p = parent(c)
  ds = p.random_map(c.rngfn("f"), seed=c.int("seed", 0, 2**32 - 1))
  pointwise(c, ds, 0, 2**40)


# -- C07 ---------------------------------------------------------------------
@harness("C07")
def random_map_by_position(c):
  """A random map's element depends on (seed, position, input element) only:
  two datasets, read in different orders, agree."""
  n = c.int("n", 1)
  st = c.stream("p")
  seed = c.int("seed", 0, 2**32 - 1)
  f = c.rngfn("f")
  ds1 = AbsMapDataset(st, n).random_map(f, seed=seed)
  ds2 = AbsMapDataset(st, n).random_map(f, seed=seed)
  while c.more():
    ds1[c.index("h", 0, 2**40)]
  j = c.index("j", 0, 2**40)
  a = ds1[j]
  b = ds2[j]
  c.cover("read")
  c.same(a, b, "independent-of-history")


@harness("C07")
def random_map_streams_differ(c):
  """Different positions never share a random stream; nor do different seeds."""
  n = c.int("n", 1)
  seed, seed2 = c.int("seed", 0, 2**32 - 1), c.int("seed2", 0, 2**32 - 1)
  p = AbsMapDataset(c.stream("p"), n)
  seen = []

  def f(x, rng):
    seen.append(c.rng_identity(rng))
    return x
  i, j = c.index("i", 0, 2**40), c.index("j", 0, 2**40)
  d1, d2 = p.random_map(f, seed=seed), p.random_map(f, seed=seed2)
  c.assume(c.neg(c.is_none(p.stream.get(i))))
  c.assume(c.neg(c.is_none(p.stream.get(j))))
  d1[i]
  d2[j]
  c.cover("two draws")
  c.check(c.iff(c.same_rng(seen[0], seen[1]), c.all(i == j, seed == seed2)),
          "stream-iff-position-and-seed")


@harness("C07")
def map_elements(c):
  """map applies the function to each present element, in place."""
  p = parent(c)
  f = c.fn("f")
  ds = p.map(f)
  c.check(len(ds) == p.n, "length")
  j = c.index("j", None)
  x = p.stream.get(j)
  c.cover("mapped")
  c.same(ds[j], None if c.is_none(x) else f(x), "element")


@harness("C07")
def map_with_index_elements(c):
  """map_with_index gets the position of the element."""
  p = parent(c)
  f = c.ifn("f")
  ds = p.map_with_index(f)
  c.check(len(ds) == p.n, "length")
  j = c.index("j", None)
  x = p.stream.get(j)
  c.cover("mapped")
  c.same(ds[j], None if c.is_none(x) else f(j, x), "element")


@harness("C07")
def filter_map_elements(c):
  """Random-access filter keeps the length and blanks the refused elements."""
  p = parent(c)
  keep = c.pred("keep")
  ds = p.filter(keep)
  c.check(len(ds) == p.n, "length")
  j = c.index("j", None)
  x = p.stream.get(j)
  c.cover("filtered")
  want = None
  if not c.is_none(x):
    want = x if keep(x) else None
  c.same(ds[j], want, "element")
