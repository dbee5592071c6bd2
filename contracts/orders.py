"""C04, C05, C17: shuffled epochs, mixtures and samplers."""
import itertools

from pyvc.harness import harness
from contracts.common import PosMapDataset
from contracts.iters import src, step
from contracts.streams import Ghost
from grain._src.core import sharding
from grain._src.python import samplers
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import mix
from grain._src.python.dataset.transformations import shuffle
from grain._src.python.experimental.index_shuffle.python import (
    index_shuffle_module)


# -- C04 ---------------------------------------------------------------------
@harness("C04", so=True)
def shuffle_permutes_epoch(c):
  """shuffle: position j of epoch e reads a position of epoch e of the parent,
  different ones for different j (a permutation, as the epoch is finite)."""
  n = c.int("n", 1)
  c.assume(n < 2**62)
  seed = c.int("seed", 0, 2**32 - 1)
  ds = PosMapDataset(n).shuffle(seed=seed)
  c.cover("shuffled")
  c.check(len(ds) == n, "length")
  i, j = c.index("i", None), c.index("j", None)
  x, y = ds[i], ds[j]
  c.check(x // n == i // n, "stays-in-its-epoch")
  if i // n == j // n:
    c.check((x == y) == (i == j), "one-to-one")


@harness("C04", so=True)
def shuffle_is_a_function(c):
  """shuffle: the order depends on the length, the seed and the epoch only; a
  repetition without reseeding repeats the order of the first epoch."""
  n = c.int("n", 1)
  c.assume(n < 2**30)
  seed = c.int("seed", 0, 2**32 - 1)
  ds, again = PosMapDataset(n).shuffle(seed=seed), PosMapDataset(n).shuffle(seed=seed)
  c.cover("shuffled")
  i, j = c.index("i", None), c.index("j", None)
  x = ds[i]
  ds[j]
  c.check(ds[i] == x, "reading-changes-nothing")
  c.check(again[i] == x, "same-for-equal-datasets")
  other = PosMapDataset(n).shuffle(seed=(seed + 1) % 2**32)
  c.check(other[j] - (j // n) * n == ds[j + n] - (j // n + 1) * n,
          "an-epoch-has-a-seed-of-its-own")
  k = c.int("k", 2)
  rep = ds.repeat(k, reseed_each_epoch=False)
  c.check(rep[i] == ds[i % n], "no-reseeding-unless-asked")
  c.check(ds.repeat(k)[i] == x, "reseeding-when-asked")


@harness("C04", so=True, sym=False, bounded="drawn lengths and seeds; that two "
         "orders differ is a matter of probability")
def shuffle_epochs_differ(c):
  """Orders of different epochs, and of different seeds, differ; a default seed
  decides the order."""
  n = c.int("n", 40, 60)
  seed = c.int("seed", 0, 2**32 - 1)
  ds = PosMapDataset(n).shuffle(seed=seed)
  c.cover("shuffled")
  es = [[ds[e * n + j] - e * n for j in range(n)] for e in range(4)]
  for a, b in itertools.combinations(es, 2):
    c.check(a != b, "epochs-differ")
  c.check(all(sorted(e) == list(range(n)) for e in es), "permutations")
  d1, d2 = (PosMapDataset(n).seed(seed).shuffle() for _ in range(2))
  c.check(list(d1) == list(d2), "default-seed-decides")
  d3 = PosMapDataset(n).seed(seed + 1).shuffle()
  c.check(list(d1) != list(d3), "default-seeds-differ")
  two = PosMapDataset(n).seed(seed).shuffle().shuffle()
  c.check(sorted(two) == list(range(n)), "twice-shuffled")


@harness("C04", so=True)
def window_shuffle_permutes_window(c):
  """Window shuffle of a random-access dataset: a position reads a position of
  its own window, different ones different ones."""
  n = c.int("n", 1)
  w = c.int("w", 1)
  c.assume(w < 2**62)
  seed = c.int("seed", 0, 2**32 - 1)
  ds = shuffle.WindowShuffleMapDataset(PosMapDataset(n), window_size=w, seed=seed)
  c.cover("shuffled")
  c.check(len(ds) == n, "length")
  i, j = c.index("i", None), c.index("j", None)
  x, y = ds[i], ds[j]
  c.check(x // w == i // w, "stays-in-its-window")
  if i // w == j // w:
    c.check((x == y) == (i == j), "one-to-one")
  c.check(ds[i] == x, "reading-changes-nothing")


@harness("C04", so=True)
def reshuffle_window(c):
  """The shuffle of a filled window: a list of the same length, in which the
  element at q stands at one place."""
  n = c.int("n", 0)
  c.assume(n < 2**62)
  seed = c.int("seed", 0, 2**32 - 1)
  p = c.stream("p", n)
  xs = [p.get(i) for i in range(n)]

  def perm(i):
    return index_shuffle_module.index_shuffle(i, n - 1, seed, 4)

  if c.symbolic:
    from pyvc import shufflemodel
    c.sequence(lambda k: p.get(shufflemodel.term(k, n - 1, seed, 4)))
  out = shuffle._reshuffle_window(xs, seed)  # pylint: disable=protected-access
  c.cover("shuffled")
  c.check(len(out) == n, "length")
  if n > 0:
    i = c.index("i", 0, n)
    c.same(out[i], p.get(perm(i)), "element")


@harness("C04", so=True)
def stream_window_shuffle(c):
  """Window shuffle of a stream: every window of w elements comes out as a
  permutation fixed by the seed and the number of the window, then the next."""
  w = c.int("w", 1)
  c.assume(w < 2**62)
  seed = c.int("seed", 0, 2**32 - 1)
  p = src(c)
  n = p.stream.n
  c.assume(n < 2**62)
  it = shuffle.WindowShuffleIterDataset(p, window_size=w, seed=seed).__iter__()
  g = Ghost()
  g.start, g.m, g.k, g.left = 0, 0, 0, 0
  if c.symbolic:
    from pyvc import shufflemodel

    def at(q):
      return p.stream.get(g.start + shufflemodel.term(
          q, g.m - 1, (seed + g.k) % 2**32, 4))
    c.sequence(at)
    c.hint(lambda: it._parent.pos == g.start + g.m)
    c.hint(lambda: c.every(len(it._window), lambda q: c.at(it._window, q) == at(q)))
  while c.more():
    if g.left == 0:
      g.start = g.start + g.m
      g.m = c.ite(n - g.start < w, n - g.start, w)
      g.left = g.m
    a = step(it)
    if g.m == 0:
      c.same(a, ("stop",), "end-persists")
      continue
    g.left = g.left - 1
    x = index_shuffle_module.index_shuffle(g.left, g.m - 1, (seed + g.k) % 2**32, 4)
    c.same(a, ("v", p.stream.get(g.start + x)), "element")
    if g.left == 0:
      g.k = g.k + 1
  c.cover("read")


# -- C05 ---------------------------------------------------------------------
def counts(k, props):
  """How many of the first k elements come from each source."""
  rem, cur, out = sum(props), k, []
  for p in props:
    nxt = cur * (rem - p) // rem
    out.append(cur - nxt)
    cur, rem = nxt, rem - p
  return out


@harness("C05", bounded="number of mixed sources <= 3")
def mix_next(c):
  """The element at k of a mixture is the next one of its source: the numbers
  of elements taken from the sources grow one at a time, from zero."""
  m = c.small("sources", 1, 3)
  props = tuple(c.int(f"w{x}", 1) for x in range(m))
  k = c.int("k", 0)
  i, key = mix._dataset_and_key_of_next_element(k, props)  # pylint: disable=protected-access
  c.cover("next")
  a, b = counts(k, props), counts(k + 1, props)
  c.check(c.all(*[x == 0 for x in counts(0, props)]), "starts-with-none")
  for s in range(m):
    if i == s:
      c.check(key == a[s], "next-of-its-source")
      c.check(b[s] == a[s] + 1, "taken-from-its-source")
    else:
      c.check(b[s] == a[s], "not-taken-from-others")


@harness("C05", bounded="number of mixed sources <= 3")
def mix_proportions(c):
  """In every prefix the number of elements of a source differs from its share
  by less than the number of sources, and by less than one for two sources."""
  m = c.small("sources", 1, 3)
  props = tuple(c.int(f"w{x}", 1) for x in range(m))
  k = c.int("k", 0)
  total = sum(props)
  a = counts(k, props)
  c.cover("counted")
  c.check(sum(a) == k, "all-elements")
  for s in range(m):
    d = total * a[s] - k * props[s]
    c.check(c.all(d > -max(1, m - 1) * total, d < max(1, m - 1) * total), "near-the-share")


@harness("C05", sym=False, bounded="drawn weights, prefixes of up to 400 elements",
         weight=2)
def mix_prefix(c):
  """Whole prefixes of a mixture: order, shares and no element twice."""
  m = c.rng.randint(1, 5)
  ws = [c.rng.choice([1, 1.0, 2, 0.5, 0.1, 0.9, 3, 1 / 3, c.rng.random() + 0.01])
        for _ in range(m)]
  ns = [c.rng.randint(1, 60) for _ in range(m)]
  c._log("ws", tuple(ws)), c._log("ns", tuple(ns))  # pylint: disable=protected-access
  ds = dataset.MapDataset.mix(
      [PosMapDataset(n).map(lambda x, s=s: (s, x)) for s, n in enumerate(ns)],
      ws if m > 1 or c.bool("weights") else None)
  seen = [0] * m
  pr = ds._selection_map._proportions  # pylint: disable=protected-access
  tot = sum(pr)
  c.cover("mixed")
  for s in range(m):
    for t in range(m):
      c.check(abs(pr[s] * ws[t] - pr[t] * ws[s]) <= 0.0101 * pr[s] * ws[t] + 1e-9 or
              len(pr) == 1 or pr == (1,) * m, "weights-as-given")
  for j in range(min(len(ds), 400)):
    s, x = ds[j]
    c.check(x == seen[s], "each-source-in-order")
    seen[s] += 1
    c.check(seen[s] <= ns[s], "no-element-twice")
    c.check(all(abs(seen[t] - (j + 1) * pr[t] / tot) < max(1, m - 1) + 1e-9
                for t in range(m)), "near-the-share")
  if len(ds) <= 400:
    c.check(any((len(ds) + 1) * p > n * tot for p, n in zip(pr, ns)), "as-long-as-possible")


@harness("C05", bounded="2 sources, 4 choices of weights")
def mix_length(c):
  """A random-access mixture holds no element of a source twice and is as long
  as the weights allow."""
  a, b = c.int("na", 1, big=True), c.int("nb", 1, big=True)
  c.assume(c.all(a < 2**61, b < 2**61))
  w = c.pick("w", [None, [1.0, 2.0], [0.3, 0.7], [1.0, 1e-6]])
  pa, pb = PosMapDataset(a), PosMapDataset(b)
  sel = mix.SelectionWithProportionsMap([pa, pb], w)
  wa, wb = (1, 1) if w is None else mix._float_to_int_proportions(w)  # pylint: disable=protected-access
  n = len(sel)
  c.cover("mixed")
  full = (1 << 63) - 1
  c.check(c.all(n * wa <= a * (wa + wb), n * wb <= b * (wa + wb)), "within-the-shares")
  c.check(c.any((n + 1) * wa > a * (wa + wb), (n + 1) * wb > b * (wa + wb), n == full),
          "as-long-as-possible")
  j = c.index("j", 0, n)
  if c.bool("last"):
    j = n - 1
  s, x = sel[j]
  c.check(c.all(x >= 0, x < (a if s == 0 else b)), "no-element-twice")


@harness("C05", bounded="2 sources")
def mix_rejects_empty(c):
  """A source without elements or with weight zero is refused."""
  a, b = c.int("na", 0), c.int("nb", 0)
  c.assume(c.any(a == 0, b == 0))
  ok = True
  try:
    mix.SelectionWithProportionsMap([PosMapDataset(a), PosMapDataset(b)],
                                    c.pick("w", [None, [1.0, 2.0]]))
  except ValueError:
    ok = False
  c.cover("refused")
  c.check(not ok, "empty-source-refused")
  ok = True
  try:
    mix.SelectionWithProportionsMap([PosMapDataset(1), PosMapDataset(1)], [0, 1.0])
  except ValueError:
    ok = False
  c.check(not ok, "zero-weight-refused")


@harness("C05", bounded="2 sources, weights 1:1 or 1:2 or 2:3")
def mix_stream(c):
  """A mixture of streams takes the elements of each source in order and ends,
  for good, when the source whose turn it is has no more."""
  ps = [src(c, "pa", "La"), src(c, "pb", "Lb")]
  w = c.pick("w", [(1.0, 1.0), (1.0, 2.0), (2.0, 3.0)])
  it = mix.MixedIterDataset(ps, w).__iter__()
  pr = mix._float_to_int_proportions(w)  # pylint: disable=protected-access
  g = Ghost()
  g.over = False
  for x in range(2):
    c.hint(lambda x=x: it._parents[x].pos == counts(g.pos, pr)[x])
  while c.more():
    a = step(it)
    i, key = mix._dataset_and_key_of_next_element(g.pos, tuple(pr))  # pylint: disable=protected-access
    if g.over or key >= ps[i].stream.n:
      g.over = True
      c.same(a, ("stop",), "end-persists")
    else:
      c.same(a, ("v", ps[i].stream.get(key)), "element")
      g.pos = g.pos + 1
  c.cover("read")


# -- C17 ---------------------------------------------------------------------
@harness("C17")
def sequential_sampler(c):
  """SequentialSampler: record i at index i, all of them, or all that fill the
  shards evenly; nothing outside."""
  n = c.int("n", 1)
  k = c.int("k", 1)
  drop = c.bool("drop")
  s = samplers.SequentialSampler(n, sharding.ShardOptions(0, k, drop))
  c.cover("sampler")
  c.check(len(s) == (n - n % k if drop else n), "length")
  j = c.index("j", None)
  try:
    r = s[j]
  except IndexError:
    r = None
  inside = c.all(j >= 0, j < len(s))
  if r is None:
    c.check(c.neg(inside), "only-outside-refused")
  else:
    c.check(inside, "outside-refused")
    c.check(c.all(r.index == j, r.record_key == j), "record")
    c.check(r.rng is None, "no-randomness-without-a-seed")


@harness("C17", so=True, stubs=("+even_split",))
def index_sampler_shards(c):
  """IndexSampler: over one pass the indices of a shard (those congruent to its
  number) read exactly the records of its shard; a further pass again."""
  n = c.int("n", 1)
  k = c.int("k", 1)
  c.assume(n < 2**40)
  ga, gb = c.index("ga", 0), c.index("gb", 0)
  c.assume(c.all(ga < 2**62, gb < 2**62))
  i, a, b = ga % k, ga // k, gb // k
  c.assume(gb % k == i)
  drop = c.bool("drop")
  sh = c.bool("shuffle")
  opts = sharding.ShardOptions(i, k, drop)
  seed = c.int("seed", 0, 2**32 - 1)
  s = samplers.IndexSampler(n, opts, shuffle=sh, num_epochs=None, seed=seed)
  lo, hi = sharding.even_split(n, opts)
  m = hi - lo
  c.assume(m > 0)
  c.cover("sampler")
  x, y = s[ga], s[gb]
  c.check(x.index == ga, "index")
  c.check(c.all(x.record_key >= lo, x.record_key < hi), "record-of-the-shard")
  if a // m == b // m:
    c.check((x.record_key == y.record_key) == (a == b), "each-record-once-per-epoch")
  if not sh:
    c.check(x.record_key == lo + a % m, "in-order")


@harness("C17", so=True)
def index_sampler_length(c):
  """IndexSampler: the indices of one epoch give every shard as many reads as
  it has records; without a remainder this holds for any number of epochs."""
  n = c.int("n", 1)
  k = c.int("k", 1)
  i = c.index("i", 0, k)
  drop = c.bool("drop")
  e = c.int("epochs", 1)
  opts = sharding.ShardOptions(i, k, drop)
  s = samplers.IndexSampler(n, opts, num_epochs=e)
  lo, hi = sharding.even_split(n, opts)
  c.cover("sampler")
  reads = (len(s) - i + k - 1) // k
  if drop:
    c.check(reads == e * (hi - lo), "reads-of-a-shard")
  else:
    c.check(len(s) == e * n, "length")
    if e == 1:
      c.check(reads == hi - lo, "reads-of-a-shard")
  j = c.index("j", None)
  try:
    s[j]
    ok = True
  except IndexError:
    ok = False
  except ZeroDivisionError:
    c.check(hi == lo, "only-an-empty-shard-cannot-be-read")
    c.done()
  c.check(c.iff(ok, c.all(j >= 0, j < len(s))), "refused-outside-only")


@harness("C17", sym=False, so=True, bounded="drawn sizes, 1 to 5 shards, 1 to 3 epochs")
def index_sampler_jobs(c):
  """All shards of a job together read every record once per epoch."""
  n = c.int("n", 1, 40)
  k = c.int("k", 1, 5)
  drop, sh = c.bool("drop"), c.bool("shuffle")
  e = c.int("epochs", 1, 3) if drop else 1
  c.assume(n >= k)
  got = []
  for i in range(k):
    opts = sharding.ShardOptions(i, k, drop) if k > 1 or c.bool("opts") else sharding.NoSharding()
    s = samplers.IndexSampler(n, opts, shuffle=sh, num_epochs=e, seed=c.seed % 1000)
    got += [s[j].record_key for j in range(i, len(s), k)]
  c.cover("read")
  c.check(len(got) == e * (n - n % k if drop else n), "as-many-as-records")
  per = {x: got.count(x) for x in set(got)}
  c.check(all(v == e for v in per.values()), "each-record-once-per-epoch")
  c.check(all(0 <= x < n for x in got), "records-of-the-source")


@harness("C17", so=True)
def sampler_randomness(c):
  """The generator of a record is a function of the seed and the index; two
  indices have different ones, and one without a seed has none."""
  n = c.int("n", 1)
  c.assume(n < 2**62)
  seed = c.int("seed", 0, 2**32 - 1)
  e = c.int("epochs", 1)
  c.assume(e < 2**32)
  mk = c.pick("sampler", [
      lambda: samplers.SequentialSampler(n, seed=seed),
      lambda: samplers.IndexSampler(n, num_epochs=e, seed=seed),
      lambda: samplers.IndexSampler(n, shuffle=True, num_epochs=e, seed=seed),
      lambda: samplers.IndexSampler(n, shuffle=True, seed=seed)])
  s, t = mk(), mk()
  i, j = c.index("i", 0, len(s)), c.index("j", 0, len(s))
  c.cover("sampler")
  a = c.rng_identity(s[i].rng)
  s[j]
  c.check(c.same_rng(a, c.rng_identity(t[i].rng)), "function-of-seed-and-index")
  if i != j:
    c.check(c.neg(c.same_rng(a, c.rng_identity(s[j].rng))), "indices-differ")


@harness("C17")
def sampler_refuses(c):
  """No records, no epochs, or a seed outside of 32 bits: an error."""
  n, k, seed = c.int("n", 1), c.int("k", 1), c.int("seed", 0, 2**32 - 1)
  mk = c.pick("request", [
      lambda: samplers.SequentialSampler(c.int("bad", None, 0)),
      lambda: samplers.IndexSampler(c.int("bad", None, 0), num_epochs=k),
      lambda: samplers.IndexSampler(n, num_epochs=c.int("bad", None, 0)),
      lambda: samplers.IndexSampler(n, shuffle=True),
      lambda: samplers.IndexSampler(n, num_epochs=k, seed=c.int("bad", None, -1)),
      lambda: samplers.IndexSampler(
          n, num_epochs=k, shuffle=True, seed=2**32 + c.int("more", 0))])
  ok = False
  try:
    mk()
  except ValueError:
    ok = True
  c.cover("called")
  c.check(ok, "refused")
