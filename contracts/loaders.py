"""C18, C19: data loaders and the distribution of data among workers."""
import json
import zlib

from contracts.common import AbsIterDataset, AbsIterator, AbsMapDataset
from contracts.iters import step
from grain._src.core import sharding
from grain._src.core import transforms
from grain._src.python import data_loader
from grain._src.python import operations
from grain._src.python import options
from grain._src.python import record
from grain._src.python import samplers
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import flatmap
from grain._src.python.dataset.transformations import prefetch
from grain._src.python.dataset.transformations import source
from grain._src.python.dataset.transformations import zip as zip_ds
from pyvc.harness import harness

DIRECT = options.ReadOptions(num_threads=0, prefetch_buffer_size=0)


class Source:
  """A data source of n records."""

  def __init__(self, stream, n):
    self.stream, self.n = stream, n

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    return self.stream.get(i)

  def __repr__(self):
    return "Source"


class Map(transforms.Map):

  def __init__(self, f):
    self.map = f

  def map(self, x):
    raise NotImplementedError


class Filter(transforms.Filter):

  def __init__(self, f):
    self.filter = f

  def filter(self, x):
    raise NotImplementedError


# -- C18 ---------------------------------------------------------------------
def shard(c):
  n, k = c.int("n", 1), c.int("k", 1)
  i = c.index("i", 0, k)
  drop = c.bool("drop")
  src = Source(c.stream("p", n), n)
  src.stream.none_rate = 0
  sampler = samplers.SequentialSampler(n, sharding.ShardOptions(0, 1))
  return n, k, i, drop, src, sampler


@harness("C18")
def loader_shard(c):
  """The records of a shard are those at i, i + k, i + 2k, ... of the sampler:
  all of them, or as many as every shard has."""
  n, k, i, drop, src, sampler = shard(c)
  ds = data_loader._SamplerMapDataset(
      src, sampler, sharding.ShardOptions(i, k, drop))
  m = len(ds)
  c.cover("dataset")
  if drop:
    c.check(m == n // k, "length")
  else:
    c.check(c.iff(m > 0, i < n), "length")
    c.check(c.all((m - 1) * k + i < n, m * k + i >= n), "length")
  j = c.index("j", 0, m)
  r = ds[j]
  c.same(r.data, src.stream.get(j * k + i), "record")
  c.check(r.metadata.index == j * k + i, "index")


def loader(c, src, sampler, ops, opts=sharding.ShardOptions(0, 1)):
  return data_loader.DataLoader(
      data_source=src, sampler=sampler, operations=ops, shard_options=opts,
      read_options=DIRECT)


class Plain(AbsIterDataset):
  """A stream none of whose elements is None."""

  def __iter__(self):
    return PlainIterator(self.stream)


class PlainIterator(AbsIterator):

  def __next__(self):
    return present(self.stream, super().__next__())


def present(s, x):
  s.c.assume(s.c.neg(s.c.absent(x)))
  return x


class Shard(AbsIterDataset):
  """Stands for the records of a shard as a stream: what they are says
  loader_shard, that they are read in order the contracts of C13."""

  def to_iter_dataset(self, read_options):
    return self

  def __iter__(self):
    return ShardIterator(self.stream)


class ShardIterator(AbsIterator):

  def __next__(self):
    i = self.pos
    return record.Record(record.RecordMetadata(index=i, record_key=i),
                         present(self.stream, super().__next__()))

  def get_state(self):
    return {"next_index": self.pos}

  def set_state(self, state):
    self.pos = state["next_index"]


def over(c, ops):
  """A loader over the records of a shard."""
  s = c.stream("p", c.int("n", 0))
  s.none_rate, s.c = 0, c
  real = data_loader._SamplerMapDataset
  data_loader._SamplerMapDataset = lambda *a: Shard(s)
  try:
    return s, loader(c, None, "sampler", ops)
  finally:
    data_loader._SamplerMapDataset = real


def reads(it):
  """How many records of the shard have been read, as its state says."""
  return json.loads(it.get_state().decode())["last_seen_indices"]["0"] + 1


def same_stream(c, dl, ref):
  it, jt = c.own(iter(dl), iter(ref))
  c.cover("loader")
  while c.more():
    c.same(step(it), step(jt), "same-stream")


@harness("C18")
def loader_stream(c):
  """A loader yields what its operations give when they are applied to the
  records of the shard, in order."""
  f = c.fn("f")
  s, dl = over(c, [Map(f)])
  same_stream(c, dl, Plain(s).map(f))


@harness("C18")
def loader_stream_filter(c):
  """The same for filters."""
  keep = c.pred("keep", track=True)
  s, dl = over(c, [Filter(keep)])
  it = iter(dl)
  c.cover("loader")
  while c.more():
    at = reads(it)
    a = step(it)
    to = reads(it)
    if a[0] == "v":
      c.check(at < to, "reads-on")
      c.same(a, ("v", s.get(to - 1)), "element")
      c.check(keep(s.get(to - 1)), "only-kept-elements")
      to = to - 1
    else:
      c.same(a, ("stop",), "end")
      c.check(to == s.n, "end-only-at-the-end")
    c.forall(to - at, lambda k, ok: ok(c.neg(keep(s.get(at + k))),
                                       "skips-only-others"), "skips-only-others")


def resumed(c, dl, kept=True):
  """A state saved after any history continues identically in an iterator with
  any other history."""
  it, jt = c.own(iter(dl), iter(dl))
  while c.more():
    step(it)
  s = it.get_state()
  while c.more():
    step(jt)
  jt.set_state(s)
  c.cover("restored")
  if kept:
    c.same(jt.get_state(), s, "state-kept")
  c.same_state(it, jt, "same-continuation")
  while c.more():
    a, b = step(it), step(jt)
    c.same(a, b, "same-continuation")


@harness("C18")
def loader_resume(c):
  """Save/restore of a loader."""
  resumed(c, over(c, [Map(c.fn("f"))])[1])


@harness("C18")
def loader_resume_filter(c):
  """Save/restore of a loader which filters."""
  resumed(c, over(c, [Filter(c.pred("keep"))])[1])


@harness("C18", bounded="1 to 4 workers")
def loader_refuses(c):
  """A loader refuses the states of loaders with another number of workers,
  sampler or source, and keeps its own."""
  s = c.stream("p", c.int("n", 0))
  s.none_rate, s.c = 0, c
  real = data_loader._SamplerMapDataset
  data_loader._SamplerMapDataset = lambda *a: Shard(s)
  try:
    dl = loader(c, "source", "sampler", [Map(c.fn("f"))])
  finally:
    data_loader._SamplerMapDataset = real
  it = c.own(iter(dl))
  while c.more():
    step(it)
  before = it.get_state()
  state = json.loads(before.decode())
  other = c.pick("other", ["nothing", "worker_count", "sampler", "data_source"])
  if other == "worker_count":
    state[other] = c.pick("workers", [1, 2, 3, 4])
  elif other != "nothing":
    state[other] = "another"
  at = c.fresh("to", 0, s.n + 1)
  state["last_seen_indices"]["0"] = at - 1
  c.cover("asked")
  try:
    it.set_state(json.dumps(state).encode())
    c.check(other == "nothing", "refused")
    c.check(reads(it) == at, "accepted")
  except ValueError:
    c.check(other != "nothing", "accepted")
    c.same(it.get_state(), before, "kept-its-state")


class Lengthless:
  """A sampler which does not say how many indices it has."""

  def __init__(self, sampler):
    self.sampler = sampler

  def __getitem__(self, i):
    return self.sampler[i]

  def __repr__(self):
    return "Lengthless"


class Flat(transforms.FlatMap):

  def __init__(self, n):
    self.n = n
    self.max_fan_out = n

  def flat_map(self, x):
    return [(x, j) for j in range(self.n)]


@harness("C18", sym=False, bounded="drawn sources, shards and operations")
def loader_any(c):
  """Streams and save/restore of any shard with any operations."""
  n, k, i, drop, src, sampler = shard(c)
  m = n // k if drop else max(0, (n - i + k - 1) // k)
  ref = AbsMapDataset(src.stream, n)[i::k][:m].to_iter_dataset(DIRECT)
  ops = []
  for x in range(c.int("ops", 0, 3)):
    o = c.pick("op%d" % x, ["map", "filter", "batch", "old", "flat"])
    if o == "map":
      f = c.fn("f%d" % x)
      ops.append(Map(f))
      ref = ref.map(f)
    elif o == "filter":
      f = c.pred("keep%d" % x)
      ops.append(Filter(f))
      ref = ref.filter(f)
    elif o == "flat":
      if any(isinstance(y, Flat) for y in ops):
        continue
      ops.append(Flat(c.int("fan", 0, 3)))
      ref = flatmap.FlatMapIterDataset(ref, ops[-1])
    else:
      bs, dr, agg = c.int("bs", 1), c.bool("dropb"), c.agg("B")
      ops.append((operations.BatchOperation if o == "old" else transforms.Batch)(
          bs, drop_remainder=dr, batch_fn=agg))
      ref = ref.batch(bs, drop_remainder=dr, batch_fn=agg)
      break
  if c.bool("lengthless"):
    sampler = Lengthless(sampler)
  dl = loader(c, src, sampler, ops, sharding.ShardOptions(i, k, drop))
  if c.bool("resume"):
    resumed(c, dl, not any(isinstance(y, Flat) for y in ops))
  else:
    same_stream(c, dl, ref)


class Workers(dataset.DatasetIterator):
  """Stands for the iterator over the workers: holds a state."""

  def __init__(self, state):
    super().__init__()
    self.state = state

  def __next__(self):
    raise StopIteration

  def get_state(self):
    return self.state

  def set_state(self, state):
    self.state = state


@harness("C18", bounded="1 to 4 workers; positions and shards unbounded")
def loader_state(c):
  """The state of a loader names the position of every worker and the worker
  which is next: converting it back gives them all."""
  w = c.pick("workers", [0, 1, 2, 3, 4])
  k = c.int("k", 1)
  i = c.index("i", 0, k)
  at = [c.int("at%d" % j, 0) for j in range(max(w, 1))]
  nxt = c.index("next", 0, max(w, 1))
  if w:
    state = {"next_index_in_cycle": nxt, "next_index_in_datasets": w,
             "iterators_in_use_indices": list(range(w)),
             "iterators_in_use_states": [{"next_index": a} for a in at],
             "exhausted": [0] * w}
  else:
    state = {"next_index": at[0]}
  p = Workers(state)
  opts = sharding.ShardOptions(i, k)
  it = data_loader._DataLoaderStateDatasetIterator(p, opts, w, "sampler", "source")
  s = c.json(it.get_state())
  q = Workers(None)
  jt = data_loader._DataLoaderStateDatasetIterator(q, opts, w, "sampler", "source")
  jt.set_state(s)
  c.cover("restored")
  c.same(jt.get_state(), s, "state-kept")
  if not w:
    c.check(q.state["next_index"] == at[0], "position")
  else:
    c.check(q.state["next_index_in_cycle"] == nxt, "next-worker")
    c.check(q.state["next_index_in_datasets"] == w, "all-workers-started")
    for j in range(w):
      c.check(q.state["iterators_in_use_states"][j]["next_index"] == at[j], "position")
      c.check(q.state["iterators_in_use_indices"][j] == j, "worker")


# -- C19 ---------------------------------------------------------------------
@harness("C19")
def worker_slices(c):
  """Worker i of k reads the records at i, i + k, i + 2k, ...: every record is
  read by exactly one worker."""
  n, k = c.int("n", 0), c.int("k", 1)
  i = c.index("i", 0, k)
  s = c.stream("p", n)
  ds = prefetch.PrefetchIterDataset(AbsMapDataset(s, n), read_options=DIRECT)
  f = c.fn("f")
  if c.bool("twice"):
    prefetch._set_slice_iter_dataset(
        zip_ds.ZipIterDataset([ds, ds.map(f)]), slice(i, None, k))
  else:
    prefetch._set_slice_iter_dataset(ds.map(f), slice(i, None, k))
  part = ds._parent
  m = len(part)
  c.cover("sliced")
  c.check(c.all(m >= 0, c.any(m == 0, (m - 1) * k + i < n), m * k + i >= n), "length")
  j = c.index("j", 0, m)
  c.same(part[j], s.get(j * k + i), "record")
  # the record at position q belongs to worker q % k, at q // k
  q = c.index("q", 0, n)
  if q % k == i:
    c.check(c.all(q // k < m, (q // k) * k + i == q), "every-record-is-read")


def sliced(c, ds, sl):
  """Slices a pipeline which uses ds once or twice."""
  f = c.fn("f")
  ways = c.pick("ways", ["once", "twice", "two readers"])
  if ways == "once":
    prefetch._set_slice_map_dataset(ds.map(f), sl, True)
  elif ways == "twice":
    prefetch._set_slice_map_dataset(zip_ds.ZipMapDataset([ds, ds.map(f)]), sl, True)
  else:
    a = prefetch.PrefetchIterDataset(ds, read_options=DIRECT)
    b = prefetch.PrefetchIterDataset(ds.map(f), read_options=DIRECT)
    prefetch._set_slice_iter_dataset(zip_ds.ZipIterDataset([a, b]), sl, True)


@harness("C19", stubs=("+even_split",))
def worker_slices_sequential(c):
  """Worker i of k reads the i-th of k adjacent parts of a source."""
  n, k = c.int("n", 0), c.int("k", 1)
  i = c.index("i", 0, k)
  s = c.stream("p", n)
  part = source.SourceMapDataset(Source(s, n))
  sliced(c, part, slice(i, None, k))
  lo, hi = sharding.even_split(n, sharding.ShardOptions(i, k))
  m = len(part)
  c.cover("sliced")
  c.check(m == hi - lo, "length")
  j = c.index("j", 0, m)
  c.same(part[j], s.get(lo + j), "record")


@harness("C19", stubs=("+even_split",))
def worker_slices_range(c):
  """The same for ranges."""
  a, b, d = c.int("a", None), c.int("b", None), c.int("d", None)
  c.assume(c.neg(d == 0))
  k = c.int("k", 1)
  i = c.index("i", 0, k)
  ds = source.RangeMapDataset(a, b, d)
  n = len(ds)
  sliced(c, ds, slice(i, None, k))
  lo, hi = sharding.even_split(n, sharding.ShardOptions(i, k))
  m = len(ds)
  c.cover("sliced")
  c.check(m == hi - lo, "length")
  j = c.index("j", 0, m)
  c.check(ds[j] == a + (lo + j) * d, "element")


def dice(x):
  return zlib.crc32(str(x).encode()) % 3


def pipeline(c, ops):
  """A source with some operations; the elements are its positions."""
  n = c.int("n", 1)
  if c.bool("range"):
    a, d = c.int("a", None), c.int("d", 1, 3)
    ds = source.RangeMapDataset(a, a + n * d, d)
  else:
    ds = source.SourceMapDataset(list(range(n)))
  names = []
  for j in range(c.int("ops", 0, 3)):
    op = c.pick("op%d" % j, ops)
    c.assume(op != "batch" or "filter" not in names)
    names.append(op)
    if op == "map":
      ds = ds.map(lambda x: ("m", x))
    elif op == "filter":
      ds = ds.filter(lambda x: dice(x) > 0)
    elif op == "shuffle":
      ds = ds.shuffle(seed=c.int("seed", 0, 99))
    elif op == "batch":
      ds = ds.batch(c.int("bs", 1, 3), batch_fn=tuple)
    elif op == "repeat":
      ds = ds.repeat(2)
    else:
      ds = ds[c.int("from", 0, 2):]
  return ds, names


def spread(c, ops, sequential):
  ds, names = pipeline(c, ops)
  k = c.int("k", 1, 4)
  ds = ds.to_iter_dataset(options.ReadOptions(
      num_threads=c.int("threads", 0, 2), prefetch_buffer_size=c.int("buffer", 0, 3)))
  late = c.pick("late", ["none", "map", "filter", "twice"])
  if late == "map":
    ds = ds.map(lambda x: ("l", x))
  elif late == "filter":
    ds = ds.filter(lambda x: dice(x) > 1)
  elif late == "twice":
    ds = zip_ds.ZipIterDataset([ds, ds.map(lambda x: ("l", x))])
  want = []
  for x in ds:
    want.append(x)
  it = c.own(prefetch.multithread_prefetch(
      ds, k, c.int("ahead", 0, 2), sequential_slice=sequential).__iter__())
  got = []
  for x in it:
    got.append(x)
    c.check(len(got) <= len(want), "no-more", names)
  c.cover("read")
  c.check(sorted(map(str, got)) == sorted(map(str, want)), "each-element-once", names)
  if late != "filter" and "filter" not in names and not sequential:
    c.check(got == want, "same-order", names)


@harness("C19", sym=False, bounded="drawn pipelines, 1 to 4 workers")
def threads_spread(c):
  """Workers (threads) together give every element of a pipeline once; in the
  order of the pipeline unless elements are filtered out."""
  spread(c, ["map", "filter", "shuffle", "batch", "repeat", "slice"], False)


@harness("C19", sym=False, bounded="drawn pipelines, 1 to 4 workers")
def threads_spread_sequential(c):
  """The same when every worker reads an adjacent part of the source."""
  spread(c, ["map", "filter", "shuffle"], True)


@harness("C19", sym=False, weight=0.2, bounded="drawn sizes, 1 to 4 workers")
def threads_sequential_lengths(c):
  """The same below operations which change the number of elements."""
  n, k = c.int("n", 1), c.int("k", 1, 4)
  op = c.pick("op", ["batch", "repeat", "slice", "concatenate"])
  ds = source.SourceMapDataset(list(range(n)))
  if op == "batch":
    ds = ds.batch(c.int("bs", 1, 3), batch_fn=tuple)
  elif op == "repeat":
    ds = ds.repeat(2)
  elif op == "slice":
    ds = ds[:n - 1]
  else:
    ds = dataset.MapDataset.concatenate([ds, source.SourceMapDataset(["x", "y"])])
  ds = ds.to_iter_dataset(DIRECT)
  try:
    want = sorted(str(y) for x in ds for y in (x if op == "batch" else [x]))
    got = []
    it = c.own(prefetch.multithread_prefetch(ds, k, 1, sequential_slice=True).__iter__())
    for x in it:
      got += list(map(str, x if op == "batch" else [x]))
    got.sort()
  except Exception as e:
    got = repr(e)
  c.cover("read")
  c.check(got == want, "sequential-" + op, (want, got))
