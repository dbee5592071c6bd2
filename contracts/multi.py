"""C10, C12, C20: interleaving and elastic resharding."""
from contracts.iters import checkpoint, isolated, second_generation, step
from contracts.common import AbsIterDataset, AbsMapDataset
from contracts.streams import Ghost
from grain._src.core import sharding
from grain._src.python import options
from grain._src.python.dataset import dataset
from grain._src.python.dataset import elastic_iterator
from grain._src.python.dataset.transformations import batch
from grain._src.python.dataset.transformations import interleave
from pyvc.harness import harness

NATIVE = "native exploration of drawn streams, settings and histories"


def parts(c, most=5, hi=5):
  """Datasets to interleave: iterators or random-access ones."""
  k = c.small("datasets", 1, most)
  out, streams = [], []
  for x in range(k):
    n = c.int(f"L{x}", 0, hi)
    s = c.stream(f"p{x}", n)
    s.none_rate = 0
    streams.append(s)
    if c.bool("map"):
      ds = AbsMapDataset(s, n)
      out.append(ds if n else AbsIterDataset(s))
    else:
      out.append(AbsIterDataset(s))
  return out, streams


def weave(c, ds, cycle):
  return interleave.InterleaveIterDataset(
      ds, cycle_length=cycle, num_make_iter_threads=c.small("threads", 0, 2),
      make_iter_buffer_size=c.small("mib", 1, 2), iter_buffer_size=c.small("ib", 1, 2))


def woven(streams, cycle):
  """The documented order: `cycle` streams in turn, an exhausted one replaced by
  the next in its place."""
  cycle = min(cycle, len(streams))
  slots = [None] * cycle
  nxt, at, out = 0, 0, []
  while True:
    if slots[at] is not None:
      s, pos = slots[at]
      if pos < s.n:
        out.append(s.get(pos))
        slots[at] = (s, pos + 1)
      else:
        slots[at] = None
      at = (at + 1) % cycle
    elif nxt < len(streams):
      slots[at] = (streams[nxt], 0)
      nxt += 1
    elif any(slots):
      at = (at + 1) % cycle
    else:
      return out


@harness("C12", sym=False, bounded=NATIVE, weight=2)
def interleave_order(c):
  """The elements of every dataset come out once each and in order, `cycle`
  datasets taking turns."""
  ds, streams = parts(c)
  cycle = c.int("cycle", 1, 6)
  it = c.own(weave(c, ds, cycle).__iter__())
  want = woven(streams, cycle)
  got = list(it)
  c.same(got, want, "interleaved-order")
  c.check(step(it) == ("stop",), "end-persists")


@harness("C12", sym=False, bounded=NATIVE)
def interleave_observed(c):
  """Asking for states and shard states while interleaving changes nothing."""
  ds, streams = parts(c)
  cycle = c.int("cycle", 1, 6)
  it = c.own(weave(c, ds, cycle).__iter__())
  got = []
  while True:
    k = c.pick("look", [0, 0, 1, 2])
    if k == 1:
      it.get_state()
    elif k == 2:
      it.get_shard_states()
    a = step(it)
    if a == ("stop",):
      break
    got.append(a[1])
  c.check(len(got) == sum(s.n for s in streams) and all(
      [g for g in got if g.t[0] == s.name] == [s.get(i) for i in range(s.n)]
      for s in streams), "each-once-in-order", f"{got}")
  c.same(got, woven(streams, cycle), "interleaved-order")
  it.close()


@harness("C10", sym=False, bounded=NATIVE, weight=2)
def ck_interleave(c):
  """Save/restore of interleaved datasets."""
  ds, _ = parts(c)
  checkpoint(c, weave(c, ds, c.int("cycle", 1, 6)))


@harness("C10", sym=False, bounded=NATIVE)
def ck2_interleave(c):
  """Save right after a restore of interleaved datasets."""
  ds, _ = parts(c)
  second_generation(c, weave(c, ds, c.int("cycle", 1, 6)))


@harness("C10", sym=False, bounded=NATIVE)
def iso_interleave(c):
  """Saved states of an interleave iterator are values."""
  ds, _ = parts(c)
  isolated(c, weave(c, ds, c.int("cycle", 1, 6)))


# -- elastic -----------------------------------------------------------------------
def drain(it):
  out = []
  while True:
    a = step(it)
    if a[0] != "v":
      return out
    out.append(a[1])


@harness("C20", sym=False, bounded=NATIVE)
def elastic_map(c):
  """However often the number of shards changes, the shards together read every
  whole global batch once, in order."""
  n = c.int("n", 0, 40)
  s = c.stream("p", n)
  s.none_rate = 0
  ds = AbsMapDataset(s, n)
  if n == 0:
    c.done()
  state, seen = None, []
  gb = None
  for _ in range(4):
    shards = c.int("shards", 1, 4)
    gb = shards * c.int("per", 1, 3)
    its = [elastic_iterator.ElasticIterator(
        ds, gb, sharding.ShardOptions(shard_index=k, shard_count=shards),
        read_options=options.ReadOptions(num_threads=0, prefetch_buffer_size=0))
           for k in range(shards)]
    if state is not None:
      for it in its:
        it.set_state(c.json(state))
    steps = c.int("steps", 0, 3)
    for _ in range(steps):
      if len(seen) + gb > n:
        break  # only whole global batches are promised
      rows = [step(it) for it in its]
      c.check(len({r[0] for r in rows}) == 1, "shards-end-together", f"{rows}")
      c.check(rows[0][0] == "v", "whole-batches-are-given", f"{rows}")
      batch = [None] * gb
      for k, r in enumerate(rows):
        c.check(len(r[1]) == gb // shards, "equal-share")
        batch[k::shards] = list(r[1])
      seen += batch
    states = [it.get_state() for it in its]
    c.check(all(x == states[0] for x in states), "shards-agree-on-the-state")
    state = states[0]
    for it in its:
      it.close()
  c.same(seen, [s.get(i) for i in range(len(seen))], "every-record-once-in-order")
  c.check(state["global_next_index"] == len(seen), "position")


@harness("C20", budget=200)
def elastic_shard(c):
  """From a saved position on, step t of a shard reads its share of the t-th
  whole global batch: with all shards together, every record of it once."""
  n = c.int("n", 1)
  s = c.stream("p", n)
  s.none_rate = 0
  k = c.int("shards", 1)
  i = c.index("i", 0, k)
  per = c.int("per", 1)
  gb = c.int("gb", 1) if c.symbolic else k * per
  c.assume(c.all(gb % k == 0, gb // k == per))
  at = c.index("at", 0, n + 1)
  whole = (n - at) // k // per  # global batches which are left
  mine = (n - at - i + k - 1) // k
  c.check(mine >= (n - at) // k, "share-of-the-rest")
  c.check(mine // per >= whole, "batches-of-the-rest")
  real = batch.make_batch
  batch.make_batch = agg = c.agg("B")
  try:
    it = elastic_iterator.ElasticIterator(
        AbsMapDataset(s, n), gb, sharding.ShardOptions(i, k),
        read_options=options.ReadOptions(num_threads=0, prefetch_buffer_size=0))
    it.set_state({"global_next_index": at})
    c.cover("restored")
    g = Ghost()
    g.pos = 0
    c.hint(lambda: it.base_iterator._global_next_index == at + g.pos * gb)
    while c.more():
      if g.pos >= whole:
        c.done()  # only whole global batches are promised
      a = step(it)
      j = at + i + g.pos * gb
      c.same(a, ("v", agg([s.get(j + x * k) for x in range(per)])), "share")
      g.pos = g.pos + 1
      c.same(it.get_state(), {"global_next_index": at + g.pos * gb}, "state")
  finally:
    batch.make_batch = real


def same(x):
  return x


@harness("C20", sym=False, bounded=NATIVE)
def elastic_interleave(c):
  """However often the number of hosts changes, together they read every element
  of every dataset once."""
  ds, streams = parts(c, most=5, hi=4)
  cycle = c.int("cycle", 1, 4)
  mapped = c.bool("mapped")
  seen = []
  states = None
  rounds = c.int("rounds", 1, 4)
  for rnd in range(rounds):
    hosts = c.int("hosts", 1, len(ds))
    per = c.int("per", 0, 3)  # 0: no batches
    whole = weave(c, ds, cycle)
    if mapped:
      whole = whole.map(same)
    nxt = {}
    for h in range(hosts):
      it = elastic_iterator.ElasticIterator(
          whole, per * hosts, sharding.ShardOptions(shard_index=h, shard_count=hosts),
          read_options=options.ReadOptions(num_threads=0, prefetch_buffer_size=0))
      if states is not None:
        it.set_shard_states({k: v for k, v in states.items() if k % hosts == h})
      if rnd == rounds - 1:
        for x in drain(it):
          seen += list(x) if per else [x]
      else:
        for _ in range(c.int("steps", 0, 8)):
          a = step(it)
          if a[0] != "v":
            break
          c.check(not per or 0 < len(a[1]) <= per, "batch-size")
          seen += list(a[1]) if per else [a[1]]
        nxt.update(it.get_shard_states())
      it.close()
    states = {int(k): v for k, v in c.json(nxt).items()}
  for x, s in enumerate(streams):
    got = [e for e in seen if e.t[0] == s.name]
    c.same(got, [s.get(i) for i in range(s.n)], "every-element-once")
