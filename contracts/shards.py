"""C01: even sharding."""
from pyvc.harness import harness
from grain._src.core import sharding


def _split(n, i, k, drop):
  return sharding.even_split(n, sharding.ShardOptions(
      shard_index=i, shard_count=k, drop_remainder=drop))


@harness("C01")
def even_split_interval(c):
  """even_split: in range, sizes differ by at most one, exact sizes."""
  n = c.int("n", 0, big=True)
  k = c.int("k", 1)
  i = c.index("i", 0, k)
  drop = c.bool("drop")
  s, e = _split(n, i, k, drop)
  c.cover("split")
  c.check(c.all(0 <= s, s <= e, e <= n), "interval-in-range")
  if drop:
    c.check(e - s == n // k, "equal-size-with-drop-remainder")
  else:
    c.check(c.all(e - s >= n // k, e - s <= n // k + 1), "size-within-one")
    c.check(c.implies(i < n % k, e - s == n // k + 1), "first-shards-take-the-remainder")
    c.check(c.implies(i >= n % k, e - s == n // k), "other-shards-take-the-quotient")


@harness("C01")
def even_split_adjacent(c):
  """even_split: shards are consecutive, start at 0 and end at n (n - n % k
  when the remainder is dropped): pairwise disjoint and jointly exhaustive."""
  n = c.int("n", 0, big=True)
  k = c.int("k", 1)
  i = c.index("i", 0, k)
  drop = c.bool("drop")
  s, e = _split(n, i, k, drop)
  c.cover("split")
  s0, _ = _split(n, 0, k, drop)
  c.check(s0 == 0, "first-starts-at-zero")
  _, elast = _split(n, k - 1, k, drop)
  if drop:
    c.check(elast == n - n % k, "last-ends-at-multiple")
  else:
    c.check(elast == n, "last-ends-at-n")
  if i + 1 < k:
    s2, _ = _split(n, i + 1, k, drop)
    c.check(s2 == e, "adjacent")
  x = c.index("x", 0, None)
  j = c.index("j", 0, k)
  if x < n and s <= x and x < e and j != i:
    sj, ej = _split(n, j, k, drop)
    c.check(c.any(x < sj, x >= ej), "disjoint")


@harness("C01")
def shard_options_reject_invalid(c):
  """ShardOptions refuses an index outside of the shard count."""
  k = c.int("k")
  i = c.int("i")
  ok = True
  try:
    sharding.ShardOptions(shard_index=i, shard_count=k)
  except ValueError:
    ok = False
  c.cover("constructed")
  c.check(c.iff(ok, c.all(k > 0, i >= 0, i < k)), "accepts-exactly-valid")
