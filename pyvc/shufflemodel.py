"""Symbolic mode: the native index shuffle by its contract (property C02).

Precondition (checked as an obligation at every call): 0 <= index <= max_index
< 2**63, 32-bit seed, an even number of rounds in [4, 1024].  Postcondition: 0 <= result <= max_index, and
for equal (max_index, seed, rounds) equal results exactly for equal indices.
"""
import z3

from pyvc.engine import SymInt, cur, i2z, mkint

P = z3.Function("index_shuffle", *([z3.IntSort()] * 5))


def index_shuffle(index, max_index, seed, rounds):
  e = cur()
  i, m, s, r = map(i2z, (index, max_index, seed, rounds))
  e.check(z3.And(i >= 0, i <= m, m < 2**63, s >= 0, s < 2**32,
                 r >= 4, r <= 1024, r % 2 == 0), "index-shuffle-precondition")
  v = P(i, m, s, r)
  e.axiom(z3.Implies(z3.And(i >= 0, i <= m), z3.And(v >= 0, v <= m)))
  apps = e.memo.setdefault("index_shuffle", [])
  for (i2, m2, s2, r2) in apps:
    e.axiom(z3.Implies(
        z3.And(m == m2, s == s2, r == r2, i >= 0, i <= m, i2 >= 0, i2 <= m2),
        (v == P(i2, m2, s2, r2)) == (i == i2)))
  if not any(z3.eq(i, a) and z3.eq(m, b) and z3.eq(s, c) for a, b, c, _ in apps):
    apps.append((i, m, s, r))
  return mkint(v)


def term(index, max_index, seed, rounds):
  """The result as a term, without obligations or facts (for invariants)."""
  return SymInt(P(*map(i2z, (index, max_index, seed, rounds))))


def install():
  from grain._src.python.experimental.index_shuffle.python import (
      index_shuffle_module)
  index_shuffle_module.index_shuffle = index_shuffle
