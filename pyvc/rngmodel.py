"""Symbolic mode: numpy's Philox generator as an explicit state machine.

Trusted: drawing is a function of the complete generator state; distinct seeds
give distinct keys (state["key"] holds the seed or, marked by -1, the key).
"""
import copy

import z3

from pyvc import rt
from pyvc.engine import SymElem, SymInt, U, cur, i2z, to_elem


class SymPhilox:

  def __init__(self, seed=None, *, key=None, counter=None):
    if counter is not None or (seed is not None and key is not None):
      raise rt.Unsupported("generator with a counter")
    tag = 0
    if key is not None:
      # the key itself, 128 bits; elsewhere a key derived from the seed
      if cur().branch(z3.Or(i2z(key) < 0, i2z(key) >= 2**128)):
        raise ValueError("key must be positive and at most 128 bits")
      seed, tag = key, -1
    if seed is None:
      raise rt.Unsupported("entropy-seeded generator")
    self._st = {
        "bit_generator": "Philox",
        "state": {"counter": rt.VList([0, 0, 0, 0]), "key": rt.VList([seed, tag])},
        "buffer": rt.VList([0, 0, 0, 0]),
        "buffer_pos": 4, "has_uint32": 0, "uinteger": 0,
    }

  @property
  def state(self):
    return copy.deepcopy(self._st)

  @state.setter
  def state(self, st):
    st = copy.deepcopy(st)
    for d, k in ((st["state"], "counter"), (st["state"], "key"), (st, "buffer")):
      if not isinstance(d[k], rt.VList):
        d[k] = rt.VList([int(x) if not isinstance(x, SymInt) else x for x in d[k]])
    self._st = st

  def flat(self):
    s = self._st
    return ([i2z(x) for x in list(s["state"]["key"])]
            + [i2z(x) for x in list(s["state"]["counter"])]
            + [i2z(x) for x in list(s["buffer"])]
            + [i2z(s[k]) for k in ("buffer_pos", "has_uint32", "uinteger")])


class SymGenerator:

  def __init__(self, bit_generator):
    self.bit_generator = bit_generator

  def consume(self):
    """An arbitrary number of draws: everything but the key changes."""
    e = cur()
    s = self.bit_generator._st
    for k in range(4):
      s["state"]["counter"][k] = SymInt(e.fresh("ctr"))
      s["buffer"][k] = SymInt(e.fresh("buf"))
    for k in ("buffer_pos", "has_uint32", "uinteger"):
      s[k] = SymInt(e.fresh(k))


def default_rng(seed=None):
  return SymGenerator(SymPhilox(seed))


def rngfn(name):
  F = z3.Function(name, *([U] + [z3.IntSort()] * 13 + [U]))

  def f(x, rng):
    r = SymElem(F(to_elem(x), *rng.bit_generator.flat()))
    rng.consume()
    return r
  f.__name__ = f.__qualname__ = name
  return f


def install():
  import numpy as np
  np.random.Philox = SymPhilox
  np.random.Generator = SymGenerator
