"""Callees replaced by their contract while their callers are verified.

Each stub is justified by a harness which verifies the real body against the
same contract (named in the third column); a name that is gone is not stubbed.
"""
import importlib


def _no_effect(self, passed):
  return None


def _nothing(self):
  return None


def _even_split(num_examples, options):
  """C01: an interval of [0, num_examples), a function of the arguments."""
  import z3
  from pyvc.engine import as_z3b, cur, i2z, mkint
  args = [i2z(num_examples), i2z(options.shard_index), i2z(options.shard_count),
          z3.If(as_z3b(options.drop_remainder), z3.IntVal(1), z3.IntVal(0))]
  lo, hi = (z3.Function(f, *[z3.IntSort()] * 5)(*args)
            for f in ("shard_start", "shard_end"))
  cur().axiom(z3.Implies(args[0] >= 0, z3.And(0 <= lo, lo <= hi, hi <= args[0])))
  return mkint(lo), mkint(hi)


STUBS = [
    ("grain._src.python.dataset.transformations.filter",
     "FilterThresholdChecker.check", _no_effect,
     "touches nothing but its own two counters; raises only if a raise "
     "threshold is set (harness filter_threshold)"),
    ("grain._src.core.sharding", "even_split", _even_split,
     "an interval within [0, n), a function of its arguments (property C01)"),
    ("grain._src.python.dataset.transformations.prefetch",
     "PrefetchDatasetIterator._measure_prefetch_depth", _nothing,
     "changes nothing (harness prefetch_measure)"),
]

# applied only where a harness asks for them
ON_DEMAND = {"even_split", "PrefetchDatasetIterator._measure_prefetch_depth"}


def apply(skip=()):
  """Returns the list of contracts used."""
  used = []
  for mod, qual, fn, text in STUBS:
    if qual in skip or (qual in ON_DEMAND and "+" + qual not in skip):
      continue
    try:
      m = importlib.import_module(mod)
      cls, _, name = qual.rpartition(".")
      c = getattr(m, cls) if cls else m
      getattr(c, name)
    except (ImportError, AttributeError):
      continue
    setattr(c, name, fn)
    used.append(f"{qual}: {text}")
  return used
