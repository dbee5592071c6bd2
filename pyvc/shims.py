"""Trusted replacements, symbolic mode only: logging has no effect."""


def install():
  from absl import logging
  noop = lambda *a, **k: None
  for n in ("log", "debug", "info", "warning", "warn", "error", "exception",
            "log_every_n", "log_every_n_seconds", "log_first_n", "log_if", "vlog"):
    if hasattr(logging, n):
      setattr(logging, n, noop)
  from pyvc import rngmodel, shufflemodel
  rngmodel.install()
  shufflemodel.install()
  from grain._src.core import monitoring
  monitoring.record_bytes_read_and_latency = noop
  for n in ("Counter", "Metric", "EventMetric"):
    cls = getattr(monitoring, n, None)
    for m in ("Increment", "IncrementBy", "Set", "Record"):
      if hasattr(cls, m):
        setattr(cls, m, noop)
  from grain._src.core import tree_lib
  tree_lib.estimate_byte_size = lambda *a, **k: 0
  import jax
  from pyvc import rt

  def flat(x):
    if x._s is not None:
      raise rt.Unsupported("pytree functions on a list of symbolic length")
    return list(list.__iter__(x)), None
  jax.tree_util.register_pytree_with_keys(
      rt.VList,
      lambda x: ([(jax.tree_util.SequenceKey(i), v) for i, v in enumerate(flat(x)[0])], None),
      lambda _, xs: rt.VList(xs), flat)
  from grain._src.python.dataset import stats

  class Timer:
    """Measures nothing (times are not part of any contract)."""

    def __enter__(self):
      return None

    def __exit__(self, *a):
      return None

    def value(self):
      return 0

    def reset(self):
      return None
  stats.Timer = Timer
