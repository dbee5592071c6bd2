"""C11: batches of arrays, and arrays handed to other processes."""
import pickle

from grain._src.python.dataset.transformations import batch
from grain._src.python.ipc import shared_memory_array as shm
import numpy as np
from pyvc.harness import harness

NATIVE = "drawn structures, types, shapes and values"
NUMBERS = ["bool", "int8", "uint8", "int32", "int64", "float32", "float64"]


def array(c, dtype, shape):
  size = int(np.prod(shape))
  base = np.arange(size) * 37 + c.small("value", 0, 200)
  if dtype in ("str", "bytes"):
    flat = np.array([("s" if dtype == "str" else b"s") * (int(x) % 5) for x in base],
                    dtype="U" if dtype == "str" else "S")
  elif dtype == "int64":
    flat = base.astype(dtype) * 2**33 + 1
  elif dtype.startswith("float"):
    flat = base.astype(dtype) + 0.5
  else:
    flat = base.astype(dtype)
  return flat.reshape(shape)


def columns(c):
  """The types and shapes of the leaves of an element."""
  out = []
  for _ in range(c.small("leaves", 1, 3)):
    out.append((c.pick("dtype", NUMBERS + ["str", "bytes"]),
                c.pick("shape", [(), (), (0,), (2,), (2, 3), (1,)])))
  return out


def build(leaves, form):
  if form == 0:
    return {f"k{i}": x for i, x in enumerate(leaves)}
  if form == 1:
    return tuple(leaves)
  return {"a": leaves[0], "b": {"c": tuple(leaves[1:])}}


def leaves_of(x):
  if isinstance(x, dict):
    return [y for k in sorted(x) for y in leaves_of(x[k])]
  if isinstance(x, (tuple, list)):
    return [y for z in x for y in leaves_of(z)]
  return [x]


def equal(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))


def discard(x):
  """Shared memory of the arrays which own some is given back with them."""
  for y in leaves_of(x):
    if isinstance(y, shm.SharedMemoryArray) and y.shm is not None:
      y.unlink_on_del()


def batcher(c):
  how = c.pick("how", ["plain", "shared", "parallel", "parallel-shared"])
  if how == "plain":
    return batch.make_batch
  if how == "shared":
    return lambda xs: batch.make_batch(xs, output_to_shared_memory=True)
  par = batch._MakeBatchParallel()  # pylint: disable=protected-access
  if how == "parallel-shared":
    par.enable_shared_memory_output()
  return par


def always_parallel(fn):
  """Small batches are stacked in parallel, too."""
  name = "_PARALLEL_BATCHING_MIN_TOTAL_BYTES"
  old = getattr(batch, name, None)
  if old is not None:
    setattr(batch, name, 1)
  try:
    return fn()
  finally:
    if old is not None:
      setattr(batch, name, old)


@harness("C11", sym=False, bounded=NATIVE)
def batch_arrays(c):
  """A batch holds its elements, leaf by leaf, in the type which holds all of
  them, wherever and however it is made."""
  cols, form, k = columns(c), c.small("form", 0, 2), c.small("k", 1, 5)
  odd = c.pick("odd", ["none", "none", "type", "shape"]) if k > 1 else "none"
  rows = [[array(c, d, s) for d, s in cols] for _ in range(k)]
  at = c.small("at", 0, k - 1)
  if odd == "type" and cols[0][0] in NUMBERS:
    rows[at][0] = array(c, c.pick("other", NUMBERS), cols[0][1])
  elif odd == "shape":
    rows[at][0] = array(c, cols[0][0], cols[0][1] + (1,))
  if c.bool("scalars"):
    rows = [[x[()] if x.ndim == 0 else x for x in r] for r in rows]
  make = batcher(c)
  values = [build(r, form) for r in rows]
  refused, error = False, None
  try:
    got = always_parallel(lambda: make(values))
  except ValueError as e:
    refused, error = True, e.__cause__ or e
  c.check(refused == (odd == "shape"), "only-different-shapes-refused", f"{error}")
  if refused:
    return
  want = leaves_of(build([np.stack(list(xs)) for xs in zip(*rows)], form))
  have = leaves_of(got)
  discard(got)
  c.check(len(have) == len(want) and all(map(equal, have, want)),
          "holds-the-elements", f"{have!r:.200} {want!r:.200}")


@harness("C11", sym=False, bounded=NATIVE, weight=0.5)
def batch_padded(c):
  """A padded batch holds its elements and then only padding."""
  cols, form = columns(c), c.small("form", 0, 2)
  cols = [(d if d in NUMBERS else "int32", s) for d, s in cols]
  size = c.small("size", 1, 5)
  k = c.small("k", 1, 6)
  rows = [[array(c, d, s) for d, s in cols] for _ in range(k)]
  pad = c.small("pad", 0, 1)
  refused = False
  try:
    got = batch.batch_and_pad([build(r, form) for r in rows], batch_size=size,
                              pad_value=pad)
  except ValueError:
    refused = True
  c.check(refused == (k > size), "only-too-many-refused")
  if refused:
    return
  want = []
  for xs in zip(*rows):
    x = np.stack(xs)
    want.append(np.concatenate([x, np.full((size - k,) + x.shape[1:], pad, x.dtype)]))
  c.check(all(map(equal, leaves_of(got), leaves_of(build(want, form)))), "padded")


@harness("C11", sym=False, bounded=NATIVE)
def arrays_handed_over(c):
  """What is handed over in shared memory, or pickled, arrives as it was sent,
  views of shared arrays included."""
  owners = []
  leaves = []
  for d, s in columns(c):
    x = array(c, d, s)
    if c.bool("shared") and x.nbytes:
      y = shm.SharedMemoryArray(x.shape, dtype=x.dtype)
      np.copyto(y, x)
      owners.append(y)
      x = y
    view = c.pick("view", ["whole", "whole", "part", "turned", "reversed", "flat", "grown"])
    if x.ndim:
      x = {"whole": x, "part": x[1:], "turned": x.T, "reversed": x[::-1],
           "flat": x.reshape(-1), "grown": x[None]}[view]
    leaves.append(x)
  x = build(leaves, c.small("form", 0, 2))
  want = [np.array(y) for y in leaves_of(x)]
  if c.bool("pickled"):
    got = pickle.loads(pickle.dumps(x))
    have = [np.array(y) for y in leaves_of(got)]
    discard(owners)
  else:
    got = shm.open_from_shm(shm.copy_to_shm(x, min_size=c.pick("min", [0, 0, 16, 64])))
    have = [np.array(y) for y in leaves_of(got)]
    # Whole shared arrays are given back by the receiver, the others here.
    sent = {id(y) for y in leaves_of(x)}
    discard([y for y in owners if id(y) not in sent])
  c.check(len(have) == len(want) and all(map(equal, have, want)), "arrives-as-sent",
          f"{have!r:.300} {want!r:.300}")
