"""The two interpretations of a contract harness.

A harness is a Python function `h(c)`.  `SymCtx` gives its inputs symbolic
values (the proof); `ConcCtx` draws concrete values from a seed and runs the
same text, with the same assertions, natively against the unmodified modules
(failing-input search and run-time cross-check).
"""
from __future__ import annotations

import json
import random
import zlib

import z3

from pyvc import engine as en
from pyvc import rt
from pyvc.engine import (NONE, PathDone, SymBool, SymElem, SymInt, SymReal, U,
                         Unsupported, as_z3b, cur, i2z, is_int, mkbool, mkint,
                         to_elem)


class Violation(Exception):

  def __init__(self, label, detail=""):
    super().__init__(f"{label}: {detail}")
    self.label, self.detail = label, detail


class Discard(Exception):
  """The drawn input does not satisfy the precondition."""


class Elem:
  """Opaque concrete element."""
  __slots__ = ("t",)

  def __init__(self, *t):
    self.t = t

  def __eq__(self, o):
    return isinstance(o, Elem) and self.t == o.t

  def __hash__(self):
    return hash(self.t)

  def __repr__(self):
    return "E" + repr(self.t)

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self


class Parts:
  """An uninterpreted function application on structured arguments."""

  def __init__(self, name, *args):
    self.name, self.args = name, args

  def __repr__(self):
    return f"{self.name}{self.args!r}"

  def __eq__(self, o):
    return isinstance(o, Parts) and self.name == o.name and conc_same(self.args, o.args)

  __hash__ = None


def conc_same(a, b):
  import numpy as np
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(conc_same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict) and isinstance(b, dict):
    return a.keys() == b.keys() and all(conc_same(a[k], b[k]) for k in a)
  if isinstance(a, Parts) and isinstance(b, Parts):
    return a.name == b.name and conc_same(a.args, b.args)
  if a is None or b is None:
    return a is b
  return type(a) is type(b) and a == b or (is_num(a) and is_num(b) and a == b)


def is_num(x):
  import numbers
  return isinstance(x, numbers.Number)


# --------------------------------------------------------------------------
class SymCtx:
  symbolic = True

  def __init__(self):
    self.names = {}

  def own(self, *its):
    return its if len(its) != 1 else its[0]

  # -- inputs ---------------------------------------------------------------------
  def int(self, name, lo=None, hi=None, big=False):
    e = cur()
    v = z3.Int(name)
    if lo is not None:
      e.assume(v >= i2z(lo))
    if hi is not None:
      e.assume(v <= i2z(hi))
    e.params.append(v)
    return SymInt(v)

  def index(self, name, lo=0, hi=None):
    """An arbitrary index; not part of the invariant vocabulary."""
    e = cur()
    v = z3.Int(name)
    if lo is not None:
      e.assume(v >= i2z(lo))
    if hi is not None:
      e.assume(v < i2z(hi))
    return SymInt(v)

  def fresh(self, name, lo, hi):
    """Another integer lo <= v < hi at every call."""
    e = cur()
    v = e.fresh(name)
    e.assume(v >= i2z(lo))
    e.assume(v < i2z(hi))
    return SymInt(v)

  def setting(self, name, lo=0):
    """Any integer; invariants do not relate positions to it."""
    v = self.index(name, lo)
    cur().plain.add(v.e.sexpr())
    return v

  def intlist(self, name, n, lo=None, hi=None):
    """An arbitrary list of n integers in [lo, hi)."""
    F = z3.Function(name, z3.IntSort(), z3.IntSort())
    e = cur()

    def f(k):
      v = F(i2z(k))
      if lo is not None:
        e.axiom(v >= i2z(lo))
      if hi is not None:
        e.axiom(v < i2z(hi))
      return SymInt(v)
    return rt.from_seq(rt.SymSeq(i2z(n), f, "int"))

  def bool(self, name=None):
    return cur().choose(2) == 1

  def pick(self, name, options):
    return options[cur().choose(len(options))]

  def real(self, name, lo=None):
    e = cur()
    v = z3.Real(name)
    if lo is not None:
      e.assume(v >= lo)
    return SymReal(v)

  def small(self, name, lo, hi):
    """A structural size: enumerated, i.e. bounded."""
    return lo + cur().choose(hi - lo + 1)

  def more(self):
    return cur().choose(2) == 0

  # -- abstract collaborators ---------------------------------------------------
  def stream(self, name, n=None):
    return SymStream(self, name, n)

  def fn(self, name):
    F = z3.Function(name, U, U)

    def f(x):
      return SymElem(F(_arg(x)))
    f.__name__ = f.__qualname__ = name
    return f

  def ifn(self, name):
    """(index, element) -> element"""
    F = z3.Function(name, z3.IntSort(), U, U)

    def f(i, x):
      return SymElem(F(i2z(i), _arg(x)))
    f.__name__ = f.__qualname__ = name
    return f

  def pred(self, name, track=False):
    P = z3.Function(name, U, z3.BoolSort())
    if track:
      cur().preds.append(P)

    def p(x):
      return SymBool(P(_arg(x)))
    p.__name__ = p.__qualname__ = name
    return p

  def track(self, name, fn):
    """Adds the predicate `fn` on elements to the invariant vocabulary."""
    cur().preds.append(Tracked(name, fn))

  def intfn(self, name, lo=None, hi=None):
    """element -> int"""
    P = z3.Function(name, U, z3.IntSort())

    def p(x):
      v = P(_arg(x))
      if lo is not None:
        cur().axiom(v >= i2z(lo))
      if hi is not None:
        cur().axiom(v <= i2z(hi))
      return SymInt(v)
    p.__name__ = p.__qualname__ = name
    return p

  def rngfn(self, name):
    """(element, generator) -> element, drawing from the generator."""
    from pyvc import rngmodel
    return rngmodel.rngfn(name)

  def rng_identity(self, rng):
    return rng.bit_generator.flat()

  def same_rng(self, a, b):
    return mkbool(z3.And(*[x == y for x, y in zip(a, b)]))

  def agg(self, name):
    """A function of a sequence of elements (snapshots its argument)."""
    def f(xs):
      return Parts(name, snap_seq(xs))
    f.__name__ = f.__qualname__ = name
    return f

  # -- logic ------------------------------------------------------------------------
  def assume(self, cond):
    e = cur()
    if cond is True:
      return
    if cond is False:
      e.ended = True
      raise PathDone()
    e.assume(as_z3b(cond))
    if not e.replaying and e._sat() == z3.unsat:
      e.ended = True
      raise PathDone()

  def check(self, cond, label, detail=""):
    cur().check(as_z3b(cond), label)

  def fail(self, label, detail=""):
    cur().check(z3.BoolVal(False), label)

  def cover(self, label):
    cur().cover(label)

  def same(self, a, b, label):
    check_same(self, a, b, label)

  def same_state(self, a, b, label):
    """Ends the path if the two objects are in provably the same state."""
    if not rt.same_heap(a, b):
      return
    e = cur()
    if e.checking and not e.replaying:
      ob = e.obs.setdefault(label, en.Ob())
      ob.n += 1
      ob.ok += 1
      ob.backends["z3"] = ob.backends.get("z3", 0) + 1
    self.done()

  def snap(self, x):
    import copy
    return copy.deepcopy(x)

  def json(self, x):
    return jsonify(x)

  def forall(self, n, body, label):
    """Checks body(k) for an arbitrary 0 <= k < n."""
    e = cur()
    if e.choose(2) == 1:
      k = e.fresh("k")
      e.assume(z3.And(k >= 0, k < i2z(n)))
      if not e.replaying and e._sat() == z3.unsat:
        raise PathDone()
      body(SymInt(k), lambda cond, lab=label: self.check(cond, lab))
      e.ended = True
      raise PathDone()

  def all(self, *cs):
    return mkbool(z3.And(*[as_z3b(c) for c in cs]))

  def any(self, *cs):
    return mkbool(z3.Or(*[as_z3b(c) for c in cs]))

  def iff(self, a, b):
    return mkbool(as_z3b(a) == as_z3b(b))

  def neg(self, a):
    return mkbool(z3.Not(as_z3b(a)))

  def implies(self, a, b):
    return mkbool(z3.Implies(as_z3b(a), as_z3b(b)))

  def ite(self, c, a, b):
    c = as_z3b(c)
    if is_int(a) and is_int(b):
      return mkint(z3.If(c, i2z(a), i2z(b)))
    return SymElem(z3.If(c, _arg(a), _arg(b)))

  def is_none(self, x):
    return rt.is_none(x)

  def absent(self, x):
    """`is_none` as a formula, without a case split."""
    return SymBool(to_elem(x) == NONE)

  def done(self):
    cur().ended = True
    raise PathDone()

  def hint(self, fn):
    """Annotates an invariant: `fn()` is proved and assumed at loop heads where
    it holds, and dropped where it does not."""
    cur().hints.append(fn)

  def unroll(self, n):
    """While loops are followed for n rounds before they are cut."""
    cur().unroll = n

  def every(self, n, fn):
    """For a hint: fn(k) for all 0 <= k < n."""
    k = z3.Int("k!b")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i2z(n)),
                                     as_z3b(fn(SymInt(k)))))

  def at(self, xs, k):
    """For a hint: xs[k] for an index in range."""
    s = rt.seq_of(xs)
    return s.f(i2z(k))

  def sequence(self, fn):
    """Candidate invariant: the element at k of a list is fn(k)."""
    cur().seqdefs.append(fn)

  def loose(self, xs, kind="int"):
    """The length of the list is a symbol from the start."""
    if isinstance(xs, rt.VList):
      xs.symbolize(kind)

  def template(self, name, t):
    """t(a, b): candidate invariant over two integer terms (z3)."""
    cur().templates.append((name, t))


def _arg(x):
  z = to_elem(x)
  if z is not None:
    return z
  if is_int(x):
    F = z3.Function("elem_of_int", z3.IntSort(), U)
    return F(i2z(x))
  raise Unsupported(f"opaque function applied to a {type(x).__name__}")


def snap_seq(xs):
  if rt.is_symbolic_iter(xs):
    return rt.from_seq(rt.seq_of(xs))
  return rt.VList(list(xs))


class Tracked:

  def __init__(self, name, fn):
    self._name, self.fn = name, fn

  def name(self):
    return self._name

  def __call__(self, z):
    return as_z3b(self.fn(SymElem(z)))


class SymStream:
  """Uninterpreted sequence of elements, length n (None: unbounded)."""

  def __init__(self, c, name, n):
    self.name = name
    self.F = z3.Function(name, z3.IntSort(), U)
    self.n = n
    cur().funcs.append(self.F)

  def get(self, i):
    return SymElem(self.F(i2z(i)))

  def __deepcopy__(self, memo):
    return self


def jsonify(x):
  """What json.loads(json.dumps(x)) returns, for values holding proxies."""
  t = type(x)
  if x is None or t in (bool, str, float, int, SymInt, SymReal):
    return x
  if t is SymBool:
    return bool(x)
  if isinstance(x, rt.VList) and x._s is not None:
    if x._s.kind not in ("int", None):
      raise TypeError("Object is not JSON serializable")
    return rt.from_seq(x._s)
  if isinstance(x, (list, tuple)):
    return rt.VList([jsonify(v) for v in list.__iter__(x)] if isinstance(x, list)
                    else [jsonify(v) for v in x])
  if isinstance(x, dict):
    r = {}
    for k, v in x.items():
      if isinstance(k, bool) or k is None:
        k = json.dumps(k)
      elif isinstance(k, int):
        k = str(cur().concretize(k.e)) if type(k) is SymInt else str(k)
      elif not isinstance(k, str):
        raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
      r[k] = jsonify(v)
    return r
  raise TypeError(f"Object of type {t.__name__} is not JSON serializable")


def check_same(c, a, b, label):
  e = cur()
  ta, tb = type(a), type(b)
  if ta is SymElem or tb is SymElem:
    za, zb = to_elem(a), to_elem(b)
    if za is None or zb is None:
      c.fail(label)
      return
    c.check(mkbool(za == zb), label)
    return
  if isinstance(a, Parts) and isinstance(b, Parts):
    if a.name != b.name or len(a.args) != len(b.args):
      c.fail(label)
      return
    for x, y in zip(a.args, b.args):
      check_same(c, x, y, label)
    return
  if rt.is_symbolic_iter(a) or rt.is_symbolic_iter(b):
    if not isinstance(a, (list, tuple, range, rt.LazyIter)) or not isinstance(
        b, (list, tuple, range, rt.LazyIter)):
      c.fail(label)
      return
    sa, sb = rt.seq_of(a), rt.seq_of(b)
    c.check(mkbool(sa.n == sb.n), label)
    c.forall(mkint(sa.n), lambda k, ok: check_same(c, sa.f(k.e), sb.f(k.e), label), label)
    return
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    la, lb = list(a), list(b)
    if len(la) != len(lb):
      c.fail(label)
      return
    for x, y in zip(la, lb):
      check_same(c, x, y, label)
    return
  if isinstance(a, dict) and isinstance(b, dict):
    if a.keys() != b.keys():
      c.fail(label)
      return
    for k in a:
      check_same(c, a[k], b[k], label)
    return
  if hasattr(a, "vc_same"):
    a.vc_same(c, b, label)
    return
  if a is None or b is None:
    c.check(a is b, label)
    return
  r = a == b
  if not isinstance(r, (bool, SymBool)):
    r = bool(r)
  c.check(r, label)


# --------------------------------------------------------------------------
class ConcCtx:
  symbolic = False

  def __init__(self, seed, size=6, fixed=None):
    self.rng = random.Random(seed)
    self.seed = seed
    self.size = size
    self.fixed = fixed or {}
    self.trace = []
    self.checks = 0
    self.steps = 0
    self.owned = []
    self.near = []
    self.salt = self.rng.randrange(1 << 30)

  def _log(self, name, v):
    self.trace.append((name, v))
    return v

  def own(self, *its):
    """Iterators to close when the run is over, so that their threads end."""
    self.owned.extend(its)
    return its if len(its) != 1 else its[0]

  def release(self):
    for it in self.owned:
      try:
        it.close()
      except Exception:  # pylint: disable=broad-except
        pass
    self.owned = []

  def int(self, name, lo=None, hi=None, big=False):
    if big and hi is None and self.rng.random() < 0.3:
      return self._log(name, max(lo or 0, (1 << self.rng.choice([16, 31, 32, 53, 54, 60]))
                                 + self.rng.randint(-5, 5)))
    if name in self.fixed:
      v = self.fixed[name]
      if (lo is not None and v < lo) or (hi is not None and v > hi):
        raise Discard()
      return self._log(name, v)
    a = lo if lo is not None else -self.size
    b = hi if hi is not None else (max(a, 0) + self.size)
    b = min(b, max(a, 0) + 3 * self.size)
    if b < a:
      raise Discard()
    return self._log(name, self.rng.randint(a, b))

  def index(self, name, lo=0, hi=None):
    if lo is None:
      lo = -3 * self.size
    if hi is not None and hi <= lo:
      raise Discard()
    b = (hi - 1) if hi is not None else max(lo, 0) + 4 * self.size
    v = self.rng.randint(lo, b)
    if b - lo > 64 * self.size:
      # Ends of the range and indices related to the ones drawn before are as
      # interesting as the many in between.
      how = self.rng.random()
      if how < 0.25:
        v = lo + self.rng.randint(0, 4 * self.size)
      elif how < 0.3:
        v = b - self.rng.randint(0, self.size)
      elif how < 0.6 and self.near:
        v = self.rng.choice(self.near) + self.rng.choice(
            [1, -1]) * self.rng.choice([1, 2, 1 << 16, 1 << 31, 1 << 32, 1 << 33])
        v = min(max(v, lo), b)
      self.near.append(v)
    return self._log(name, v)

  def fresh(self, name, lo, hi):
    if hi <= lo:
      raise Discard()
    return self.int(name, lo, hi - 1)

  def setting(self, name, lo=0):
    return self.int(name, lo)

  def intlist(self, name, n, lo=None, hi=None):
    lst = [self.index(name, lo, hi) for _ in range(n)]
    how = self.rng.random()
    if how < 0.3 and n > 1 and (hi is None or lst[0] + n <= hi):
      lst = list(range(lst[0], lst[0] + n))  # A run, or one in another order.
      if how < 0.2:
        lst[1:-1] = self.rng.sample(lst[1:-1], n - 2)
    return lst

  def bool(self, name=None):
    return self._log(name or "bool", self.rng.random() < 0.5)

  def pick(self, name, options):
    i = self.rng.randrange(len(options))
    self._log(name, i)
    return options[i]

  def real(self, name, lo=None):
    return self._log(name, (lo or 0) + self.rng.choice([0.0, 0.1, 0.25, 0.5, 1.0, 2.0, 3.0, 0.3, 7.0]))

  def small(self, name, lo, hi):
    return self._log(name, self.rng.randint(lo, hi))

  def more(self):
    self.steps += 1
    if self.steps > 40 * self.size:
      return False
    return self.rng.random() < self.cont

  @property
  def cont(self):
    if not hasattr(self, "_cont"):
      self._cont = self.rng.choice([0.3, 0.6, 0.8, 0.9, 0.95])
    return self._cont

  def stream(self, name, n=None):
    return ConcStream(self, name, n)

  def _h(self, *a):
    return zlib.crc32(repr((self.salt,) + a).encode())

  def fn(self, name):
    return lambda x: Elem(name, x)

  def ifn(self, name):
    return lambda i, x: Elem(name, i, x)

  def pred(self, name, track=False):
    d = self.rng.choice([2, 2, 3, 4])
    return lambda x: self._h(name, x) % d != 0

  def intfn(self, name, lo=None, hi=None):
    a = lo if lo is not None else -self.size

    def f(x):
      b = hi if hi is not None else a + self.size
      return a + self._h(name, x) % (b - a + 1)
    return f

  def rngfn(self, name):
    def f(x, rng):
      r = Elem(name, x, int(rng.integers(1 << 60)), int(rng.integers(1 << 31)))
      for _ in range(self._h(x) % 3):
        rng.integers(7, dtype="uint32")
        rng.normal()
      return r
    return f

  def rng_identity(self, rng):
    return tuple(int(x) for x in rng.integers(0, 1 << 62, size=4))

  def same_rng(self, a, b):
    return a == b

  def agg(self, name):
    return lambda xs: Parts(name, list(xs))

  def assume(self, cond):
    if not cond:
      raise Discard()

  def check(self, cond, label, detail=""):
    self.checks += 1
    if not cond:
      raise Violation(label, detail)

  def fail(self, label, detail=""):
    raise Violation(label, detail)

  def cover(self, label):
    pass

  def same(self, a, b, label):
    self.checks += 1
    if not conc_same(a, b):
      raise Violation(label, f"{a!r:.600} != {b!r:.600}")

  def same_state(self, a, b, label):
    pass

  def snap(self, x):
    import copy
    return copy.deepcopy(x)

  def json(self, x):
    return json.loads(json.dumps(x))

  def forall(self, n, body, label):
    for k in range(n):
      body(k, lambda cond, lab=label: self.check(cond, lab, f"at {k}"))

  def hint(self, fn):
    pass

  def unroll(self, n):
    pass

  def track(self, name, fn):
    pass

  def all(self, *cs):
    return all(cs)

  def any(self, *cs):
    return any(cs)

  def iff(self, a, b):
    return bool(a) == bool(b)

  def neg(self, a):
    return not a

  def implies(self, a, b):
    return (not a) or bool(b)

  def ite(self, c, a, b):
    return a if c else b

  def absent(self, x):
    return x is None

  def is_none(self, x):
    return x is None

  def done(self):
    raise Discard()

  def sequence(self, fn):
    pass

  def loose(self, xs, kind="int"):
    pass

  def template(self, name, t):
    pass


class ConcStream:

  def __init__(self, c, name, n):
    self.c, self.name, self.n = c, name, n
    self.none_rate = c.rng.choice([0, 0, 3])

  def get(self, i):
    if self.none_rate and self.c._h("none", self.name, i) % self.none_rate == 0:
      return None
    return Elem(self.name, i)

  def __deepcopy__(self, memo):
    return self
