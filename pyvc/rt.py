"""Run-time support called by the instrumented code (see instrument.py)."""
from __future__ import annotations

import builtins
import collections
import enum
import functools
import itertools
import math
import os
import re
import sys
import types

import numpy as np
import z3

from pyvc import engine as en_mod
from pyvc.engine import (NONE, PathDone, Restart, Sym, SymBool, SymElem, SymInt,
                         SymReal, ToolLimit, U, Unsupported, as_z3b, cur, i2z,
                         fround, is_int, is_none, mkbool, mkint, to_elem, toreal)

_KINDS = {"int": z3.IntSort(), "elem": U}


def active():
  return en_mod.E is not None and not en_mod.E.ended


# --------------------------------------------------------------------------
# Symbolic sequences
# --------------------------------------------------------------------------
class SymSeq:
  """An immutable sequence of symbolic length: length `n`, items `f(k)`."""
  __slots__ = ("n", "f", "kind", "sig", "born")

  def __init__(self, n, f, kind, sig=None):
    self.n, self.f, self.kind = n, f, kind
    self.sig = sig
    self.born = next(cur().counter) if kind not in _KINDS and active() else 0

  def signature(self):
    if self.sig is None:
      if self.kind in _KINDS:
        k = z3.Int("k!sig")
        v = self.f(k)
        z = val2z(v, self.kind)
        self.sig = (self.n.sexpr(), z.sexpr())
      else:
        self.sig = ("born", self.born)
    return self.sig


def val2z(v, kind):
  if kind == "int":
    return i2z(v)
  if kind == "elem":
    return to_elem(v)
  return None


def z2val(e, kind):
  return mkint(e) if kind == "int" else SymElem(e)


class VList(list):
  """A list which may be switched to symbolic length (in place)."""

  _s = None

  def __deepcopy__(self, memo):
    import copy
    if self._s is not None:
      r = VList()
      r._s = self._s
      memo[id(self)] = r
      return r
    r = VList()
    memo[id(self)] = r
    list.extend(r, [copy.deepcopy(x, memo) for x in list.__iter__(self)])
    return r

  def symbolize(self, kind=None):
    if self._s is not None:
      return
    items = list(list.__iter__(self))
    if kind is None:
      kind = seq_kind(items)
    if kind is None and items:
      raise Unsupported("list of mixed values grows without bound")
    zs = [val2z(v, kind) for v in items]
    if any(z is None for z in zs):
      raise Unsupported("list of mixed values grows without bound")

    def f(k, zs=zs, kind=kind):
      if not zs:
        e = z3.FreshConst(_KINDS[kind or "elem"], "nil")
        return z2val(e, kind or "elem")
      e = zs[-1]
      for i in range(len(zs) - 2, -1, -1):
        e = z3.If(k == i, zs[i], e)
      return z2val(e, kind)

    list.clear(self)
    self._s = SymSeq(z3.IntVal(len(items)), f, kind,
                     sig=None if zs else ("0", f"empty-{kind}"))

  def read(self, v):
    return v

  # -- overridden list interface ------------------------------------------------
  def vlen(self):
    return list.__len__(self) if self._s is None else mkint(self._s.n)

  def __bool__(self):
    if self._s is None:
      return list.__len__(self) > 0
    return cur().branch(self._s.n > 0)

  def __iter__(self):
    if self._s is None:
      return list.__iter__(self)
    n = cur().concretize(self._s.n, cap=6)
    return iter([self[i] for i in range(n)])

  def __getitem__(self, i):
    if isinstance(i, slice):
      return self._slice(i)
    if self._s is None:
      if type(i) is SymInt:
        n = list.__len__(self)
        items = list(list.__iter__(self))
        kind = seq_kind(items)
        if kind and n:
          if cur().branch(z3.Or(i.e >= n, i.e < -n)):
            raise IndexError("list index out of range")
          e = val2z(items[-1], kind)
          for j in range(n - 1):
            e = z3.If(z3.Or(i.e == j, i.e == j - n), val2z(items[j], kind), e)
          return z2val(e, kind)
      r = list.__getitem__(self, i)
      return r
    k = norm_index(i, self._s.n)
    return self._s.f(k)

  def _slice(self, sl):
    if self._s is None and not any(
        type(x) is SymInt for x in (sl.start, sl.stop, sl.step)):
      return VList(list.__getitem__(self, sl))
    return seq_slice(seq_of(self), sl)

  def __setitem__(self, i, v):
    if self._s is None:
      if type(i) is SymInt:
        i = i.__index__()
      list.__setitem__(self, i, v)
      return
    if isinstance(i, slice):
      raise Unsupported("slice assignment to a symbolic list")
    s = self._s
    k = norm_index(i, s.n)
    z = val2z(v, s.kind)
    if z is None:
      raise Unsupported("mixed list")
    f = s.f
    self._s = SymSeq(
        s.n, lambda j: z2val(z3.If(j == k, z, val2z(f(j), s.kind)), s.kind),
        s.kind)

  def append(self, v):
    if self._s is None:
      list.append(self, v)
      return
    s = self._s
    kind = s.kind or seq_kind([v])
    z = val2z(v, kind) if kind else None
    if z is None:
      raise Unsupported("appending a structured value to a symbolic list")
    f = s.f
    self._s = SymSeq(
        z3.simplify(s.n + 1),
        lambda j: z2val(z3.If(j == s.n, z, val2z(f(j), kind)), kind), kind)

  def extend(self, it):
    if self._s is None and not is_symbolic_iter(it):
      list.extend(self, it)
      return
    r = concat_seq(seq_of(self), seq_of(it))
    list.clear(self)
    self._s = r

  def __iadd__(self, it):
    self.extend(it)
    return self

  def __add__(self, o):
    if self._s is None and not is_symbolic_iter(o):
      return VList(list.__add__(self, list(o)))
    return from_seq(concat_seq(seq_of(self), seq_of(o)))

  def __mul__(self, n):
    if type(n) is SymInt:
      return list_repeat(self, n)
    return VList(list.__mul__(self, n))

  __rmul__ = __mul__

  def pop(self, i=-1):
    if self._s is None:
      return list.pop(self, i)
    s = self._s
    if not cur().branch(s.n > 0):
      raise IndexError("pop from empty list")
    if i == -1:
      v = s.f(z3.simplify(s.n - 1))
      self._s = SymSeq(z3.simplify(s.n - 1), s.f, s.kind)
      return v
    if type(i) is int and i == 0:
      v = s.f(z3.IntVal(0))
      self._s = SymSeq(z3.simplify(s.n - 1), lambda j: s.f(j + 1), s.kind)
      return v
    raise Unsupported("pop at a symbolic position")

  def clear(self):
    list.clear(self)
    self._s = None

  def copy(self):
    if self._s is None:
      return VList(list.__iter__(self))
    return from_seq(self._s)

  def __eq__(self, o):
    if self._s is None and not (isinstance(o, VList) and o._s is not None):
      if not isinstance(o, list) or list.__len__(self) != len(o):
        return False
      for a, b in zip(list.__iter__(self), o):
        if not a == b:
          return False
      return True
    raise Unsupported("equality of symbolic lists")

  __hash__ = None

  def __repr__(self):
    if self._s is None:
      return list.__repr__(self)
    return f"<symbolic list, length {self._s.n}>"

  def insert(self, i, v):
    if self._s is not None:
      raise Unsupported("insert into a symbolic list")
    list.insert(self, i, v)

  def sort(self, **kw):
    if self._s is not None:
      raise Unsupported("sort of a symbolic list")
    list.sort(self, **kw)

  def __contains__(self, v):
    if self._s is not None:
      raise Unsupported("membership in a symbolic list")
    for x in list.__iter__(self):
      if x is v or x == v:
        return True
    return False

  def __reduce__(self):
    if self._s is not None:
      raise Unsupported("pickle of a symbolic list")
    return (list, (list(list.__iter__(self)),))


def seq_kind(items):
  if items and all(is_int(v) for v in items):
    return "int"
  if items and all(v is None or type(v) is SymElem for v in items):
    return "elem"
  return None


def norm_index(i, n):
  e = cur()
  z = i2z(i)
  if z is None:
    raise TypeError("list indices must be integers or slices")
  if e.branch(z >= 0):
    if not e.branch(z < n):
      raise IndexError("list index out of range")
    return z
  if not e.branch(z >= -n):
    raise IndexError("list index out of range")
  return z3.simplify(z + n)


def from_seq(s):
  r = VList()
  r._s = s
  return r


def is_symbolic_iter(x):
  if isinstance(x, (SymRange, LazyIter)):
    return True
  if isinstance(x, VList):
    return x._s is not None
  if isinstance(x, SymSeq):
    return True
  return False


def seq_of(x) -> SymSeq:
  if isinstance(x, SymSeq):
    return x
  if isinstance(x, SymRange):
    return x.seq()
  if isinstance(x, LazyIter):
    return x.s
  if isinstance(x, VList) and x._s is not None:
    return x._s
  items = list(x)
  kind = seq_kind(items)

  def f(k):
    if kind is None:
      k = cur().concretize(i2z(k))
      return items[k]
    e = val2z(items[-1], kind)
    for j in range(len(items) - 1):
      e = z3.If(k == j, val2z(items[j], kind), e)
    return z2val(e, kind)

  if not items:
    f = lambda k: z2val(z3.FreshConst(U, "nil"), "elem")
  return SymSeq(z3.IntVal(len(items)), f, kind)


def concat_seq(a, b):
  if z3.is_int_value(a.n) and a.n.as_long() == 0:
    return b
  kind = a.kind or b.kind
  if kind in _KINDS and (b.kind in (kind, None)):
    return SymSeq(
        z3.simplify(a.n + b.n),
        lambda j: z2val(
            z3.If(j < a.n, val2z(a.f(j), kind), val2z(b.f(j - a.n), kind)),
            kind), kind)

  def f(j):
    if cur().branch(j < a.n):
      return a.f(j)
    return b.f(z3.simplify(j - a.n))

  return SymSeq(z3.simplify(a.n + b.n), f, None)


def clamp(v, lo, hi):
  return z3.If(v < lo, lo, z3.If(v > hi, hi, v))


def seq_slice(s, sl):
  start, stop, step = slice_indices(sl, mkint(s.n))
  r = SymRange(start, stop, step)
  n = r.vlen()
  st, sp = i2z(start), i2z(step)
  return from_seq(SymSeq(i2z(n), lambda k: s.f(z3.simplify(st + k * sp)), s.kind))


def slice_indices(sl, n):
  """`slice.indices` for symbolic arguments (CPython's algorithm)."""
  def conv(x):
    if x is None or is_int(x):
      return x
    return x.__index__()
  start, stop, step = conv(sl.start), conv(sl.stop), conv(sl.step)
  if not any(type(x) is SymInt for x in (start, stop, step, n)):
    return slice(start, stop, step).indices(n)
  if step is None:
    step = 1
  if step == 0:
    raise ValueError("slice step cannot be zero")
  neg = bool(step < 0)
  lower, upper = (-1, n - 1) if neg else (0, n)

  def fix(v, default):
    if v is None:
      return default
    if v < 0:
      v = v + n
      return lower if v < lower else v
    return upper if v > upper else v

  return (fix(start, upper if neg else lower),
          fix(stop, lower if neg else upper), step)


class SymRange:
  """`range` with at least one symbolic argument."""

  def __init__(self, start, stop=None, step=1):
    if stop is None:
      start, stop = 0, start
    if step == 0:
      raise ValueError("range() arg 3 must not be zero")
    self.start, self.stop, self.step = start, stop, step
    self._n = None

  @property
  def __class__(self):
    return range

  def vlen(self):
    if self._n is None:
      a, b, s = self.start, self.stop, self.step
      if type(s) is int and s == 1:
        self._n = mkint(z3.If(i2z(b) > i2z(a), i2z(b) - i2z(a), z3.IntVal(0)))
      elif s > 0:
        self._n = (b - a + s - 1) // s if a < b else 0
      else:
        self._n = (a - b - s - 1) // (-s) if b < a else 0
    return self._n

  __len__ = vlen

  def seq(self):
    n = self.vlen()
    a, s = i2z(self.start), i2z(self.step)
    return SymSeq(i2z(n), lambda k: mkint(a + k * s), "int",
                  sig=("range", i2z(n).sexpr(), a.sexpr(), s.sexpr()))

  def __getitem__(self, i):
    if isinstance(i, slice):
      st, sp, step = slice_indices(i, self.vlen())
      return vrange(self.start + st * self.step, self.start + sp * self.step,
                    self.step * step)
    k = norm_index(i, i2z(self.vlen()))
    return mkint(i2z(self.start) + k * i2z(self.step))

  def __iter__(self):
    n = cur().concretize(i2z(self.vlen()), cap=6)
    return iter([self[i] for i in range(n)])

  def __bool__(self):
    return bool(self.vlen() > 0)

  def __contains__(self, v):
    n = self.vlen()
    if not (0 < n):
      return False
    if type(self.step) is int and self.step == 1:
      return bool((v >= self.start)) and bool(v < self.stop)
    raise Unsupported("membership in a stepped symbolic range")

  def __repr__(self):
    return f"range({self.start}, {self.stop}, {self.step})"

  def __deepcopy__(self, memo):
    return self


class LazyIter:
  """A lazily mapped symbolic sequence (result of a generator expression)."""

  def __init__(self, s):
    self.s = s

  def vlen(self):
    return mkint(self.s.n)

  def __iter__(self):
    n = cur().concretize(self.s.n, cap=6)
    return iter([self.s.f(z3.IntVal(i)) for i in range(n)])

  def __deepcopy__(self, memo):
    return self


# --------------------------------------------------------------------------
# Shadowed builtins (call sites are rewritten by the instrumentation)
# --------------------------------------------------------------------------
def vrange(*a):
  if any(type(x) is SymInt for x in a):
    return SymRange(*a)
  return range(*a)


def vlen(x):
  f = getattr(x, "vlen", None)
  if f is not None:
    return f()
  m = getattr(type(x), "__len__", None)
  if m is not None and isinstance(m, types.FunctionType):
    r = m(x)
    if type(r) is SymInt:
      if cur().branch(r.e < 0):
        raise ValueError("__len__() should return >= 0")
      return r
    return len(x)
  return len(x)


def vint(x=0, *a):
  if type(x) is SymInt:
    return x
  if type(x) is SymReal:
    return x.__trunc__()
  if type(x) is SymBool:
    return x._int()
  return int(x, *a)


def vfloat(x=0.0):
  if type(x) is SymReal:
    return x
  if isinstance(x, Sym):
    return fround(toreal(x).e)
  return float(x)


def vbool(x=False):
  return bool(x)


def vmin(*a, **k):
  return _mm(a, k, min, lambda x, y: x <= y)


def vmax(*a, **k):
  return _mm(a, k, max, lambda x, y: x >= y)


def _mm(a, k, native, le):
  items = list(a[0]) if len(a) == 1 else list(a)
  if k or not items or not any(isinstance(v, Sym) for v in items):
    return native(*a, **k)
  if all(is_int(v) for v in items):
    r = i2z(items[0])
    for v in items[1:]:
      z = i2z(v)
      r = z3.If(le(r, z), r, z)
    return mkint(r)
  r = items[0]
  for v in items[1:]:
    r = r if bool(le(r, v)) else v
  return r


def vsum(it, start=0):
  if is_symbolic_iter(it):
    raise Unsupported("sum over a symbolic sequence")
  r = start
  for x in it:
    r = r + x
  return r


def vabs(x):
  return abs(x)


def vany(it):
  if is_symbolic_iter(it):
    return _quant(it, True)
  return any(it)


def vall(it):
  if is_symbolic_iter(it):
    return not _quant(it, False)
  return all(it)


def _quant(it, target):
  """Is there an item whose truth value equals `target`?"""
  e = cur()
  s = seq_of(it)
  if e.choose(2) == 0:
    # witness
    k = e.fresh("w")
    e.assume(z3.And(k >= 0, k < s.n))
    if bool(s.f(k)) == target:
      return True
    raise PathDone()
  # no witness
  k = z3.Int("k!q%d" % next(e.counter))
  v = s.f(k)
  b = as_z3b(v) if isinstance(v, (SymBool, bool)) else None
  if b is None:
    raise Unsupported("quantifying over a non-boolean sequence")
  if not target:
    b = z3.Not(b)
  e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.n), z3.Not(b))))
  return False


def vlist(it=()):
  if is_symbolic_iter(it):
    return from_seq(seq_of(it))
  if isinstance(it, (EnumIter, ZipIter)) and sym_iter(it):
    return from_seq(iter_seq(it))
  return VList(it)


def vtuple(it=()):
  if is_symbolic_iter(it):
    return from_seq(seq_of(it))
  return tuple(it)


def vsorted(it, **k):
  if is_symbolic_iter(it):
    raise Unsupported("sorted over a symbolic sequence")
  return VList(sorted(it, **k))


def vreversed(it):
  if is_symbolic_iter(it):
    s = seq_of(it)
    return LazyIter(SymSeq(s.n, lambda k: s.f(z3.simplify(s.n - 1 - k)), s.kind))
  return reversed(it)


class EnumIter:

  def __init__(self, it, start=0):
    self.it = viter(it)
    self.i = start

  def vnext(self):
    ok, v = self.it.vnext()
    if not ok:
      return False, None
    i = self.i
    self.i = i + 1
    return True, (i, v)

  def __iter__(self):
    return self

  def __next__(self):
    ok, v = self.vnext()
    if not ok:
      raise StopIteration
    return v


class ZipIter:

  def __init__(self, its, strict=False):
    self.its = [viter(i) for i in its]
    self.strict = strict

  def vnext(self):
    out = []
    for idx, it in enumerate(self.its):
      ok, v = it.vnext()
      if not ok:
        if self.strict:
          if idx:
            raise ValueError("zip() arguments have different lengths")
          for o in self.its[1:]:
            if o.vnext()[0]:
              raise ValueError("zip() arguments have different lengths")
        return False, None
      out.append(v)
    if not self.its:
      return False, None
    return True, tuple(out)

  def __iter__(self):
    return self

  def __next__(self):
    ok, v = self.vnext()
    if not ok:
      raise StopIteration
    return v


def _needs_sym(its):
  return any(is_symbolic_iter(i) or isinstance(i, (EnumIter, ZipIter, VIter))
             for i in its)


def venumerate(it, start=0):
  if _needs_sym([it]) or type(start) is SymInt:
    return EnumIter(it, start)
  return enumerate(it, start)


def vzip(*its, strict=False):
  if _needs_sym(its):
    return ZipIter(its, strict)
  return zip(*its, strict=strict)


def vmap(f, *its):
  if _needs_sym(its) and len(its) == 1:
    s = seq_of(its[0])
    return LazyIter(SymSeq(s.n, lambda k: f(s.f(k)), None))
  return map(f, *its)


def vdivmod(a, b):
  return divmod(a, b)


def vid(x):
  return id(x)


def viter_builtin(x, *a):
  if a:
    return iter(x, *a)
  if is_symbolic_iter(x):
    return viter(x)
  return iter(x)


def vnext_builtin(x, *d):
  if isinstance(x, (VIter, EnumIter, ZipIter)):
    ok, v = x.vnext()
    if ok:
      return v
    if d:
      return d[0]
    raise StopIteration
  return next(x, *d)


def vslice(*a):
  return slice(*a)


def vround(x, *a):
  return round(x, *a)


def list_repeat(lst, n):
  items = list(lst)
  if isinstance(lst, VList) and lst._s is not None:
    raise Unsupported("repeating a symbolic list")
  ne = i2z(n)
  m = len(items)
  kind = seq_kind(items)
  ln = z3.If(ne > 0, ne * m, z3.IntVal(0))
  if m == 1:
    v = items[0]
    return from_seq(SymSeq(z3.simplify(ln), lambda k: v, kind))
  raise Unsupported("repeating a list a symbolic number of times")


BUILTINS = {
    "len": vlen, "range": vrange, "int": vint, "float": vfloat, "min": vmin,
    "max": vmax, "sum": vsum, "any": vany, "all": vall, "list": vlist,
    "tuple": vtuple, "sorted": vsorted, "reversed": vreversed,
    "enumerate": venumerate, "zip": vzip, "map": vmap, "iter": viter_builtin,
    "next": vnext_builtin,
}


def m_indices(o, *a):
  if isinstance(o, slice) and len(a) == 1:
    return slice_indices(o, a[0])
  return o.indices(*a)


def m_index(o, *a):
  return o if type(o) is SymInt and not a else o.__index__(*a)


def m_array(o, *a, **kw):
  """np.array / np.asarray of a list which holds proxies."""
  if getattr(o, "__name__", "") == "numpy" and a and _has_sym(a[0]):
    dt = kw.get("dtype") or (a[1] if len(a) > 1 else None)
    items = list(a[0])
    if dt is not None and np.dtype(dt).kind in "ui":
      info = np.iinfo(dt)
      for x in items:
        if type(x) is SymInt and not (x >= int(info.min) and x <= int(info.max)):
          raise OverflowError("Python integer out of bounds")
    return VList(items)
  return o.array(*a, **kw)


def _has_sym(x):
  return isinstance(x, list) and any(
      isinstance(v, Sym) for v in list.__iter__(x)) and not (
          isinstance(x, VList) and x._s is not None)


def m_deque(o, *a, **kw):
  from pyvc import futmodel
  return futmodel.m_deque(o, *a, **kw)


def m_pool(o, *a, **kw):
  from pyvc import futmodel
  return futmodel.m_pool(o, *a, **kw)


def _fut(name):
  def m(o, *a, **kw):
    from pyvc import futmodel
    return getattr(futmodel, name)(o, *a, **kw)
  m.__name__ = name
  globals()[name] = m
  return m


METHODS = {"Thread": _fut("m_thread"), "Event": _fut("m_event"),
           "Queue": _fut("m_queue"), "indices": m_indices, "__index__": m_index, "array": m_array,
           "deque": m_deque, "ThreadPoolExecutor": m_pool,
           "dumps": _fut("m_dumps"), "loads": _fut("m_loads")}


# --------------------------------------------------------------------------
# Iteration
# --------------------------------------------------------------------------
class VIter:
  """Iteration over a concrete or symbolic sequence."""

  def __init__(self, seq):
    self.seq = seq
    self.i = 0

  def vnext(self):
    s = self.seq
    if isinstance(s, VList):
      if s._s is None:
        if type(self.i) is SymInt:
          self.i = cur().concretize(self.i.e)
        if self.i >= list.__len__(s):
          return False, None
        v = list.__getitem__(s, self.i)
        self.i += 1
        return True, s.read(v)
      ss = s._s
    else:
      ss = seq_of(s)
    i = i2z(self.i)
    if not cur().branch(i < ss.n):
      return False, None
    v = ss.f(i)
    if isinstance(s, VList):
      v = s.read(v)
    self.i = mkint(i + 1)
    return True, v

  def __iter__(self):
    return self

  def __next__(self):
    ok, v = self.vnext()
    if not ok:
      raise StopIteration
    return v


class NatIter:
  """Iteration over a native iterable."""

  def __init__(self, it):
    self.it = iter(it)

  def vnext(self):
    try:
      return True, next(self.it)
    except StopIteration:
      return False, None


def viter(x):
  if isinstance(x, (VIter, EnumIter, ZipIter, NatIter)):
    return x
  if is_symbolic_iter(x) or isinstance(x, VList):
    return VIter(x)
  return NatIter(x)


def sym_iter(it):
  """Does iterating depend on a symbolic length?"""
  if isinstance(it, VIter):
    return is_symbolic_iter(it.seq)
  if isinstance(it, EnumIter):
    return sym_iter(it.it)
  if isinstance(it, ZipIter):
    return any(sym_iter(i) for i in it.its)
  return False


def call_iter(x):
  """`iter(x)` of a for statement."""
  it = viter(x)
  return it


# --------------------------------------------------------------------------
# Comprehensions
# --------------------------------------------------------------------------
def comp(kind, site, it, fn, conds):
  """[fn(x) for x in it if all conds]; kind in list/gen/set/dict."""
  if not is_symbolic_iter(it) and not isinstance(it, (EnumIter, ZipIter, VIter)):
    if kind == "gen":
      return _gen(it, fn, conds)
    r = []
    for x in it:
      ok = True
      for c in conds:
        if not c(x):
          ok = False
          break
      if ok:
        r.append(fn(x))
    if kind == "list":
      return VList(r)
    if kind == "set":
      return set(r)
    return dict(r)
  e = cur()
  if isinstance(it, (EnumIter, ZipIter, VIter)):
    s = iter_seq(it)
  else:
    s = seq_of(it)
  if kind in ("set", "dict"):
    raise Unsupported("set/dict comprehension over a symbolic sequence")
  if conds or ("impure", site) in e.cut_sites:
    loc = {"r": VList(), "fn": fn, "conds": tuple(conds),
           "it": call_iter(from_seq(s))}
    lp = Loop(site, "for", loc["it"])
    while True:
      d = lp.top(loc)
      if d is not None:
        loc = d
      more, x = loc["it"].vnext()
      if not more:
        break
      if all(c(x) for c in conds):
        loc["r"].append(fn(x))
    return loc["r"]
  # probe one arbitrary item: exceptions and side effects
  if e.choose(2) == 1:
    k = e.fresh("k")
    e.assume(z3.And(k >= 0, k < s.n))
    before = snapshot(closure_roots(fn), True)
    fn(s.f(k))
    if snapshot(closure_roots(fn), True) != before:
      e.cut_sites.add(("impure", site))
      raise Restart()
    raise PathDone()
  roots = closure_roots(fn)
  at = snapshot(roots, True) if roots else None

  def item(k):
    if at is not None and snapshot(roots, True) != at:
      # the captured state has changed since: build the list step by step
      e.cut_sites.add(("impure", site))
      raise Restart()
    return fn(s.f(k))
  r = SymSeq(s.n, item, item_kind(e, item, s.n))
  return LazyIter(r) if kind == "gen" else from_seq(r)


def item_kind(e, item, n):
  """The kind of the items, if an arbitrary one is computed without a case
  split."""
  k = e.fresh("k")
  npc, nq = len(e.pc), len(e.qfacts)
  e.pc_probe = True
  try:
    e.assume(z3.And(k >= 0, k < n))
    v = item(k)
  except (en_mod.NoBranch, PathDone):
    return None
  except (Restart, ToolLimit):
    raise
  except Exception:  # the path which evaluates an arbitrary item reports it
    return None
  finally:
    e.pc_probe = False
    del e.pc[npc:]
    del e.qfacts[nq:]
    e.rebuild_solver()
  if type(v) is SymElem:
    return "elem"
  if type(v) is SymInt or type(v) is int:
    return "int"
  return None


def iter_seq(it):
  if isinstance(it, VIter):
    s = seq_of(it.seq)
    off = i2z(it.i)
    return SymSeq(z3.simplify(s.n - off), lambda k: s.f(z3.simplify(k + off)), s.kind)
  if isinstance(it, NatIter):
    return seq_of(list(it.it))
  if isinstance(it, EnumIter):
    s = iter_seq(it.it)
    st = it.i
    return SymSeq(s.n, lambda k: (mkint(i2z(st) + k), s.f(k)), None)
  ss = [iter_seq(i) for i in it.its]
  n = ss[0].n
  for o in ss[1:]:
    n = z3.If(o.n < n, o.n, n)
  return SymSeq(z3.simplify(n), lambda k: tuple(o.f(k) for o in ss), None)


def _gen(it, fn, conds):
  for x in it:
    ok = True
    for c in conds:
      if not c(x):
        ok = False
        break
    if ok:
      yield fn(x)


def closure_roots(fn):
  r = {}
  for i, c in enumerate(fn.__closure__ or ()):
    try:
      r[str(i)] = c.cell_contents
    except ValueError:
      pass
  return r


# --------------------------------------------------------------------------
# Heap traversal
# --------------------------------------------------------------------------
IGNORED_ATTRS = {"_stats", "_traceback", "iter_weakref"}
TRAVERSE_PREFIX = ("grain.", "pyvc.", "contracts", "harness")
_SYMNAME = re.compile(r"!(\d+)$")


class Leaf:
  __slots__ = ("kind", "value", "set", "path")

  def __init__(self, kind, value, setter, path):
    self.kind, self.value, self.set, self.path = kind, value, setter, path


SYNC_TYPES = ("lock", "RLock", "Event", "Condition", "Semaphore", "local",
              "ThreadPoolExecutor", "ContextVar", "SimpleQueue")


def fill_lazy(a, b, seen=None, depth=0):
  """Computes on each of two objects the cached properties the other has."""
  seen = set() if seen is None else seen
  if type(a) is not type(b) or (id(a), id(b)) in seen or a is b or depth > 12:
    return
  seen.add((id(a), id(b)))
  t = type(a)
  if isinstance(a, (list, tuple)) :
    if isinstance(a, VList) and (a._s is not None or b._s is not None):
      return
    for x, y in zip(list(a), list(b)):
      fill_lazy(x, y, seen, depth + 1)
    return
  if isinstance(a, dict):
    for k in a:
      if k in b:
        fill_lazy(a[k], b[k], seen, depth + 1)
    return
  if not (getattr(t, "__module__", "") or "").startswith(TRAVERSE_PREFIX):
    return
  da, db = getattr(a, "__dict__", {}), getattr(b, "__dict__", {})
  for x, dx, dy, y in ((a, da, db, b), (b, db, da, a)):
    for k in list(dx):
      if k not in dy and isinstance(getattr(t, k, None), functools.cached_property):
        getattr(y, k)
  for k in list(da):
    if k in db:
      fill_lazy(da[k], db[k], seen, depth + 1)


def same_heap(a, b):
  """Is the state reachable from the two objects provably the same?"""
  e = cur()
  fill_lazy(a, b)
  oa, ob = [], []
  fa, la, _ = traverse({"x": a}, oa)
  fb, lb, _ = traverse({"x": b}, ob)
  if fa != fb or len(la) != len(lb):
    if os.environ.get("PYVC_HEAP"):
      d = [(x, y) for x, y in zip(fa, fb) if x != y][:4]
      print("heaps differ", d)
    return False
  for (_, x), (_, y) in zip(oa, ob):
    if x is not y and type(x).__name__ not in SYNC_TYPES:
      if os.environ.get("PYVC_HEAP"):
        print("opaque objects differ", type(x))
      return False
  goals = []
  for x, y in zip(la, lb):
    if x.kind == "seq":
      sx, sy = x.value, y.value
      if sx.kind != sy.kind:
        return False
      goals.append(sx.n == sy.n)
      if sx.kind is None:
        return False
      k = z3.Int("k!b")
      vx, vy = val2z(sx.f(k), sx.kind), val2z(sy.f(k), sy.kind)
      if not vx.eq(vy):
        goals.append(z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < sx.n), vx == vy)))
    else:
      zx, zy = leafz(x), leafz(y)
      if not zx.eq(zy):
        goals.append(zx == zy)
  for g in goals:
    if not e.remember(lambda: e.prove(g, quick=not e.checking)[0] == "ok"):
      if os.environ.get("PYVC_HEAP"):
        print("not provably equal", g)
      return False
  return True


def shared_objects(roots):
  """Mutable objects with more than one reference in the heap of the frame and
  its callers, numbered: replacing one of them in a loop is visible elsewhere."""
  count, order, keep = {}, [], []
  stack = []
  f = sys._getframe(4)
  while f is not None:
    if f.f_globals.get("__name__", "").startswith(_OUTER):
      stack.append(f.f_locals)
    f = f.f_back
  todo = [d[k] for d in reversed(stack) for k in sorted(d)]
  todo.extend(roots[k] for k in sorted(roots))
  todo.reverse()
  while todo:
    v = todo.pop()
    t = type(v)
    if t in _ATOMIC:
      continue
    if t is tuple or isinstance(v, tuple):
      todo.extend(reversed(v))
      continue
    i = id(v)
    n = count.get(i, 0)
    count[i] = n + 1
    if n:
      if n == 1:
        order.append(v)
      continue
    keep.append(v)
    if isinstance(v, VList) or t is list:
      if v.__dict__.get("call") is not None if t is not list else False:
        todo.append(v.call)
      if t is not list and v._s is not None:
        continue
      todo.extend(reversed(list(list.__iter__(v))))
    elif t is collections.deque:
      todo.extend(reversed(v))
    elif isinstance(v, dict):
      todo.extend(reversed(list(v.values())))
    elif t is types.MethodType:
      todo.append(v.__self__)
    elif t is types.FunctionType:
      for c in v.__closure__ or ():
        try:
          todo.append(c.cell_contents)
        except ValueError:
          pass
    elif t is functools.partial:
      todo.extend((v.func, v.args, v.keywords))
    elif (getattr(t, "__module__", "") or "").startswith(TRAVERSE_PREFIX):
      d = getattr(v, "__dict__", None)
      if d:
        todo.extend(d[k] for k in sorted(d) if k not in IGNORED_ATTRS)
  return {id(v): k for k, v in enumerate(order)}, keep


def traverse(roots, opaque=None, skip_cached=False, shared=None):
  """Returns (fingerprint, leaves, lists) of the heap reachable from roots."""
  fp, leaves, lists = [], [], []
  seen = {}
  keep = []

  def walk(v, setter, path):
    t = type(v)
    if t is SymBool:
      v = bool(v)
      setter(v)
      t = bool
    if v is None or t is bool or t is str or t is bytes or t is float:
      fp.append((path, v if t is not float else repr(v)))
      return
    if t is int or t is SymInt:
      fp.append((path, "int"))
      leaves.append(Leaf("int", v, setter, path))
      return
    if t is SymElem:
      fp.append((path, "elem"))
      leaves.append(Leaf("elem", v, setter, path))
      return
    if t is SymReal:
      fp.append((path, "real"))
      leaves.append(Leaf("real", v, setter, path))
      return
    if isinstance(v, z3.AstRef):
      fp.append((path, "z3", v.sexpr() if not isinstance(v, z3.FuncDeclRef)
                 else v.name()))
      return
    if isinstance(v, type) or isinstance(v, (types.ModuleType, types.BuiltinFunctionType)):
      fp.append((path, "ref", getattr(v, "__module__", ""), getattr(v, "__name__", str(t))))
      return
    if isinstance(v, enum.Enum):
      fp.append((path, "enum", str(v)))
      return
    if isinstance(v, (np.generic,)):
      fp.append((path, "np", repr(v)))
      return
    i = id(v)
    if i in seen and t is not tuple:
      fp.append((path, "alias", seen[i]))
      return
    seen[i] = path
    keep.append(v)
    if shared and i in shared:
      fp.append((path, "id", shared[i]))
    if t is SymSeq:
      fp.append((path, "symseq", v.kind, v.signature()))
      return
    if isinstance(v, VList) and t is not VList:
      fp.append((path, t.__name__))
      walk(v.call, _readonly, path + ("call",))
    if isinstance(v, VList) and v._s is not None:
      fp.append((path, "symlist", v._s.kind))

      def set_seq(s, v=v):
        v._s = s

      leaves.append(Leaf("seq", v._s, set_seq, path))
      return
    if isinstance(v, VList) or t is list or t is collections.deque:
      n = list.__len__(v) if t is not collections.deque else len(v)
      fp.append((path, "list" if t is not collections.deque else "deque", n))
      if isinstance(v, VList):
        lists.append((path, v))
      items = list(list.__iter__(v)) if t is not collections.deque else list(v)
      for j, x in enumerate(items):
        walk(x, _item_setter(v, j), path + (j,))
      return
    if t is SymRange:
      fp.append((path, "range"))
      for k in ("start", "stop", "step"):
        walk(getattr(v, k), _attr_setter(v, k), path + (k,))
      return
    if isinstance(v, tuple):
      fp.append((path, "tuple", t.__name__, len(v)))
      box = list(v)

      def tset(j):
        def s(nv):
          box[j] = nv
          setter(t(*box) if hasattr(t, "_fields") else t(box))
        return s

      for j, x in enumerate(v):
        walk(x, tset(j), path + (j,))
      return
    if isinstance(v, dict):
      ks = list(v.keys())
      fp.append((path, "dict", t.__name__, tuple(map(_key_name, ks))))
      for k in ks:
        walk(v[k], _item_setter(v, k), path + (_key_name(k),))
      return
    if isinstance(v, (set, frozenset)):
      fp.append((path, "set", tuple(sorted(map(repr, v)))))
      return
    if isinstance(v, slice):
      fp.append((path, "slice"))
      for k in ("start", "stop", "step"):
        walk(getattr(v, k), _readonly, path + (k,))
      return
    if isinstance(v, types.MethodType):
      fp.append((path, "method", v.__func__.__qualname__))
      walk(v.__self__, _readonly, path + ("self",))
      return
    if isinstance(v, types.FunctionType):
      fp.append((path, "func", v.__module__, v.__qualname__))
      for j, c in enumerate(v.__closure__ or ()):
        try:
          x = c.cell_contents
        except ValueError:
          continue
        walk(x, functools.partial(_set_cell, c), path + ("cell", j))
      return
    if isinstance(v, functools.partial):
      fp.append((path, "partial"))
      walk(v.func, _readonly, path + ("func",))
      walk(v.args, _readonly, path + ("args",))
      walk(v.keywords, _readonly, path + ("kw",))
      return
    if isinstance(v, np.ndarray):
      if v.dtype == object:
        raise Unsupported("object array in a loop")
      fp.append((path, "ndarray", str(v.dtype), v.shape, v.tobytes()))
      return
    if isinstance(v, types.GeneratorType):
      raise Unsupported("a live generator in a loop with symbolic trip count")
    mod = getattr(t, "__module__", "") or ""
    if mod.startswith(TRAVERSE_PREFIX) and (hasattr(v, "__dict__") or hasattr(t, "__slots__")):
      fp.append((path, "obj", t.__qualname__))
      names = sorted(getattr(v, "__dict__", {}).keys())
      for k in names:
        if k in IGNORED_ATTRS:
          continue
        if skip_cached and isinstance(getattr(t, k, None), functools.cached_property):
          continue
        walk(v.__dict__[k], _dict_setter(v, k), path + (k,))
      for c in t.__mro__:
        for k in getattr(c, "__slots__", ()):
          if k not in ("__dict__", "__weakref__") and hasattr(v, k):
            walk(getattr(v, k), _attr_setter(v, k), path + (k,))
      return
    fp.append((path, "opaque", mod, t.__qualname__))
    if opaque is not None:
      opaque.append((path, v))

  for name in sorted(roots):
    v = roots[name]
    walk(v, _item_setter(roots, name), (name,))
  return tuple(fp), leaves, lists


def _key_name(k):
  if type(k) is tuple:
    return tuple(_key_name(x) for x in k)
  if isinstance(k, Sym):
    return k.e.sexpr()
  return k if isinstance(k, (str, int)) else str(k)


def _readonly(v):
  raise Unsupported("a value in an immutable position changes in a loop")


def _item_setter(c, k):
  def s(v):
    if isinstance(c, VList):
      list.__setitem__(c, k, v)
    else:
      c[k] = v
  return s


def _attr_setter(o, k):
  return lambda v: object.__setattr__(o, k, v)


def _dict_setter(o, k):
  return lambda v: o.__dict__.__setitem__(k, v)


def _set_cell(c, v):
  c.cell_contents = v


def leaf_sig(l):
  v = l.value
  if l.kind == "seq":
    return v.signature()
  if isinstance(v, int) and not isinstance(v, Sym):
    return str(v)
  return v.e.sexpr()


def snapshot(roots, skip_cached=False):
  fp, leaves, _ = traverse(dict(roots), skip_cached=skip_cached)
  return fp, tuple(leaf_sig(l) for l in leaves)


def symbols(e, acc=None):
  acc = set() if acc is None else acc
  seen = set()
  st = [e]
  while st:
    x = st.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x):
      d = x.decl()
      if d.kind() == z3.Z3_OP_UNINTERPRETED:
        acc.add(d.name())
      st.extend(x.children())
    elif z3.is_quantifier(x):
      st.append(x.body())
  return acc


_NEWEST = {}


def newer(e, limit):
  """Does the term mention a symbol created at or after counter `limit`?"""
  i = e.get_id()
  n = _NEWEST.get(i)
  if n is None:
    en_mod.keep(e)
    n = -1
    for s in symbols(e):
      m = _SYMNAME.search(s)
      if m:
        n = max(n, int(m.group(1)))
    _NEWEST[i] = n
  return n >= limit


def leaf_newer(l, limit):
  if l.kind == "seq":
    if newer(l.value.n, limit):
      return True
    if l.value.kind in _KINDS:
      return newer(val2z(l.value.f(z3.Int("k!sig")), l.value.kind), limit)
    return l.value.born >= limit
  if isinstance(l.value, int) and not isinstance(l.value, Sym):
    return False
  return newer(l.value.e, limit)


_OUTER = ("grain.", "contracts")
_ATOMIC = frozenset([type(None), bool, int, float, str, bytes, SymInt, SymElem,
                     SymReal, SymBool, types.ModuleType, type,
                     types.BuiltinFunctionType, types.GeneratorType])

# --------------------------------------------------------------------------
# Loops
# --------------------------------------------------------------------------
class Loop:
  """One activation of a loop."""

  def __init__(self, site, kind, it=None):
    self.site = site
    self.kind = kind
    self.it = it
    self.n = 0
    self.inst = None
    self.dec0 = None
    self.shared = None
    self.entry_ints = ()

  def top(self, loc):
    """Loop head.  Returns None, or the havocked locals."""
    if not active():
      if en_mod.E is not None:
        raise PathDone()
      return None
    e = cur()
    if self.inst is not None:
      return self._head(e, loc, False)
    if self.n == 0:
      self.dec0 = len(e.dec)
      cut = self.site in e.cut_sites
      if self.kind == "for" and sym_iter(self.it):
        cut = True
      if cut:
        return self._enter(e, loc)
    elif self.n >= e.unroll and len(e.dec) > self.dec0 and self.kind == "while":
      e.cut_sites.add(self.site)
      raise Restart()
    self.n += 1
    if self.n > 5000:
      raise ToolLimit("loop does not terminate during symbolic execution")
    return None

  def _enter(self, e, loc):
    key = (self.site, tuple(e.dec), next(e.act_counter))
    inst = e.insts.get(key)
    if inst is None:
      inst = e.insts[key] = en_mod.Inst(self.site, tuple(e.dec))
    e.loops_cut[self.site] = e.loops_cut.get(self.site, 0) + 1
    self.inst = inst
    self.entry_pc = list(e.pc)
    self.entry_q = list(e.qfacts)
    self.limit = next(e.counter)
    self.shared, self.keep = shared_objects(loc)
    return self._head(e, loc, True)

  def _head(self, e, loc, entry):
    if e.dirty and e.dirty_inst is not self.inst:
      # another loop's invariants are still changing: what follows is redone
      e.ended = True
      raise PathDone()
    # widen lists whose length keeps changing
    roots = loc
    widen = {p: k for (s, p, k) in _widen_set(e, self.site)}
    for _ in range(2):
      fp, leaves, lists = traverse(roots, shared=self.shared)
      again = False
      for path, lst in lists:
        if path in widen and lst._s is None:
          lst.symbolize(widen[path])
          again = True
      if not again:
        break
    inst = self.inst
    if entry and e.preds:
      self.entry_ints = [z for z in (leafz(l) for l in leaves if l.kind == "int")
                         if not newer(z, self.limit) and not z3.is_int_value(z)][:4]
    rec = inst.shapes.get(fp)
    nd = len(e.dec)
    if (rec is not None and rec.cands is not None and e.replaying
        and not rec.decides and rec.carrier == (tuple(e.dec), self.n)):
      # an earlier path of this sweep has been here
      self._havoc(e, rec, fp, leaves, [leafz(l) for l in leaves])
      return roots
    if rec is None:
      _maybe_widen(e, inst, self.site, lists, fp)
      rec = inst.shapes[fp] = en_mod.ShapeRec()
      rec.consts = [leaf_sig(l) for l in leaves]
      rec.pending = set()
      rec.decides = False
      rec.rebuilt = rec.renamed = 0
      rec.moved = False
      rec.lens = {p: list.__len__(l) for p, l in lists}
      rec.kinds = {p: seq_kind(list(list.__iter__(l))) for p, l in lists}
      for i, l in enumerate(leaves):
        if leaf_newer(l, self.limit):
          rec.holes.add(i)
      if len(inst.shapes) > 40:
        raise ToolLimit("too many heap shapes at a loop head")
      if not e.checking:
        e.mark(self.inst)
      else:
        e.mark(self.inst)
    if rec.carrier is None and rec.pending:
      rec.holes |= rec.pending
      rec.pending = set()
      rec.cands = None
    # leaves which differ from the recorded constants become holes
    me = (tuple(e.dec), self.n)
    first = rec.carrier is None or rec.carrier == me
    for i, l in enumerate(leaves):
      if i not in rec.holes and i not in rec.pending:
        sig = leaf_sig(l)
        if sig != rec.consts[i] and first and rec.renamed < 12 and not leaf_newer(
            l, self.limit):
          # the carrier's own constants (symbols are renumbered between passes)
          rec.consts[i] = sig
          rec.moved = True
          e.mark(self.inst)
        elif sig != rec.consts[i] or (not entry and leaf_newer(l, self.limit)):
          rec.pending.add(i)
          e.mark(self.inst)
    if rec.moved:
      rec.moved = False
      rec.renamed += 1
    is_carrier = rec.carrier is None or rec.carrier == me
    if rec.carrier is None:
      rec.carrier = me
      if rec.pending:
        rec.holes |= rec.pending
        rec.pending = set()
        rec.cands = None
    vals = [leafz(l) for l in leaves]
    if is_carrier and rec.cands is not None:
      base = self._base(leaves)
      if base != rec.base and rec.rebuilt < 12:
        rec.rebuilt += 1
        rec.cands = None
    if rec.cands is not None and (not is_carrier or not entry):
      self._define(e, rec, leaves, vals)
      if rec.cands is None and not is_carrier:
        e.ended = True
        raise PathDone()
    if rec.cands is None:
      rec.base = self._base(leaves)
      rec.cands = make_candidates(e, self, rec, leaves, vals) + rec.extra
      rec.entry = vals
      e.mark(self.inst)
    if not is_carrier:
      self._generalize(e, rec, leaves, vals)
      if rec.cands is None:
        e.ended = True
        raise PathDone()
    self._filter(e, rec, vals, leaves)
    if not is_carrier:
      e.ended = True
      raise PathDone()
    if len(e.dec) != nd:
      rec.decides = True      # items were computed here with a case split
    self._havoc(e, rec, fp, leaves, vals)
    return roots

  def _base(self, leaves):
    return (self.limit, tuple(z.sexpr() for z in self.entry_ints),
            tuple("new" if leaf_newer(l, self.limit) else leaf_sig(l) for l in leaves))

  def _havoc(self, e, rec, fp, leaves, vals):
    """Continues from an arbitrary state which satisfies the invariants."""
    self.n += 1
    e.pc = list(self.entry_pc)
    e.qfacts = list(self.entry_q)
    new = list(vals)
    for i in sorted(rec.holes):
      new[i] = havoc_leaf(e, leaves[i])
    e.rebuild_solver()
    for name, build in list(rec.cands):
      c = build(new)
      if c is not None:
        try:
          e.assume(c)
        except Unsupported:
          rec.cands = [x for x in rec.cands if x[0] != name]
          e.mark(self.inst)
    if os.environ.get("PYVC_GEN"):
      print("HEAD", self.site, id(rec) % 1000, len(fp), [(l.kind, l.path, i in rec.holes, str(v) if l.kind != "seq" else (v.n, v.kind)) for i, (l, v) in enumerate(zip(leaves, new)) if i in rec.holes], [n for n, b in rec.cands if n[:3] in ("gen", "alw")])
    e.last_head = (self.inst, {(l.kind, l.path): v for l, v in zip(leaves, new)
                               }, len(e.pc))

  def _define(self, e, rec, leaves, vals):
    """Candidates which restate a value computed in one iteration in terms of
    the loop variables as they are at the loop head."""
    where = {}
    for j, l in enumerate(leaves):
      if l.kind == "int" and j in rec.holes:
        c, d = const_plus(vals[j])
        if c is not None and newer(c, self.limit):
          where.setdefault(c.get_id(), (c, []))[1].append((j, d))
    if not where:
      return

    def rewrite(t):
      t = z3.simplify(t)
      if not newer(t, self.limit):
        return
      alts = [[]]
      for c, js in where.values():
        if _mentions(t, c):
          alts = [a + [(c, j, d)] for a in alts for j, d in js[:2]][:4]
      for a in alts:
        if a and not newer(z3.simplify(z3.substitute(
            t, *[(c, z3.IntVal(0)) for c, _, _ in a])), self.limit):
          yield a

    def add(i, what, t, kind):
      for a in rewrite(t):
        key = (what, i, z3.simplify(z3.substitute(
            t, *[(c, z3.Int(f"at!{j}") - d) for c, j, d in a])).sexpr())
        if key in rec.gen or sum(1 for g in rec.gen if g[:2] == key[:2]) >= 6:
          continue
        rec.gen.add(key)

        def build(v, a=a, t=t, i=i, what=what, kind=kind):
          u = z3.substitute(t, *[(c, v[j] - d) for c, j, d in a])
          if what == "val":
            return v[i] == u
          if what == "len":
            return v[i].n == u
          k = z3.Int("k!b")
          return z3.ForAll([k], z3.Implies(
              z3.And(k >= 0, k < v[i].n),
              val2z(v[i].f(k), kind) == z3.substitute(u, (z3.Int("k!sig"), k))))
        rec.extra.append((f"def{len(rec.gen)}.{what}{i}", build))
        rec.cands = None
        e.mark(self.inst)
    for i, l in enumerate(leaves):
      if i not in rec.holes:
        continue
      if l.kind == "seq":
        s = vals[i]
        if s.kind in _KINDS:
          add(i, "len", s.n, s.kind)
          t = val2z(s.f(z3.Int("k!sig")), s.kind)
          if z3.is_app(t) and t.decl().name().startswith("hg!"):
            continue
          add(i, "items", t, s.kind)
      elif l.kind == "elem":
        add(i, "val", vals[i], None)
      elif l.kind == "int" and not z3.is_int_value(vals[i]):
        if const_plus(vals[i])[0] is None:
          add(i, "val", vals[i], None)

  def _generalize(self, e, rec, leaves, vals):
    """Candidate `forall k. list[k] == t(k)` from the item appended by one
    arbitrary iteration."""
    base = e.last_head
    if base is None or base[0] is not self.inst:
      return
    old = [base[1].get((l.kind, l.path)) for l in leaves]
    for i, l in enumerate(leaves):
      if l.kind != "seq" or i not in rec.holes or old[i] is None:
        continue
      s0, s1 = old[i], vals[i]
      if s1.kind not in _KINDS or not z3.is_true(z3.simplify(s1.n == s0.n + 1)):
        continue
      v = val2z(s1.f(s0.n), s1.kind)
      if v is None:
        continue
      v = z3.simplify(v)
      k = z3.Int("k!b")
      subst = [(s0.n, k)]
      for j, m in enumerate(leaves):
        if m.kind == "int" and j in rec.holes and old[j] is not None:
          if z3.is_true(z3.simplify(vals[j] == old[j] + 1)) and z3.is_const(old[j]):
            z0 = rec.entry[j] if rec.entry is not None else None
            if z0 is not None and not newer(z0, self.limit):
              subst.append((old[j], k + z0))
            elif e.prove(old[j] == s0.n, quick=True)[0] == "ok":
              subst.append((old[j], k))

      def gen(x):
        y = z3.simplify(z3.substitute(x, *subst))
        return None if newer(z3.substitute(y, (k, z3.IntVal(0))), self.limit) else y
      t = gen(v)
      if t is None:
        if os.environ.get('PYVC_GEN'): print('NOGEN', l.path, v, subst)
        continue
      guard = [g for g in (gen(x) for x in e.pc[base[2]:]
                           if not z3.is_quantifier(x)) if g is not None]
      facts = z3.simplify(z3.And([g for g in guard if _applied(g, k)] or [True]))
      guard = z3.simplify(z3.And(guard)) if guard else z3.BoolVal(True)
      key = (i, t.sexpr(), guard.sexpr())
      if os.environ.get('PYVC_GEN'): print('GEN', l.path, t, guard, subst)
      if key in rec.gen or sum(1 for g in rec.gen if g[0] == i) >= 8:
        continue
      rec.gen.add(key)

      def same(v, i=i, t=t, k=k, g=guard, kind=s1.kind):
        return z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < v[i].n, g), val2z(v[i].f(k), kind) == t))

      def always(v, i=i, k=k, g=facts):
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v[i].n), g))

      rec.extra.append((f"gen{i}.{len(rec.gen)}", same))
      if not z3.is_true(facts):
        rec.extra.append((f"alw{i}.{len(rec.gen)}", always))
      rec.cands = None
      e.mark(self.inst)
      return

  def _filter(self, e, rec, vals, leaves):
    """Houdini step: drops the candidates not implied on this arrival."""
    if not rec.cands:
      return
    live = []
    for name, build in rec.cands:
      c = build(vals)
      if c is None:
        live.append((name, build, None))
      else:
        live.append((name, build, z3.simplify(c)))
    quant = [x for x in live if x[2] is not None and z3.is_quantifier(x[2])]
    plain = [x for x in live if x[2] is not None and not z3.is_quantifier(x[2])
             and not z3.is_true(x[2])]
    dropped = set()
    while plain:
      e.solver.push()
      e.solver.add(z3.Or([z3.Not(c) for _, _, c in plain]))
      r = e._sat()
      if r == z3.unsat:
        e.solver.pop()
        break
      if r == z3.unknown:
        e.solver.pop()
        # one by one
        for x in list(plain):
          st, _ = e.prove(x[2], quick=True)
          if st != "ok":
            dropped.add(x[0])
        plain = []
        break
      m = e.solver.model()
      e.solver.pop()
      bad = [x for x in plain
             if not z3.is_true(m.eval(x[2], model_completion=True))]
      if not bad:
        for x in list(plain):
          st, _ = e.prove(x[2], quick=True)
          if st != "ok":
            dropped.add(x[0])
        break
      for x in bad:
        dropped.add(x[0])
      plain = [x for x in plain if x[0] not in dropped]
    for name, build, c in quant:
      st, _ = e.prove(c, quick=True)
      if st != "ok":
        if os.environ.get("PYVC_GEN"): print("DROP", id(rec)%1000, name, st, c, e.dec)
        dropped.add(name)
    if dropped:
      rec.cands = [x for x in rec.cands if x[0] not in dropped]
      e.mark(self.inst)


def hint_value(j):
  """The j-th annotated invariant in the current state; it is a candidate like
  any other, kept only where it is proved."""
  e = en_mod.E
  probe, e.pc_probe = e.pc_probe, True
  try:
    return as_z3b(e.hints[j]())
  except (Restart, ToolLimit):
    raise
  except (Exception, en_mod.NoBranch, PathDone):
    return z3.BoolVal(False)
  finally:
    e.pc_probe = probe


def seqdef_value(j, k):
  e = en_mod.E
  probe, e.pc_probe = e.pc_probe, True
  try:
    return e.seqdefs[j](SymInt(k))
  except (Restart, ToolLimit):
    raise
  except (Exception, en_mod.NoBranch, PathDone):
    return None
  finally:
    e.pc_probe = probe


def const_plus(t):
  """(c, d) with t = c + d, c an uninterpreted constant; or (None, 0)."""
  if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
    return t, 0
  if z3.is_add(t) and t.num_args() == 2:
    a, b = t.children()
    if z3.is_int_value(a):
      a, b = b, a
    if z3.is_int_value(b) and z3.is_const(a) and not z3.is_int_value(a):
      return a, b.as_long()
  return None, 0


def _mentions(t, c):
  return en_mod.contains(t, c)


def _applied(g, k):
  """Is `k` an argument of an uninterpreted function in `g`?"""
  st = [g]
  while st:
    x = st.pop()
    if not z3.is_app(x):
      continue
    if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(
        c.eq(k) for c in x.children()):
      return True
    st.extend(x.children())
  return False


def _widen_set(e, site):
  return [x[1:] for x in e.cut_sites if isinstance(x, tuple) and x and x[0] == "widen"
          and x[1] == site]


def _maybe_widen(e, inst, site, lists, fp):
  for path, lst in lists:
    lens = {r.lens[path] for r in inst.shapes.values() if path in r.lens}
    lens.add(list.__len__(lst))
    if len(lens) >= 4 and lst._s is None:
      kinds = {r.kinds.get(path) for r in inst.shapes.values()}
      kinds.add(seq_kind(list(list.__iter__(lst))))
      kinds.discard(None)
      if len(kinds) == 1:
        e.cut_sites.add(("widen", site, path, kinds.pop()))
        raise Restart()


def leafz(l):
  if l.kind == "seq":
    return l.value
  if l.kind == "int":
    return i2z(l.value)
  return l.value.e


def havoc_leaf(e, l):
  if l.kind == "int":
    v = e.fresh("h_" + str(l.path[-1]))
    l.set(SymInt(v))
    return v
  if l.kind == "elem":
    v = e.fresh("he", U)
    l.set(SymElem(v))
    return v
  if l.kind == "real":
    v = e.fresh("hr", z3.RealSort())
    l.set(SymReal(v))
    return v
  kind = l.value.kind
  if kind is None:
    raise Unsupported("list of structured values changes in a loop")
  n = e.fresh("hn")
  g = z3.Function(f"hg!{next(e.counter)}", z3.IntSort(), _KINDS[kind])
  s = SymSeq(n, lambda k: z2val(g(k), kind), kind)
  e.assume(n >= 0)
  l.set(s)
  return s


def make_candidates(e, loop, rec, leaves, vals):
  """The template vocabulary, instantiated for the leaves of this heap shape."""
  lim = loop.limit
  out = []
  ints = [i for i, l in enumerate(leaves) if l.kind == "int"]
  seqs = [i for i, l in enumerate(leaves) if l.kind == "seq"]
  elems = [i for i, l in enumerate(leaves) if l.kind == "elem"]
  holes = [i for i in ints if i in rec.holes]
  # integer terms: leaves, lengths of symbolic lists, parameters
  terms = {}
  for i in ints:
    if i in rec.holes:
      terms[("leaf", i)] = (lambda v, i=i: v[i])
    else:
      z = vals[i]
      if not newer(z, lim) and z.sexpr() not in e.plain:
        terms.setdefault(("c", z.sexpr()), (lambda v, z=z: z))
  for i in seqs:
    if i in rec.holes:
      terms[("len", i)] = (lambda v, i=i: v[i].n)
    elif not newer(vals[i].n, lim):
      terms.setdefault(("c", vals[i].n.sexpr()), (lambda v, z=vals[i].n: z))
  for z in [z3.IntVal(0), z3.IntVal(1)] + list(e.params) + list(loop.entry_ints):
    terms.setdefault(("c", z.sexpr()), (lambda v, z=z: z))
  vary = [k for k in terms if k[0] in ("leaf", "len")]
  keys = list(terms)
  for a in vary:
    fa = terms[a]
    for b in keys:
      if a == b:
        continue
      fb = terms[b]
      nm = f"{a}~{b}"
      if not (b in vary and vary.index(b) < vary.index(a)):
        out.append((nm + "==", lambda v, fa=fa, fb=fb: fa(v) == fb(v)))
        out.append((nm + "==+1", lambda v, fa=fa, fb=fb: fa(v) == fb(v) + 1))
        out.append((nm + "==-1", lambda v, fa=fa, fb=fb: fa(v) == fb(v) - 1))
        out.append((nm + ">=", lambda v, fa=fa, fb=fb: fa(v) >= fb(v)))
        out.append((nm + ">", lambda v, fa=fa, fb=fb: fa(v) > fb(v)))
        out.append((nm + "<=", lambda v, fa=fa, fb=fb: fa(v) <= fb(v)))
        out.append((nm + "<", lambda v, fa=fa, fb=fb: fa(v) < fb(v)))
  for a, b in itertools.combinations(vary, 2):
    fa, fb = terms[a], terms[b]
    d0 = z3.simplify(fa(vals) - fb(vals))
    if not newer(d0, lim):
      out.append((f"{a}-{b}", lambda v, fa=fa, fb=fb, d=d0: fa(v) - fb(v) == d))
    s0 = z3.simplify(fa(vals) + fb(vals))
    if not newer(s0, lim):
      out.append((f"{a}+{b}", lambda v, fa=fa, fb=fb, d=s0: fa(v) + fb(v) == d))
  for a, b, c in itertools.combinations(vary, 3) if len(vary) <= 6 else ():
    # a = b + c + const, in all arrangements
    for x, y, w in ((a, b, c), (b, a, c), (c, a, b)):
      fx, fy, fw = terms[x], terms[y], terms[w]
      d0 = z3.simplify(fx(vals) - fy(vals) - fw(vals))
      if not newer(d0, lim):
        out.append((f"{x}={y}+{w}", lambda v, fx=fx, fy=fy, fw=fw, d=d0:
                    fx(v) - fy(v) - fw(v) == d))
  # which elements a predicate has passed or refused since loop entry
  if e.preds and len(e.funcs) * len(e.preds) <= 4:
    starts = {}
    for i in ints:
      z = vals[i]
      if not newer(z, lim) and z.sexpr() not in e.plain:
        starts.setdefault(z.sexpr(), z)
    starts.setdefault("0", z3.IntVal(0))
    for z in loop.entry_ints:
      starts.setdefault(z.sexpr(), z)
    for i in holes:
      fi = terms[("leaf", i)]
      for F in e.funcs:
        for P in e.preds:
          for sx, z in starts.items():
            for d in (0, 1):
              for pos in (True, False):
                def rng(v, fi=fi, F=F, P=P, z=z, d=d, pos=pos):
                  k = z3.Int("k!b")
                  body = P(F(k)) if pos else z3.Not(P(F(k)))
                  return z3.ForAll([k], z3.Implies(
                      z3.And(k >= z, k < fi(v) - d), body))
                out.append((f"{i}:{F.name()}{P.name()}{sx}{d}{pos}", rng))
  # elements
  for i in elems:
    if i not in rec.holes:
      continue
    out.append((f"e{i}none", lambda v, i=i: v[i] == NONE))
    out.append((f"e{i}some", lambda v, i=i: v[i] != NONE))
    for P in e.preds:
      out.append((f"e{i}{P.name()}", lambda v, i=i, P=P: P(v[i])))
      out.append((f"e{i}not{P.name()}", lambda v, i=i, P=P: z3.Not(P(v[i]))))
    for F in e.funcs:
      for k in keys:
        fk = terms[k]
        out.append((f"e{i}={F.name()}({k})", lambda v, i=i, F=F, fk=fk: v[i] == F(fk(v))))
        out.append((f"e{i}={F.name()}({k}-1)", lambda v, i=i, F=F, fk=fk: v[i] == F(fk(v) - 1)))
    for j in elems:
      if j < i or (j not in rec.holes and not newer(vals[j], lim) and j != i):
        if j in rec.holes:
          out.append((f"e{i}=e{j}", lambda v, i=i, j=j: v[i] == v[j]))
        else:
          out.append((f"e{i}=c{j}", lambda v, i=i, z=vals[j]: v[i] == z))
  # sequences
  for i in seqs:
    if i not in rec.holes or leaves[i].value.kind is None:
      continue
    kind = leaves[i].value.kind
    for j in seqs:
      if j == i or leaves[j].value.kind != kind or (j in rec.holes and j < i):
        continue
      if j not in rec.holes and leaf_newer(leaves[j], lim):
        continue

      def eqseq(v, i=i, j=j, kind=kind):
        k = z3.Int("k!b")
        return z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < v[i].n, k < v[j].n),
            val2z(v[i].f(k), kind) == val2z(v[j].f(k), kind)))

      out.append((f"s{i}=s{j}", eqseq))
    if kind == "elem":
      for F in e.funcs:
        for key in keys:
          for d in (0, 1):
            def isF(v, i=i, F=F, fk=terms[key], d=d):
              k = z3.Int("k!b")
              base = fk(v) - (v[i].n if d else 0)
              return z3.ForAll([k], z3.Implies(
                  z3.And(k >= 0, k < v[i].n),
                  v[i].f(k).e == F(base + k)))
            out.append((f"s{i}={F.name()}({key},{d})", isF))
    for j in range(len(e.seqdefs)):
      if kind in ("elem", "int"):
        def isdef(v, i=i, j=j, kind=kind):
          k = z3.Int("k!b")
          t = seqdef_value(j, k)
          if t is None:
            return z3.BoolVal(False)
          t = t.e if isinstance(t, Sym) else t
          if t.sort() != (z3.IntSort() if kind == "int" else U):
            return z3.BoolVal(False)
          return z3.ForAll([k], z3.Implies(
              z3.And(k >= 0, k < v[i].n), val2z(v[i].f(k), kind) == t))
        out.append((f"s{i}=def{j}", isdef))
  for j in range(len(e.hints)):
    out.append((f"hint{j}", lambda v, j=j: hint_value(j)))
  # facts on the parameters known on this arrival
  seen = set()
  for c in e.pc[len(loop.entry_pc):]:
    if not newer(c, lim) and not z3.is_quantifier(c):
      s = c.sexpr()
      if s not in seen:
        seen.add(s)
        out.append((f"pc {s}", lambda v, c=c: c))
  # templates given with the contract
  for name, tmpl in e.templates:
    for key in vary + [k for k in keys if k not in vary]:
      for key2 in keys:
        if key == key2:
          continue
        c = tmpl(z3.Int("a!t"), z3.Int("b!t"))
        out.append((f"T{name}({key},{key2})",
                    lambda v, t=tmpl, a=terms[key], b=terms[key2]: t(a(v), b(v))))
  # keep the candidates which make sense before havoc: drop duplicates
  names, res = set(), []
  for n, b in out:
    if n not in names:
      names.add(n)
      res.append((n, b))
  # candidates may not mention newer symbols when built on hole symbols only
  return res


def loc(d, it, dead):
  return {k: v for k, v in d.items()
          if (not k.startswith("_vc_") or k == it) and k not in dead}


def truth_of_len(x):
  """What bool(x) does when x has a length only."""
  return bool(x.__len__() != 0)
