"""Path-wise verification-condition generation over the real CPython bodies.

The functions under contract are executed by CPython itself on proxy values
(`SymInt`, `SymBool`, `SymElem`, symbolic lists).  Every branch on a proxy is a
decision; all decision sequences are enumerated.  Loops whose trip count
depends on proxies are cut: at the loop head the modified part of the reachable
heap is havocked and an inductive invariant, inferred by Houdini from a template
vocabulary and checked at entry and at every back edge, is assumed.  Assertions
become queries `path condition => assertion` for z3 (second opinion: cvc5).
"""
from __future__ import annotations

import fractions
import itertools
import os
import time
import types

import z3

U = z3.DeclareSort("Elem")
NONE = z3.Const("elem_none", U)


class EngineExit(BaseException):
  """Base of the exceptions which end the exploration of one path."""


class PathDone(EngineExit):
  pass


class Infeasible(EngineExit):
  pass


class Restart(EngineExit):
  pass


class ToolLimit(EngineExit):
  """The construct is outside of the verifier's reach."""


class Unsupported(ToolLimit):
  pass


# --------------------------------------------------------------------------
# Engine state
# --------------------------------------------------------------------------
E: "Engine | None" = None


def cur() -> "Engine":
  if E is None or E.ended:
    raise PathDone()
  return E


class Failure:

  def __init__(self, label, kind, detail, model=None):
    self.label, self.kind, self.detail, self.model = label, kind, detail, model

  def as_dict(self):
    return dict(obligation=self.label, kind=self.kind, detail=self.detail,
                counterexample=self.model)


class Ob:

  def __init__(self):
    self.n = 0
    self.ok = 0
    self.time = 0.0
    self.backends = {}


class Inst:
  """A loop activation context (site + decisions taken before entry)."""

  def __init__(self, site, dec=()):
    self.site = site
    self.dec = dec           # the decisions taken before the loop was entered
    self.shapes = {}
    self.widen = set()
    self.entry_pc = None


class NoBranch(BaseException):
  """A case split while the form of an item is probed."""


class ShapeRec:

  def __init__(self):
    self.holes = set()      # positions of int/elem/seq leaves which vary
    self.consts = None      # first values of the leaves
    self.cands = None       # list of (name, builder)
    self.carrier = None
    self.syms = {}
    self.stable = 0
    self.gen = set()        # lists already generalised
    self.extra = []
    self.entry = None
    self.head = None


class Engine:

  def __init__(self, name, timeout_ms=15000, deadline=None, max_paths=20000,
               verbose=False, cut_sites=None):
    self.name = name
    self.timeout_ms = timeout_ms
    self.deadline = deadline
    self.max_paths = max_paths
    self.verbose = verbose
    self.cut_sites = cut_sites if cut_sites is not None else set()
    self.insts = {}
    self.obs = {}
    self.failures = []
    self.covers = {}
    self.solver_time = 0.0
    self.queries = 0
    self.n_paths = 0
    self.ended = True
    self.templates = []
    self.funcs = []          # registered Int->U functions for templates
    self.rounds = 0
    self.inv_count = 0
    self.loops_cut = {}
    self.dirty = False
    self.dirty_inst = None
    self.checking = False
    self.touched = set()
    self.unroll = 3

  # -- path -----------------------------------------------------------------
  def begin(self, prefix):
    self.prefix = list(prefix)
    self.dec = []
    self.pc = []
    self.qfacts = []
    self.axioms = []
    self.counter = itertools.count()
    self.act_counter = itertools.count()
    self.pc_probe = False
    self._solver = None
    self.skolems = itertools.count()
    self.ended = False
    self.tags = {}
    self.last_head = None
    self._sync_reset()
    self.memo = {}
    self.params = []
    self.templates = []
    self.funcs = []
    self.preds = []
    self.hints = []
    self.plain = set()
    self.seqdefs = []
    self.alias_ok = []
    self.ev_dec, self.ev_n = None, 0

  def fresh(self, base, sort=None):
    n = next(self.counter)
    nm = f"{base}!{n}"
    if sort is None:
      return z3.Int(nm)
    return z3.Const(nm, sort)

  def rebuild_solver(self):
    self._sync_reset()
    self._solver = None

  @property
  def solver(self):
    """The solver of the path, built when the first query is asked."""
    s = self._solver
    if s is None:
      s = self._solver = z3.Solver()
      s.set("timeout", self.timeout_ms)
      s.add(*self.axioms, *self.pc, *self.ground)
    return s

  def tell(self, c):
    if self._solver is not None:
      self._solver.add(c)

  @property
  def replaying(self):
    """Is the path still on decisions which an earlier path of the sweep took?
    That path has done every query up to here."""
    return len(self.dec) < len(self.prefix)

  def remember(self, fn):
    """The result of `fn()`, or on a replayed part what it was the first time."""
    key = tuple(self.dec)
    if self.ev_dec != key:
      self.ev_dec, self.ev_n = key, 0
    self.ev_n += 1
    key = (key, self.ev_n)
    if self.replaying and key in self.results:
      out, n = self.results[key]
      self.counter = itertools.count(n)
      return out
    out = fn()
    n = next(self.counter)
    self.results[key] = (out, n + 1)
    self.counter = itertools.count(n + 1)
    return out

  def mark(self, inst):
    """The invariants of a loop changed in this pass."""
    self.dirty = True
    if self.dirty_inst is None:
      self.dirty_inst = inst

  def assume(self, c):
    c = as_z3b(c)
    if z3.is_true(c):
      return
    if z3.is_quantifier(c):
      self.qfacts.append(qfact(c))
      return
    self.pc.append(c)
    self.tell(c)

  def _sync_reset(self):
    self.s_pc = self.s_ax = self.s_q = 0
    self.app_seen = set()
    self.app_db = {}
    self.inst_seen = set()
    self.ground = []          # instances of the facts already asserted

  def sync(self):
    """Asserts the ground instances of the quantified facts for the terms of
    the path condition (incrementally)."""
    if not self.qfacts:
      return
    items = self.axioms[self.s_ax:] + self.pc[self.s_pc:]
    self.s_ax, self.s_pc = len(self.axioms), len(self.pc)
    fresh_q = self.qfacts[self.s_q:]
    self.s_q = len(self.qfacts)
    if fresh_q:
      for q in fresh_q:
        for inst in q.instantiate(self.app_db, self.inst_seen):
          self.ground.append(inst)
          self.tell(inst)
          items.append(inst)
    for _ in range(3):
      if not items:
        return
      new = self._new_apps(items, self.app_db, self.app_seen)
      items = []
      if new:
        for q in self.qfacts:
          for inst in q.instantiate(new, self.inst_seen):
            self.ground.append(inst)
            self.tell(inst)
            items.append(inst)

  @staticmethod
  def _new_apps(items, db, seen, base=None):
    new = {}
    for t in items:
      for name, i, arg in item_apps(t):
        key = (name, i)
        if key in seen or (base is not None and key in base):
          continue
        seen.add(key)
        db.setdefault(name, {})[i] = arg
        new.setdefault(name, {})[i] = arg
    return new

  def instances(self, extra):
    """Ground instances for the terms of a query."""
    if not self.qfacts:
      return []
    self.sync()
    out, seen_inst = [], set()
    db, seen = {}, set()
    todo = list(extra)
    for _ in range(3):
      new = self._new_apps(todo, db, seen, self.app_seen)
      todo = []
      if not new:
        break
      for q in self.qfacts:
        for inst in q.instantiate(new, seen_inst, self.inst_seen):
          out.append(inst)
          todo.append(inst)
          if len(out) > 600:
            return out
    return out

  def axiom(self, c):
    """A definitional fact, valid independently of the path."""
    self.axioms.append(c)
    self.tell(c)

  def _sat(self, *cs):
    if self.deadline and time.time() > self.deadline:
      raise ToolLimit("time budget of the check used up")
    t = time.time()
    r = self.solver.check(*cs)
    self.solver_time += time.time() - t
    self.queries += 1
    return r

  def branch(self, c) -> bool:
    if self.ended:
      raise PathDone()
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    if self.pc_probe:
      out = self.remember(
          lambda: True if self._sat(z3.Not(c)) == z3.unsat
          else False if self._sat(c) == z3.unsat else None)
      if out is None:
        raise NoBranch()
      return out
    i = len(self.dec)
    if i < len(self.prefix):
      out = self.prefix[i]
    else:
      sf = self._sat(z3.Not(c)) != z3.unsat
      st = (self._sat(c) != z3.unsat) if sf else True
      if st and sf:
        self.work.append(self.dec + [False])
        out = True
      elif st:
        # maybe the path condition itself is infeasible; harmless.
        out = True
      elif sf:
        out = False
      else:
        self.ended = True
        raise Infeasible()
    self.dec.append(out)
    self.assume(c if out else z3.Not(c))
    return out

  def choose(self, n: int) -> int:
    """Unconstrained choice among n alternatives."""
    if self.ended:
      raise PathDone()
    if n == 1:
      return 0
    if self.pc_probe:
      raise NoBranch()
    i = len(self.dec)
    if i < len(self.prefix):
      out = self.prefix[i]
    else:
      for k in range(n - 1, 0, -1):
        self.work.append(self.dec + [("c", k)])
      out = ("c", 0)
    self.dec.append(out)
    return out[1]

  def concretize(self, e, cap=24):
    """Forks over the possible values of an integer expression."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
      return e.as_long()
    for _ in range(cap):
      i = len(self.dec)
      if i < len(self.prefix):
        # replay: the decision holds (value, taken)
        v, taken = self.prefix[i][1]
        self.dec.append(self.prefix[i])
        self.assume(e == v if taken else e != v)
        if taken:
          return v
        continue
      r = self._sat()
      if r == z3.unsat:
        self.ended = True
        raise Infeasible()
      if r == z3.unknown:
        raise ToolLimit("solver gave up while enumerating an integer")
      v = self.solver.model().eval(e, model_completion=True).as_long()
      # prefer small magnitudes for determinism of shape
      if self._sat(e != v) != z3.unsat:
        self.work.append(self.dec + [("v", (v, False))])
      self.dec.append(("v", (v, True)))
      self.assume(e == v)
      return v
    raise ToolLimit("an unbounded integer is used where Python needs a concrete one")

  # -- obligations ------------------------------------------------------------
  def prove(self, c, extra=(), quick=False):
    """Returns ("ok", backend) / ("fail", model) / ("unknown", reason)."""
    c = z3.simplify(as_z3b(c))
    if z3.is_true(c):
      return "ok", "simplifier"
    if z3.is_quantifier(c):
      vs = [z3.Const(f"sk!{next(self.skolems)}", c.var_sort(i))
            for i in range(c.num_vars())]
      c = z3.simplify(z3.substitute_vars(c.body(), *reversed(vs)))
    extra = list(extra) + self.instances([c] + list(extra))
    r = self._sat(z3.Not(c), *extra)
    if r == z3.unsat:
      return "ok", "z3"
    if r == z3.sat:
      return "fail", self.solver.model()
    if quick:
      return "unknown", ""
    # second opinion on a hard query
    s = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
    s.set("timeout", self.timeout_ms)
    for a in self.axioms + self.pc + self.ground:
      s.add(a)
    s.add(z3.Not(c), *extra)
    t = time.time()
    r = s.check()
    self.solver_time += time.time() - t
    if r == z3.unsat:
      return "ok", "z3-tactic"
    r2 = cvc5_check(self.axioms + self.pc + self.ground + [z3.Not(c)] + list(extra),
                    self.timeout_ms)
    if r2 == "unsat":
      return "ok", "cvc5"
    if r == z3.sat:
      return "fail", s.model()
    return "unknown", "z3: " + self.solver.reason_unknown()

  def check(self, c, label):
    if self.ended:
      raise PathDone()
    if not self.checking or self.replaying:
      return
    t = time.time()
    r, info = self.prove(c)
    ob = self.obs.setdefault(label, Ob())
    ob.n += 1
    ob.time += time.time() - t
    if r == "ok":
      ob.ok += 1
      ob.backends[info] = ob.backends.get(info, 0) + 1
      return
    model = None
    if r == "fail":
      model = {str(d): str(info[d])[:120] for d in info.decls()[:40]}
    self.failures.append(
        Failure(label, r, str(info)[:400] if r != "fail" else str(c)[:400],
                model))

  def cover(self, label):
    """Reachability witness: at least one feasible path must get here."""
    if self.ended:
      raise PathDone()
    if not self.checking or self.replaying:
      return
    if self.covers.get(label):
      return
    self.covers[label] = self._sat() == z3.sat

  # -- driver -----------------------------------------------------------------
  def verify(self, harness, expect_exc=()):
    global E
    try:
      while True:
        try:
          return self._verify(harness)
        except Restart:
          self.insts = {}
          continue
    finally:
      self.ended = True
      E = None

  def _verify(self, harness):
    """Sweeps the path tree; a loop whose invariants change is swept again,
    alone, before anything that comes after it.  The last sweep covers the whole
    tree, changes nothing, and is the one whose obligations count."""
    stable = False
    for rnd in range(400):
      self.changed = False
      self.checking = stable
      self.obs, self.failures, self.covers = {}, [], {}
      self._reset_carriers(())
      self._pass(harness)
      if self.changed:
        stable = False
        continue
      if stable:
        self.inv_count = sum(
            len(s.cands or ()) for i in self.insts.values()
            for s in i.shapes.values())
        return self
      stable = True
    raise ToolLimit("invariant inference did not converge")

  def _reset_carriers(self, pre):
    self.dirty = False
    self.dirty_inst = None
    self.rounds += 1
    if self.rounds > 4000:
      raise ToolLimit("invariant inference did not converge")
    for inst in self.insts.values():
      if inst.dec[:len(pre)] == pre:
        for s in inst.shapes.values():
          s.carrier = None

  def _pass(self, harness):
    global E
    self.work = [[]]
    self.results = {}
    n = 0
    while True:
      if self.dirty:
        self.changed = True
        self.checking = False
        pre = self.dirty_inst.dec
        if not self.work or tuple(self.work[-1][:len(pre)]) != pre:
          self.work.append(list(pre))
          self._reset_carriers(pre)
      if not self.work:
        break
      prefix = self.work.pop()
      n += 1
      if n > self.max_paths:
        raise ToolLimit("too many paths")
      E = self
      self.begin(prefix)
      try:
        harness()
      except (PathDone, Infeasible):
        pass
      except EngineExit:
        raise
      except RecursionError as e:
        raise ToolLimit(f"recursion: {e}")
      except Exception as e:  # an exception escapes the function under contract
        if self.checking and self._sat() != z3.unsat:
          import traceback
          tb = traceback.extract_tb(e.__traceback__)[-3:]
          where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb)
          self.failures.append(Failure(
              "no-unexpected-exception", "fail",
              f"{type(e).__name__}: {str(e)[:200]} at {where}"))
          if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
      finally:
        self.ended = True
    self.n_paths = n
    if self.verbose:
      print(f"  [{self.name}] round {self.rounds} paths={n} dirty={self.dirty}"
            f" cands={sum(len(s.cands or ()) for i in self.insts.values() for s in i.shapes.values())}"
            f" t={self.solver_time:.1f}")


class QFact:
  """forall k. body(k), instantiated at the arguments of its applications."""

  def __init__(self, q):
    self.k = z3.Int("k!inst")
    self.cache = {}
    self.body = z3.substitute_vars(q.body(), self.k)
    self.pats = []
    apps = {}
    collect_apps(self.body, apps, set())
    for name, args in apps.items():
      for a in args.values():
        if not contains(a, self.k):
          continue
        base = z3.simplify(z3.substitute(a, (self.k, z3.IntVal(0))))
        if z3.is_true(z3.simplify(a - base == self.k)):
          self.pats.append((name, base, 1))
        elif z3.is_true(z3.simplify(base - a == self.k)):
          self.pats.append((name, base, -1))
    pref = [x for x in self.pats if x[0].startswith("hg!")]
    if pref:
      self.pats = pref
    if not self.pats:
      raise Unsupported("quantified fact without a usable trigger")

  def instantiate(self, apps, seen, seen2=()):
    for name, base, sg in self.pats:
      for t in list(apps.get(name, {}).values()):
        k = keep(z3.simplify(t - base if sg == 1 else base - t))
        key = (id(self), k.get_id())
        if key in seen or key in seen2:
          continue
        seen.add(key)
        inst = self.cache.get(k.get_id())
        if inst is None:
          inst = self.cache[k.get_id()] = keep(
              z3.simplify(z3.substitute(self.body, (self.k, k))))
        yield inst


QF = {}


def qfact(c):
  i = c.get_id()
  r = QF.get(i)
  if r is None:
    keep(c)
    r = QF[i] = QFact(c)
  return r


def contains(e, k):
  st, seen = [e], set()
  while st:
    x = st.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if x.eq(k):
      return True
    st.extend(x.children())
  return False


def collect_apps(e, acc, seen):
  """Unary uninterpreted applications on integers: name -> {id: argument}."""
  st = [e]
  while st:
    x = st.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    k = x._ast_kind() if hasattr(x, "_ast_kind") else z3.Z3_get_ast_kind(x.ctx_ref(), x.as_ast())
    if k == z3.Z3_APP_AST:
      n = x.num_args()
      if n == 0:
        continue
      ch = x.children()
      if n == 1:
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(ch[0]):
          acc.setdefault(d.name(), {})[ch[0].get_id()] = ch[0]
      st.extend(ch)
    elif k == z3.Z3_QUANTIFIER_AST:
      st.append(x.body())
  return acc


KEPT = {}


def keep(e):
  """Keeps the term alive, so that its id stays its own."""
  i = e.get_id()
  if i not in KEPT:
    KEPT[i] = e
  return e


APPS = {}


def item_apps(t):
  i = t.get_id()
  r = APPS.get(i)
  if r is None:
    keep(t)
    acc = collect_apps(t, {}, set())
    r = APPS[i] = [(name, j, keep(a)) for name, d in acc.items()
                   for j, a in d.items()]
  return r


def cvc5_check(assertions, timeout_ms):
  try:
    import cvc5
  except ImportError:
    return "unknown"
  try:
    s = z3.Solver()
    for a in assertions:
      s.add(a)
    smt = s.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", str(timeout_ms))
    slv.setLogic("ALL")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
    sm = p.getSymbolManager()
    res = "unknown"
    while True:
      cmd = p.nextCommand()
      if cmd.isNull():
        break
      out = str(cmd.invoke(slv, sm)).strip()
      if out in ("sat", "unsat"):
        res = out
    return res
  except Exception:  # parser limits of cvc5 etc.: no second opinion
    return "unknown"


# --------------------------------------------------------------------------
# Proxies
# --------------------------------------------------------------------------
def as_z3b(c):
  if isinstance(c, SymBool):
    return c.e
  if c is True or c is False:
    return z3.BoolVal(c)
  if isinstance(c, z3.BoolRef):
    return c
  if type(c).__name__ == "bool_":
    return z3.BoolVal(bool(c))
  raise TypeError(f"not a condition: {c!r}")


class Sym:
  __slots__ = ("e",)

  def __init__(self, e):
    self.e = e

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __reduce__(self):
    raise Unsupported("pickling a symbolic value")


class SymBool(Sym):
  __slots__ = ()

  @property
  def __class__(self):
    return bool

  def __bool__(self):
    return cur().branch(self.e)

  def __repr__(self):
    return f"SymBool({self.e})"

  def __eq__(self, o):
    if type(o) in (SymBool, bool):
      return mkbool(self.e == as_z3b(o))
    return NotImplemented

  def __ne__(self, o):
    if type(o) in (SymBool, bool):
      return mkbool(z3.Xor(self.e, as_z3b(o)))
    return NotImplemented

  def __hash__(self):
    return hash(bool(self))

  def __invert__(self):
    return mkbool(z3.Not(self.e))

  def __and__(self, o):
    return mkbool(z3.And(self.e, as_z3b(o)))

  __rand__ = __and__

  def __or__(self, o):
    return mkbool(z3.Or(self.e, as_z3b(o)))

  __ror__ = __or__

  def _int(self):
    return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

  def __add__(self, o):
    return self._int() + o

  __radd__ = __add__

  def __int__(self):
    return int(bool(self))

  def __index__(self):
    return int(bool(self))


def mkbool(e):
  e = z3.simplify(e)
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  return SymBool(e)


def mkint(e):
  e = z3.simplify(e)
  if z3.is_int_value(e):
    return e.as_long()
  return SymInt(e)


def is_int(x):
  t = type(x)
  return t is SymInt or t is int


def i2z(x):
  t = type(x)
  if t is SymInt:
    return x.e
  if t is int:
    return z3.IntVal(x)
  if t is bool:
    return z3.IntVal(int(x))
  if t is SymBool:
    return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, z3.ArithRef):
    return x
  if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
    v = x.item()
    if isinstance(v, int):
      return z3.IntVal(v)
  return None


def _sym_divmod(a, b):
  """Python floor division on z3 ints; b known non-zero on this path."""
  en = cur()
  key = ("dm", a.get_id(), b.get_id())
  hit = en.memo.get(key)
  if hit is not None:
    return hit[0], hit[1]
  if z3.is_int_value(b):
    bv = b.as_long()
    if bv > 0:
      q, r = a / b, a % b
    else:
      # floor(a / b) for negative b
      nq = (-a) / z3.IntVal(-bv)
      nr = (-a) % z3.IntVal(-bv)
      q, r = nq, -nr
    en.memo[key] = (q, r, a, b)
    return q, r
  FD = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
  FM = z3.Function("fmod", z3.IntSort(), z3.IntSort(), z3.IntSort())
  q, r = FD(a, b), FM(a, b)
  en.axiom(z3.Implies(b > 0, z3.And(r >= 0, r < b, a == q * b + r)))
  en.axiom(z3.Implies(b < 0, z3.And(r <= 0, r > b, a == q * b + r)))
  # monotonicity facts the nonlinear core is weak at
  en.axiom(z3.Implies(z3.And(b > 0, a >= 0), q >= 0))
  en.axiom(z3.Implies(z3.And(b > 0, a >= 0), q <= a))
  en.axiom(z3.Implies(z3.And(b > 0, a >= 0, a < b), z3.And(q == 0, r == a)))
  en.axiom(z3.Implies(z3.And(b > 0, a < 0), q < 0))
  en.memo[key] = (q, r, a, b)
  rest, cof = _pull_multiples(a, b)
  if cof is not None:
    # (rest + cof * b) // b = rest // b + cof
    q0, r0 = _sym_divmod(rest, b)
    en.axiom(z3.And(q == q0 + cof, r == r0))
  return q, r


def _addends(e, sign, out):
  if z3.is_add(e):
    for x in e.children():
      _addends(x, sign, out)
  elif z3.is_sub(e):
    xs = e.children()
    _addends(xs[0], sign, out)
    for x in xs[1:]:
      _addends(x, -sign, out)
  elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
    _addends(e.arg(0), -sign, out)
  else:
    out.append((sign, e))


def _factors(e, out):
  if z3.is_mul(e):
    for x in e.children():
      _factors(x, out)
  else:
    out.append(e)


def _pull_multiples(a, b):
  """(rest, cofactor) with a == rest + cofactor * b, by structure; or None."""
  adds, rest, cof = [], [], []
  _addends(a, 1, adds)
  bs = z3.simplify(b)
  for sign, t in adds:
    fs = []
    _factors(t, fs)
    for i, f in enumerate(fs):
      if f.get_id() == b.get_id() or z3.simplify(f).eq(bs):
        others = fs[:i] + fs[i + 1:]
        v = z3.IntVal(sign)
        for o in others:
          v = v * o
        cof.append(v)
        break
    else:
      rest.append(t if sign > 0 else -t)
  if not cof:
    return a, None
  return (z3.simplify(z3.Sum(rest)) if rest else z3.IntVal(0)), z3.simplify(z3.Sum(cof))


class SymInt(Sym):
  __slots__ = ()

  @property
  def __class__(self):
    return int

  def __repr__(self):
    return f"SymInt({self.e})"

  def __str__(self):
    return f"<{self.e}>"

  def __format__(self, spec):
    return str(self)

  def _bin(self, o, f, swap=False):
    if type(o) is float or type(o) is SymReal:
      r = fround(z3.ToReal(self.e))
      return f(o, r) if swap else f(r, o)
    z = i2z(o)
    if z is None:
      return NotImplemented
    return mkint(f(z, self.e) if swap else f(self.e, z))

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)

  def __radd__(self, o):
    return self._bin(o, lambda a, b: a + b, True)

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: a - b, True)

  def __mul__(self, o):
    if isinstance(o, (list, tuple, str)) and not isinstance(o, Sym):
      return NotImplemented
    return self._bin(o, lambda a, b: a * b)

  def __rmul__(self, o):
    if isinstance(o, (list, tuple, str)):
      from pyvc import rt
      return rt.list_repeat(o, self)
    return self._bin(o, lambda a, b: a * b, True)

  def __neg__(self):
    return mkint(-self.e)

  def __pos__(self):
    return self

  def __abs__(self):
    return mkint(z3.If(self.e >= 0, self.e, -self.e))

  def _dm(self, o, swap=False):
    z = i2z(o)
    if z is None:
      return None
    a, b = (z, self.e) if swap else (self.e, z)
    if z3.is_int_value(b):
      if b.as_long() == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    elif cur().branch(b == 0):
      raise ZeroDivisionError("integer division or modulo by zero")
    return _sym_divmod(a, b)

  def __floordiv__(self, o):
    if type(o) in (float, SymReal):
      return (self / o).__floor__()
    r = self._dm(o)
    return NotImplemented if r is None else mkint(r[0])

  def __rfloordiv__(self, o):
    r = self._dm(o, True)
    return NotImplemented if r is None else mkint(r[0])

  def __mod__(self, o):
    r = self._dm(o)
    return NotImplemented if r is None else mkint(r[1])

  def __rmod__(self, o):
    if isinstance(o, str):
      return o
    r = self._dm(o, True)
    return NotImplemented if r is None else mkint(r[1])

  def __divmod__(self, o):
    r = self._dm(o)
    return NotImplemented if r is None else (mkint(r[0]), mkint(r[1]))

  def __rdivmod__(self, o):
    r = self._dm(o, True)
    return NotImplemented if r is None else (mkint(r[0]), mkint(r[1]))

  def __truediv__(self, o):
    z = i2z(o)
    if z is not None:
      return _int_quotient(self.e, z)
    return fround(z3.ToReal(self.e)) / o

  def __rtruediv__(self, o):
    z = i2z(o)
    if z is not None:
      return _int_quotient(z, self.e)
    return toreal(o) / fround(z3.ToReal(self.e))

  def __pow__(self, o):
    if type(o) is int and 0 <= o <= 4:
      r = 1
      for _ in range(o):
        r = self * r
      return r
    raise Unsupported("symbolic power")

  def __and__(self, o):
    if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
      return self % (o + 1)
    raise Unsupported("bitwise operation on an unbounded integer")

  __rand__ = __and__

  def __lshift__(self, o):
    if type(o) is int:
      return self * (1 << o)
    raise Unsupported("symbolic shift")

  def __rshift__(self, o):
    if type(o) is int:
      return self // (1 << o)
    raise Unsupported("symbolic shift")

  def _cmp(self, o, f):
    if type(o) is float:
      if o == float("inf") or o == float("-inf"):
        return f(0.0, o)
      return mkbool(f(z3.ToReal(self.e), toreal(o).e))
    if type(o) is SymReal:
      return mkbool(f(z3.ToReal(self.e), o.e))
    z = i2z(o)
    if z is None:
      return NotImplemented
    return mkbool(f(self.e, z))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __eq__(self, o):
    r = self._cmp(o, lambda a, b: a == b)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    r = self._cmp(o, lambda a, b: a != b)
    return True if r is NotImplemented else r

  def __bool__(self):
    return cur().branch(self.e != 0)

  def __hash__(self):
    return hash(cur().concretize(self.e))

  def __index__(self):
    return cur().concretize(self.e)

  def __int__(self):
    return cur().concretize(self.e)

  def __float__(self):
    return float(cur().concretize(self.e))

  def __ceil__(self):
    return self

  def __floor__(self):
    return self

  def __trunc__(self):
    return self

  def __round__(self, nd=None):
    return self

  def bit_length(self):
    e = cur()
    b = e.fresh("bits")
    a = z3.If(self.e >= 0, self.e, -self.e)
    e.axiom(z3.And(b >= 0, (b == 0) == (a == 0)))
    for t in (1, 8, 15, 16, 24, 31, 32, 33, 48, 53, 62, 63, 64, 65, 128):
      e.axiom((a < (1 << t)) == (b <= t))
    return SymInt(b)

  def item(self):
    return self


def toreal(o):
  t = type(o)
  if t is SymReal:
    return o
  if t is SymInt:
    return SymReal(z3.ToReal(o.e))
  if t is int or t is bool:
    return SymReal(z3.RealVal(int(o)))
  if t is float:
    f = fractions.Fraction(o)
    return SymReal(z3.RealVal(f"{f.numerator}/{f.denominator}"))
  if hasattr(o, "item"):
    return toreal(o.item())
  return None


F53 = 1 << 53


def fround(x, quot=None):
  """The double nearest to the real x: an unknown real, of which is known that
  the relative error is at most 2**-53, that rounding is monotone around whole
  numbers up to 2**53 (which are doubles), and, for a quotient of two whole
  numbers below 2**53, that it does not cross a whole number.  (Overflow,
  underflow and NaN are outside of this: assumption `float-range`.)"""
  en = cur()
  x = z3.simplify(x)
  if z3.is_rational_value(x):
    f = x.as_fraction()
    g = fractions.Fraction(f.numerator / f.denominator)
    return SymReal(z3.RealVal(f"{g.numerator}/{g.denominator}"))
  key = ("fround", x.get_id())
  if key in en.memo:
    return SymReal(en.memo[key][0])
  r = en.fresh("fl", z3.RealSort())
  k = en.fresh("flk")
  en.axiom(z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1))
  en.axiom(z3.Implies(
      z3.And(-F53 <= k, k < F53),
      z3.And(z3.ToReal(k) <= r, r <= z3.ToReal(k) + 1,
             z3.Implies(x == z3.ToReal(k), r == x))))
  en.axiom(z3.If(x >= 0,
                 z3.And((F53 - 1) * x <= F53 * r, F53 * r <= (F53 + 1) * x),
                 z3.And((F53 + 1) * x <= F53 * r, F53 * r <= (F53 - 1) * x)))
  en.memo[key] = (r, x)
  if quot is not None:
    en.memo[("fquot", r.get_id())] = (quot, r)
  return SymReal(r)


def _int_quotient(a, b):
  if cur().branch(b == 0):
    raise ZeroDivisionError("division by zero")
  return fround(z3.ToReal(a) / z3.ToReal(b), (a, b))


class SymReal(Sym):
  """A double, as the real number it stands for; operations round (fround)."""
  __slots__ = ()

  @property
  def __class__(self):
    return float

  def __repr__(self):
    return f"SymReal({self.e})"

  def _b(self, o, f, swap=False):
    r = toreal(o)
    if r is None:
      return NotImplemented
    if type(o) in (SymInt, int):
      r = fround(r.e)
    return fround(f(r.e, self.e) if swap else f(self.e, r.e))

  def __add__(self, o):
    return self._b(o, lambda a, b: a + b)

  __radd__ = __add__

  def __sub__(self, o):
    return self._b(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._b(o, lambda a, b: a - b, True)

  def __mul__(self, o):
    return self._b(o, lambda a, b: a * b)

  __rmul__ = __mul__

  def __neg__(self):
    return SymReal(-self.e)

  def _div(self, a, b):
    if cur().branch(b == 0):
      raise ZeroDivisionError("division by zero")
    return fround(a / b)

  def __truediv__(self, o):
    r = toreal(o)
    if type(o) in (SymInt, int):
      r = fround(r.e)
    return NotImplemented if r is None else self._div(self.e, r.e)

  def __rtruediv__(self, o):
    r = toreal(o)
    if type(o) in (SymInt, int):
      r = fround(r.e)
    return NotImplemented if r is None else self._div(r.e, self.e)

  def _c(self, o, f):
    if type(o) is float and o in (float("inf"), float("-inf")):
      return f(0.0, o)
    r = toreal(o)
    if r is None:
      return NotImplemented
    return mkbool(f(self.e, r.e))

  def __lt__(self, o):
    return self._c(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._c(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._c(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._c(o, lambda a, b: a >= b)

  def __eq__(self, o):
    r = self._c(o, lambda a, b: a == b)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    r = self._c(o, lambda a, b: a != b)
    return True if r is NotImplemented else r

  def __bool__(self):
    return cur().branch(self.e != 0)

  def __hash__(self):
    raise Unsupported("hash of a symbolic real")

  def _floorint(self):
    en = cur()
    key = ("fl", self.e.get_id())
    if key in en.memo:
      return en.memo[key][0]
    # a quotient of integers: use integer division (exact over the reals)
    q = en.fresh("floor")
    en.axiom(z3.And(z3.ToReal(q) <= self.e, self.e < z3.ToReal(q) + 1))
    e, sign = self.e, 1
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
      e, sign = e.arg(0), -1
    num = en.memo.get(("fquot", e.get_id()))
    if num is not None:
      a, b = num[0]
      fq, _ = _sym_divmod(z3.simplify(sign * a), b)
      en.axiom(z3.Implies(
          z3.And(-F53 < a, a < F53, 0 < b, b < F53), q == fq))
    en.memo[key] = (q, self.e)
    return q

  def __floor__(self):
    return mkint(self._floorint())

  def __ceil__(self):
    return mkint(-((-self)._floorint()))

  def __trunc__(self):
    if bool(self >= 0):
      return self.__floor__()
    return self.__ceil__()

  def __int__(self):
    raise Unsupported("int() of a symbolic real outside instrumented code")

  def __float__(self):
    raise Unsupported("float() of a symbolic real")


class SymElem(Sym):
  """An opaque element (may be None: compare with `elem_none`)."""
  __slots__ = ()

  def __repr__(self):
    return f"SymElem({self.e})"

  def __eq__(self, o):
    if type(o) is SymElem:
      return mkbool(self.e == o.e)
    if o is None:
      return mkbool(self.e == NONE)
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    if type(r) is bool:
      return not r
    return mkbool(z3.Not(r.e))

  def __hash__(self):
    raise Unsupported("hash of an opaque element")

  def __bool__(self):
    raise Unsupported("truth value of an opaque element")


def is_none(x):
  if type(x) is SymElem:
    return mkbool(x.e == NONE)
  return x is None


def to_elem(v):
  """Python value -> U term (only opaque elements and None)."""
  if v is None:
    return NONE
  if type(v) is SymElem:
    return v.e
  return None
