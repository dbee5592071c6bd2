"""Deductive verification of index_shuffle.cc over the LLVM IR of its source.

The file under /repo is compiled by clang (-O1, no contracts inlined, asserts on)
on every run and the functions are cut at their loop headers.  Facts at a header
are inferred by Houdini from candidates and proved inductive; the bijection is a
relational property of two runs with equal keys (all relevant pairs of inputs).

Contracts
  impl::index_shuffle<B>(index, max, seed, rounds)
    requires  index <= max < 2**B, rounds even
    ensures   the value is walked from index by a map T with T injective on
              [0, 2**B) and into it, until it is <= max, and is returned.
    (lemmas/FirstReturn.lean: such a walk ends and is injective on [0, max].)
  index_shuffle(index, max, seed, rounds)
    requires  index <= max < 2**63, rounds even in [4, 1024]
    ensures   max = 0 and 0 is returned, or the result of impl::index_shuffle<B>
              on the same arguments, for a B which depends on max only, and whose
              precondition holds; no assertion fails.
"""
import itertools
import re
import subprocess
import time

import z3

CC = "grain/_src/python/experimental/index_shuffle/index_shuffle.cc"


class Unsupported(Exception):
  pass


# -- IR --------------------------------------------------------------------------
class Fn:

  def __init__(self, name, params):
    self.name, self.params = name, params  # params: [(type, %name)]
    self.blocks, self.order = {}, []


def parse(text):
  fns, fn, cur = {}, None, None
  for line in text.splitlines():
    if line.startswith("define"):
      m = re.match(r"define .*?@([\w$.\"]+)\((.*)\)[^()]*\{$", line)
      if not m:
        fn = None
        continue
      ps = []
      depth, start, arg = 0, 0, m.group(2)
      parts = []
      for i, ch in enumerate(arg):
        depth += ch in "({<" and 1 or ch in ")}>" and -1 or 0
        if ch == "," and depth == 0:
          parts.append(arg[start:i])
          start = i + 1
      if arg:
        parts.append(arg[start:])
      for p in parts:
        w = p.split()
        ps.append((w[0], w[-1]))
      fn = Fn(m.group(1), ps)
      n = len(ps)
      cur = str(n)  # the entry block takes the next number
      fn.entry = cur
      fn.blocks[cur] = []
      fn.order.append(cur)
      fns[fn.name] = fn
    elif line.startswith("}"):
      fn = None
    elif fn is not None:
      m = re.match(r"^([\w.\-]+):", line)
      if m:
        cur = m.group(1)
        fn.blocks[cur] = []
        fn.order.append(cur)
      elif line.strip() and not line.strip().startswith(";"):
        s = line.strip()
        if fn.blocks[cur] and (s.startswith("i") and " label " in s and not "=" in s or s == "]"
                               or s.startswith("to label")):
          fn.blocks[cur][-1] += " " + s
        else:
          fn.blocks[cur].append(s)
  return fns


INT = r"i(\d+)"


def width(t):
  if t == "ptr":
    return 64
  m = re.fullmatch(INT, t)
  if not m:
    raise Unsupported(f"type {t}")
  return int(m.group(1))


def strip_meta(s):
  return re.sub(r"(, ?![\w.]+ ![\w]+|, ?![\w.]+ !DIExpression.*| #\d+)", "", s)


class Seg:
  """Symbolic execution of one path from a cut point to the next."""

  def __init__(self, v, fn, run, env, pure):
    self.v, self.fn, self.run, self.env, self.pure = v, fn, run, dict(env), pure

  def get(self, t, x):
    w = width(t)
    if x in ("null", "false"):
      return z3.BitVecVal(0, w)
    if x == "true":
      return z3.BitVecVal(1, w)
    if re.fullmatch(r"-?\d+", x):
      return z3.BitVecVal(int(x), w)
    if x in ("undef", "poison"):
      raise Unsupported("undefined value")
    if x.startswith("%"):
      if x not in self.env:
        self.env[x] = self.v.outside(self.fn, self.run, x, w)
      return self.env[x]
    raise Unsupported(f"operand {x}")


class Verifier:

  def __init__(self, text):
    self.fns = parse(text)
    self.log = {}      # obligation -> [n, discharged]
    self.failures = []
    self.queries = 0
    self.solver_time = 0.0
    self.loops = []
    self.inv = 0
    self.mem = z3.Function("mem", z3.BitVecSort(64), z3.BitVecSort(64))

  # -- solver --
  def valid(self, hyp, goal):
    s = z3.SolverFor("QF_UFBV")
    s.set("timeout", 60000)
    s.add(*hyp)
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    self.solver_time += time.time() - t
    self.queries += 1
    if r == z3.unsat:
      return True, None
    return False, (s.model() if r == z3.sat else str(r))

  def oblige(self, label, hyp, goal):
    ok, m = self.valid(hyp, goal)
    o = self.log.setdefault(label, [0, 0])
    o[0] += 1
    o[1] += ok
    if not ok:
      self.failures.append(dict(obligation=label, kind="not discharged",
                                detail=str(m)[:600]))
    return ok

  # -- structure --
  def succ(self, fn, b):
    t = strip_meta(fn.blocks[b][-1])
    return re.findall(r"label %([\w.\-]+)", t)

  def headers(self, fn):
    out, state = [], {}

    def dfs(b):
      state[b] = 1
      for s in self.succ(fn, b):
        if state.get(s) == 1:
          if s not in out:
            out.append(s)
        elif s not in state:
          dfs(s)
      state[b] = 2
    dfs(fn.entry)
    return out

  def reach(self, fn, start, stop):
    seen, todo = set(), [start]
    while todo:
      b = todo.pop()
      if b in seen:
        continue
      seen.add(b)
      if b != start and b in stop:
        continue
      todo += self.succ(fn, b)
    return seen

  def loop_body(self, fn, h):
    """Blocks from which h can be reached without ... (natural loop of h)."""
    preds = {}
    for b in fn.order:
      for s in self.succ(fn, b):
        preds.setdefault(s, []).append(b)
    # back edges: predecessors reachable from h
    fwd = self.reach(fn, h, ())
    body, todo = {h}, [p for p in preds.get(h, []) if p in fwd
                       and self.dominates(fn, h, p)]
    while todo:
      b = todo.pop()
      if b in body:
        continue
      body.add(b)
      todo += preds.get(b, [])
    return body

  def dominates(self, fn, a, b):
    if a == b:
      return True
    seen, todo = set(), [fn.entry]
    while todo:
      x = todo.pop()
      if x in seen or x == a:
        continue
      seen.add(x)
      todo += self.succ(fn, x)
    return b not in seen

  def phis(self, fn, b):
    out = []
    for s in fn.blocks[b]:
      m = re.match(r"(%[\w.]+) = phi ([\w]+) (.*)", strip_meta(s))
      if not m:
        break
      inc = re.findall(r"\[ ([^,]+), %([\w.\-]+) \]", m.group(3))
      out.append((m.group(1), m.group(2), {p: x.strip() for x, p in inc}))
    return out

  def defs(self, fn):
    d = {}
    for b in fn.order:
      for s in fn.blocks[b]:
        m = re.match(r"(%[\w.]+) = ", s)
        if m:
          d[m.group(1)] = (b, strip_meta(s))
    return d

  def taint(self, fn, sources):
    d = self.defs(fn)
    t = set(sources)
    changed = True
    while changed:
      changed = False
      for x, (_, s) in d.items():
        if x not in t and any(y in t for y in re.findall(r"%[\w.]+", s.split("=", 1)[1])):
          t.add(x)
          changed = True
    return t

  def outside(self, fn, run, x, w):
    """A value computed before the cut point: equal in both runs unless it
    depends on the index."""
    r = run if x in self.tainted else ""
    return z3.BitVec(f"{x}{'@' + r if r else ''}", w)

  # -- execution --
  def paths(self, fn, start, cuts, run, env, pure, calls=()):
    """Yields (conditions, kind, data) with kind 'cut' (block, {phi: term}),
    'ret' term, 'unreachable' name."""
    out = []

    def block(b, prev, seg, cond, n):
      if n > 200:
        raise Unsupported("path too long")
      if prev is not None:
        vals = {}
        for x, t, inc in self.phis(fn, b):
          if prev not in inc:
            raise Unsupported("phi without its predecessor")
          vals[x] = seg.get(t, inc[prev])
        if b in cuts:
          out.append((cond, "cut", (b, vals), seg))
          return
        seg.env.update(vals)
      noret = None
      for s in fn.blocks[b]:
        s = strip_meta(s)
        if re.match(r"%[\w.]+ = phi ", s):
          continue
        if s.startswith("br label"):
          return block(self.succ(fn, b)[0], b, seg, cond, n + 1)
        m = re.match(r"br i1 (\S+), label %([\w.\-]+), label %([\w.\-]+)", s)
        if m:
          c = seg.get("i1", m.group(1)) == 1
          for cc, tgt in ((c, m.group(2)), (z3.Not(c), m.group(3))):
            cc = z3.simplify(cc)
            if z3.is_false(cc):
              continue
            g = Seg(self, fn, run, seg.env, pure)
            g.log = list(seg.log)
            block(tgt, b, g, cond + [cc], n + 1)
          return
        m = re.match(r"switch (\w+) (\S+), label %([\w.\-]+) \[(.*)\]", s)
        if m:
          v = seg.get(m.group(1), m.group(2))
          w = width(m.group(1))
          rest = []
          for k, tgt in re.findall(r"i\d+ (-?\d+), label %([\w.\-]+)", m.group(4)):
            c = v == z3.BitVecVal(int(k), w)
            rest.append(z3.Not(c))
            g = Seg(self, fn, run, seg.env, pure)
            g.log = list(seg.log)
            block(tgt, b, g, cond + [c], n + 1)
          block(m.group(3), b, seg, cond + rest, n + 1)
          return
        m = re.match(r"ret (\w+) (\S+)", s)
        if m:
          out.append((cond, "ret", seg.get(m.group(1), m.group(2)), seg))
          return
        if s.startswith("unreachable"):
          out.append((cond, "unreachable", noret, seg))
          return
        noret = self.step(fn, seg, s, pure, calls) or noret
    seg = Seg(self, fn, run, env, pure)
    seg.log = []
    block(start, None, seg, [], 0)
    return out

  def step(self, fn, seg, s, pure, calls):
    m = re.match(r"(%[\w.]+) = (.*)", s)
    dst, body = (m.group(1), m.group(2)) if m else (None, s)
    op = body.split()[0]
    if op in ("tail", "musttail", "notail"):
      body = body.split(None, 1)[1]
      op = "call"
    g = seg.get
    BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
           "mul": lambda a, b: a * b, "and": lambda a, b: a & b,
           "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
           "shl": lambda a, b: a << b, "lshr": z3.LShR, "ashr": lambda a, b: a >> b,
           "udiv": z3.UDiv, "urem": z3.URem}
    if op in BIN:
      m = re.match(r"\w+((?: (?:nuw|nsw|exact|disjoint))*) (\w+) ([^,]+), (\S+)", body)
      t = m.group(2)
      seg.env[dst] = BIN[op](g(t, m.group(3)), g(t, m.group(4)))
      return
    if op == "icmp":
      m = re.match(r"icmp (?:samesign )?(\w+) (\w+) ([^,]+), (\S+)", body)
      a, b = g(m.group(2), m.group(3)), g(m.group(2), m.group(4))
      c = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b),
           "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b),
           "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
           "sgt": lambda: a > b, "sge": lambda: a >= b}[m.group(1)]()
      seg.env[dst] = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
      return
    if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr"):
      m = re.match(r"\w+(?: (?:nneg|nuw|nsw))* (\w+) (\S+) to (\w+)", body)
      v, a, b = g(m.group(1), m.group(2)), width(m.group(1)), width(m.group(3))
      seg.env[dst] = (v if a == b else z3.Extract(b - 1, 0, v) if b < a else
                      z3.SignExt(b - a, v) if op == "sext" else z3.ZeroExt(b - a, v))
      return
    if op == "freeze":
      m = re.match(r"freeze (\w+) (\S+)", body)
      seg.env[dst] = g(m.group(1), m.group(2))
      return
    if op == "select":
      m = re.match(r"select i1 ([^,]+), (\w+) ([^,]+), (\w+) (\S+)", body)
      seg.env[dst] = z3.If(g("i1", m.group(1)) == 1, g(m.group(2), m.group(3)),
                           g(m.group(4), m.group(5)))
      return
    if op == "getelementptr":
      m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*(i\d+), ptr ([^,]+), (i\d+) (\S+)$", body)
      if m:
        n = width(m.group(1)) // 8
        i = g(m.group(3), m.group(4))
        i = i if i.size() == 64 else z3.SignExt(64 - i.size(), i)
        seg.env[dst] = g("ptr", m.group(2)) + i * n
        return
      if pure:
        raise Unsupported("address " + body)
      seg.env[dst] = z3.BitVec(f"{dst}", 64)
      return
    if op == "load":
      m = re.match(r"load (?:volatile )?(\w+), ptr ([^,\s]+)", body)
      w = width(m.group(1))
      if pure:
        v = self.mem(g("ptr", m.group(2)))
        seg.env[dst] = z3.Extract(w - 1, 0, v)
      else:
        seg.env[dst] = self.outside(fn, seg.run, dst, w)
      return
    if op == "call":
      m = re.match(r"call .*?@([\w$.]+)\((.*)\)", body)
      if not m:
        raise Unsupported(body)
      name, args = m.group(1), m.group(2)
      if re.match(r"llvm\.(umax|umin|smax|smin)\.i\d+", name):
        a, b = [g(*re.match(r"(\w+) (?:\w+ )*(\S+)$", x.strip()).groups()) for x in args.split(",")]
        k = name.split(".")[1]
        c = {"umax": z3.UGE(a, b), "umin": z3.ULE(a, b), "smax": a >= b, "smin": a <= b}[k]
        seg.env[dst] = z3.If(c, a, b)
        return
      m2 = re.match(r"llvm\.(fshl|fshr)\.i(\d+)", name)
      if m2:
        a, b, k = [g(*re.match(r"(\w+) (?:\w+ )*(\S+)$", x.strip()).groups()) for x in args.split(",")]
        w = int(m2.group(2))
        cc = z3.Concat(a, b)
        k = z3.ZeroExt(w, z3.URem(k, z3.BitVecVal(w, w)))
        seg.env[dst] = (z3.Extract(2 * w - 1, w, cc << k) if m2.group(1) == "fshl"
                        else z3.Extract(w - 1, 0, z3.LShR(cc, k)))
        return
      m2 = re.match(r"llvm\.ct(lz|tz|pop)\.i(\d+)", name)
      if m2 and m2.group(1) == "lz":
        w = int(m2.group(2))
        a = g(*re.match(r"(\w+) (?:\w+ )*(\S+)$", args.split(",")[0].strip()).groups())
        v = z3.BitVecVal(w, w)
        for i in range(w):
          v = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), v)
        seg.env[dst] = v
        return
      if name.startswith("llvm.") and dst is None and not name.startswith(("llvm.mem",)):
        return  # lifetime markers, assumptions not used
      if name in calls:
        vals = [g(*re.match(r"(\w+) (?:\w+ )*(\S+)$", x.strip()).groups())
                for x in args.split(",")]
        r = z3.BitVec(f"{dst}!{name}", 64)
        seg.log.append(("call", name, vals, r))
        seg.env[dst] = r
        return
      if name == "__assert_fail":
        return "assertion"
      if pure == "strict":
        raise Unsupported(f"call of {name} inside a loop")
      seg.log.append(("extern", name, args, None))
      if dst:
        seg.env[dst] = self.outside(fn, seg.run, dst, 64)
      return
    if op == "alloca":
      seg.env[dst] = z3.BitVec(dst, 64)
      return
    if op == "store":
      if pure == "strict":
        raise Unsupported("store inside a loop")
      seg.log.append(("store", body, None, None))
      return
    raise Unsupported(s[:120])

  # -- contract of impl::index_shuffle<B> --
  def impl(self, fn, B):
    tag = f"index_shuffle<{B}>"
    names = [p for _, p in fn.params]
    if len(names) != 4:
      raise Unsupported("signature")
    ix, mx, sd, rd = names
    heads = self.headers(fn)
    if not heads:
      raise Unsupported("no walking loop")
    bodies = {h: self.loop_body(fn, h) for h in heads}
    outers = [h for h in heads if not any(h in bodies[g] for g in heads if g != h)
              and any("ret" in fn.blocks[b][-1].split()[0] for b in self.reach(fn, h, ()))]
    self.tainted = self.taint(fn, [ix])
    walk = [h for h in outers if any(x in self.tainted for x, _, _ in self.phis(fn, h))]
    if len(walk) != 1:
      raise Unsupported("walking loop not identified")
    H = walk[0]
    inner = [h for h in heads if h != H and h in bodies[H]]
    other = [h for h in heads if h != H and h not in bodies[H]]
    if other:
      raise Unsupported("a loop outside the walk")
    self.loops += [f"{tag}:{h}" for h in heads]
    ph = self.phis(fn, H)
    state = [x for x, _, _ in ph if x in self.tainted]
    if len(state) != 1 or len(ph) != 1:
      raise Unsupported("state of the walk")
    x = state[0]
    D = z3.BitVecVal((1 << B) - 1, 64)

    def inD(v):
      return z3.ULE(v, D)
    M = z3.BitVec(mx, 64)
    pre = [z3.ULE(M, D)]
    # entry: nothing but the start of the walk depends on the index
    ent = self.paths(fn, fn.entry, set(heads), "a", {}, False)
    for cond, kind, data, seg in ent:
      sym = {str(v) for v in self.vars(z3.And(*cond) if cond else z3.BoolVal(True))}
      if ix + "@a" in sym:
        raise Unsupported("control flow before the walk depends on the index")
      for k, a, b, _ in seg.log:
        used = set(re.findall(r"%[\w.]+", (a + " " + (b or "")) if k == "extern" else a))
        if used & self.tainted:
          raise Unsupported("keys depend on the index")
      if kind == "unreachable":
        self.oblige(f"{tag}: no assertion fails", pre + cond, z3.BoolVal(False))
        continue
      if kind != "cut" or data[0] != H:
        raise Unsupported("entry does not lead to the walk")
      self.oblige(f"{tag}: the walk starts at the index", pre + cond,
                  data[1][x] == z3.BitVec(ix + "@a", 64))
    runs = ("a", "b")
    envs = {h: {r: {p: z3.BitVec(f"{p}@{r}" if p in self.tainted else f"{p}@{r}", width(t))
                    for p, t, _ in self.phis(fn, h)} for r in runs} for h in heads}
    V = {r: envs[H][r][x] for r in runs}
    base = pre + [inD(V["a"]), inD(V["b"]), V["a"] != V["b"]]
    segs = {h: {r: self.paths(fn, h, set(heads), r, envs[h][r], "loop") for r in runs}
            for h in [H] + inner}
    for h in segs:
      for r in runs:
        for cond, kind, data, seg in segs[h][r]:
          for k, a, b, _ in seg.log:
            if k == "store" or (k == "extern" and kind == "cut"):
              raise Unsupported("memory changes during the walk")
    # candidate invariants of the inner loops
    inv = {H: [("pre", z3.BoolVal(True))]}
    for h in inner:
      e = envs[h]
      cands = []
      ps = [(p, width(t)) for p, t, _ in self.phis(fn, h)]
      for p, w in ps:
        a, b = e["a"][p], e["b"][p]
        cands.append((f"{p} equal", a == b))
        for k in (B // 2, B):
          if k < w:
            cands.append((f"{p} < 2**{k}", z3.And(z3.ULT(a, 1 << k), z3.ULT(b, 1 << k))))
        cands.append((f"{p} differ", a != b))
      for (p, w), (q, v) in itertools.combinations(ps, 2):
        cands.append((f"({p}, {q}) differ", z3.Or(e["a"][p] != e["b"][p],
                                                  e["a"][q] != e["b"][q])))
      inv[h] = cands

    def edges(src):
      for (ca, ka, da, sa), (cb, kb, db, sb) in itertools.product(segs[src]["a"], segs[src]["b"]):
        yield ca + cb, (ka, da), (kb, db)

    def hyp(src):
      # values computed before the inner loop in the same step of the walk are
      # unconstrained: only what the invariants say is known
      return (base if src == H else pre) + [c for _, c in inv[src]]
    changed = True
    while changed:
      changed = False
      for src in [H] + inner:
        for cond, (ka, da), (kb, db) in edges(src):
          if ka == "cut" and kb == "cut" and da[0] == db[0] and da[0] in inner:
            h = da[0]
            sub = [(envs[h]["a"][p], da[1][p]) for p in da[1]] + \
                  [(envs[h]["b"][p], db[1][p]) for p in db[1]]
            s = z3.SolverFor("QF_UFBV")
            s.add(*hyp(src), *cond)
            if s.check() == z3.unsat:
              continue
            keep = []
            for nm, c in inv[h]:
              ok, _ = self.valid(hyp(src) + cond, z3.substitute(c, *sub))
              if ok:
                keep.append((nm, c))
            if len(keep) != len(inv[h]):
              inv[h] = keep
              changed = True
    self.inv += sum(len(v) for k, v in inv.items() if k != H)

    def end(kind, data):
      """The value of the walk at the end of a step, or None."""
      if kind == "ret":
        return data
      if kind == "cut" and data[0] == H:
        return data[1][x]
      return None
    for src in [H] + inner:
      for cond, (ka, da), (kb, db) in edges(src):
        h = hyp(src) + cond
        ea, eb = end(ka, da), end(kb, db)
        if ka == "unreachable" or kb == "unreachable":
          self.oblige(f"{tag}: no assertion fails", h, z3.BoolVal(False))
        elif ea is not None and eb is not None:
          self.oblige(f"{tag}: a step keeps different values different", h, ea != eb)
          self.oblige(f"{tag}: a step stays below 2**{B}", h, z3.And(inD(ea), inD(eb)))
          self.oblige(f"{tag}: the walk ends exactly at the first value in range", h,
                      z3.And(z3.ULE(ea, M) if ka == "ret" else z3.UGT(ea, M),
                             z3.ULE(eb, M) if kb == "ret" else z3.UGT(eb, M)))
        elif ka == "cut" and kb == "cut" and da[0] == db[0]:
          pass  # invariant established above
        else:
          self.oblige(f"{tag}: rounds are the same for every index", h, z3.BoolVal(False))

  def vars(self, t):
    out, todo, seen = set(), [t], set()
    while todo:
      y = todo.pop()
      if y.get_id() in seen:
        continue
      seen.add(y.get_id())
      if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(y)
      todo += y.children()
    return out

  # -- contract of index_shuffle --
  def outer(self, fn, impls):
    tag = "index_shuffle"
    self.tainted = set()
    ps = [p for _, p in fn.params]
    if len(ps) != 4:
      raise Unsupported("signature")
    ix, mx, sd, rd = [z3.BitVec(p, width(t)) for t, p in fn.params]
    pre = [z3.ULE(ix, mx), z3.ULT(mx, 1 << 63), z3.UGE(rd, 4), z3.ULE(rd, 1024),
           rd & 1 == 0]
    heads = self.headers(fn)
    self.loops += [f"{tag}:{h}" for h in heads]
    cuts = set(heads)
    env = {h: {p: z3.BitVec(f"{p}@{h}", width(t)) for p, t, _ in self.phis(fn, h)}
           for h in heads}
    inv = {}
    for h in heads:
      c = []
      for p, v in env[h].items():
        w = v.size()
        for k in (0, 1, 2, 4, 8, 16, 32, 62, 63, 64):
          if k < (1 << w):
            c.append((f"{p} <= {k}", z3.ULE(v, k)))
            c.append((f"{p} >= {k}", z3.UGE(v, k)))
        if w == 64:
          c.append((f"{p} <= max", z3.ULE(v, mx)))
          c.append((f"{p} > 0", v != 0))
        for q, u in env[h].items():
          if p == q or w != 64:
            continue
          k = z3.ZeroExt(64 - u.size(), u) if u.size() < 64 else u
          c.append((f"{p} == max >> {q}", v == z3.LShR(mx, k)))
          c.append((f"max >> {q} != 0 ", z3.And(z3.LShR(mx, k) != 0, z3.ULT(k, 64))))
          c.append((f"{p} == 1 << {q}", v == z3.BitVecVal(1, 64) << k))
          c.append((f"{p} == 0 or max >> ({q}-1)", z3.Implies(
              k != 0, z3.And(z3.LShR(mx, k - 1) != 0, z3.ULE(k, 64)))))
      inv[h] = c
    segs = [(src, p) for src in [fn.entry] + heads
            for p in self.paths(fn, src, cuts, "", env.get(src, {}), "loop", impls)]

    def hyp(src):
      return pre + [c for _, c in inv.get(src, [])]
    changed = True
    while changed:
      changed = False
      for src, (cond, kind, data, seg) in segs:
        if kind != "cut":
          continue
        h = data[0]
        sub = [(env[h][p], data[1][p]) for p in data[1]]
        keep = [(n, c) for n, c in inv[h]
                if self.valid(hyp(src) + cond, z3.substitute(c, *sub))[0]]
        if len(keep) != len(inv[h]):
          inv[h] = keep
          changed = True
    self.inv += sum(map(len, inv.values()))
    for src, (cond, kind, data, seg) in segs:
      h = hyp(src) + cond
      for k, name, vals, r in seg.log:
        if k != "call":
          if k == "extern" or k == "store":
            raise Unsupported(f"{k} in index_shuffle")
          continue
        B = impls[name]
        self.oblige(f"{tag}: the block size fits max_index", h,
                    z3.ULE(vals[1], z3.BitVecVal((1 << B) - 1, 64)))
        for a, b, what in zip(vals, (ix, mx, sd, rd), ("index", "max_index", "seed", "rounds")):
          self.oblige(f"{tag}: {what} is passed on", h, a == b)
      if kind == "cut":
        dec = [p for p in data[1] if self.valid(h, z3.ULT(data[1][p], env[data[0]][p]))[0]
               or self.valid(h, z3.UGT(data[1][p], env[data[0]][p]))[0]] \
            if src == data[0] else [1]
        if not dec:
          self.oblige(f"{tag}: the loop makes progress", h, z3.BoolVal(False))
        else:
          self.oblige(f"{tag}: the loop makes progress", h, z3.BoolVal(True))
      elif kind == "unreachable":
        self.oblige(f"{tag}: no assertion fails", h, z3.BoolVal(False))
      elif kind == "ret":
        made = [r for k, _, _, r in seg.log if k == "call"]
        if made:
          self.oblige(f"{tag}: the result is returned", h, data == made[-1])
        else:
          self.oblige(f"{tag}: a single valid index maps to itself", h,
                      z3.And(mx == 0, data == 0))
      if kind != "unreachable":
        i2 = z3.BitVec("another index", 64)
        for t in (data[1].values() if kind == "cut" else ()):
          if any(str(v) == ps[0] for v in self.vars(t)):
            raise Unsupported("the loop of index_shuffle depends on the index")
        if cond:
          self.oblige(f"{tag}: the block size depends on max_index only",
                      h + [z3.ULE(i2, mx)],
                      z3.substitute(z3.And(*cond), (ix, i2)))



def compile_ir(repo):
  p = subprocess.run(
      ["clang++", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize",
       "-fno-unroll-loops", "-fno-exceptions", "-w", "-S", "-emit-llvm", f"-I{repo}",
       f"{repo}/{CC}", "-o", "-"], capture_output=True, text=True)
  if p.returncode:
    raise Unsupported("clang: " + p.stderr[-500:])
  return p.stdout


def verify(repo):
  v = Verifier(compile_ir(repo))
  impls, top = {}, None
  for n, f in v.fns.items():
    m = re.match(r"_ZN5grain6random4impl13index_shuffleILi(\d+)E", n)
    if m:
      impls[n] = int(m.group(1))
    elif n.startswith("_ZN5grain6random13index_shuffleE"):
      top = n
  if top is None or not impls:
    raise Unsupported("functions not found")
  v.outer(v.fns[top], impls)
  for n, B in sorted(impls.items(), key=lambda x: x[1]):
    v.impl(v.fns[n], B)
  return v
