"""Mechanical instrumentation of the source in /repo, redone on every run.

What is changed: loops get a loop-head call; comprehensions, calls of the size
and iteration builtins, list displays and `is None` tests are routed through
`pyvc.rt`, whose functions behave like the originals on concrete values.
What is dropped: bodies of `__del__` (they would run at arbitrary points of the
exploration).  Nothing else of the text is touched.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from pyvc import rt

REPO = os.environ.get("PYVC_REPO", "/repo")


def _has(node, types):
  return any(isinstance(n, types) for n in ast.walk(node))


def _is_generator(fn):
  st = list(fn.body)
  while st:
    n = st.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    st.extend(ast.iter_child_nodes(n))
  return False


# -- liveness of a name at a loop head -------------------------------------------
def _reads(node, name):
  return any(isinstance(n, ast.Name) and n.id == name and
             isinstance(n.ctx, (ast.Load, ast.Del)) for n in ast.walk(node))


def _writes(target, name):
  return any(isinstance(n, ast.Name) and n.id == name and
             isinstance(n.ctx, ast.Store) for n in ast.walk(target))


def _scan(stmts, name):
  """'read' | 'write' | 'none' for a statement sequence."""
  for s in stmts:
    r = _scan1(s, name)
    if r != "none":
      return r
  return "none"


def _scan1(s, name):
  if isinstance(s, (ast.Assign,)):
    if _reads(s.value, name):
      return "read"
    for t in s.targets:
      if _reads(t, name):
        return "read"
    return "write" if any(_writes(t, name) for t in s.targets) else "none"
  if isinstance(s, ast.AnnAssign):
    if s.value is not None and _reads(s.value, name):
      return "read"
    return "write" if s.value is not None and _writes(s.target, name) else "none"
  if isinstance(s, ast.AugAssign):
    if _reads(s.value, name) or _reads(s.target, name) or _writes(s.target, name):
      return "read"
    return "none"
  if isinstance(s, ast.If):
    if _reads(s.test, name):
      return "read"
    a, b = _scan(s.body, name), _scan(s.orelse, name)
    if "read" in (a, b):
      return "read"
    if a == "write" and b == "write":
      return "write"
    return "none"
  if isinstance(s, (ast.Continue, ast.Break)):
    return "write"
  if isinstance(s, (ast.Return, ast.Raise)):
    return "read" if _reads(s, name) else "write"
  if isinstance(s, ast.With):
    for i in s.items:
      if _reads(i.context_expr, name):
        return "read"
      if i.optional_vars is not None and _writes(i.optional_vars, name):
        return "write"
    return _scan(s.body, name)
  if isinstance(s, ast.For):
    if _reads(s.iter, name):
      return "read"
    if _writes(s.target, name):
      return "read" if _scan(s.orelse, name) == "read" else "none"
    a = _scan(s.body, name)
    return "read" if a == "read" or _scan(s.orelse, name) == "read" else "none"
  if isinstance(s, ast.While):
    if _reads(s.test, name) or _scan(s.body, name) == "read":
      return "read"
    if isinstance(s.test, ast.Constant) and s.test.value is True:
      return _scan(s.body, name)
    return "read" if _scan(s.orelse, name) == "read" else "none"
  if isinstance(s, ast.Try):
    a = _scan(s.body, name)
    if a == "read" or any(_reads(h, name) for h in s.handlers):
      return "read"
    if any(_scan(x, name) == "read" for x in (s.orelse, s.finalbody)):
      return "read"
    if a == "write" and all(_scan(h.body, name) == "write" for h in s.handlers):
      return "write"
    return "none"
  return "read" if _reads(s, name) else "none"


class Instr(ast.NodeTransformer):

  def __init__(self, filename, tree):
    self.filename = os.path.relpath(filename, REPO) if filename.startswith(REPO) else filename
    self.n = 0
    self.fn = []
    self.shadowed = self._bound(tree)

  def _bound(self, tree):
    names = set()

    def walk(node, in_class):
      for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
          if not in_class:
            names.add(c.name)
        if isinstance(c, ast.arg):
          names.add(c.arg)
        if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store) and not in_class:
          names.add(c.id)
        if isinstance(c, (ast.Import, ast.ImportFrom)):
          for a in c.names:
            names.add((a.asname or a.name).split(".")[0])
        if isinstance(c, ast.arguments) or not isinstance(
            c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
          walk(c, in_class and not isinstance(node, ast.Lambda))
        else:
          walk(c, isinstance(c, ast.ClassDef))

    walk(tree, False)
    return names & set(rt.BUILTINS)

  # -- scopes -------------------------------------------------------------------
  def visit_FunctionDef(self, node):
    node.decorator_list = [self.visit(d) for d in node.decorator_list]
    node.args = self.visit(node.args)
    if node.name == "__del__" and self.fn == []:
      node.body = [ast.Pass()]
      return node
    self.fn.append((node, _is_generator(node)))
    node.body = self._body(node.body)
    self.fn.pop()
    return node

  def visit_AsyncFunctionDef(self, node):
    self.fn.append((node, True))
    node.body = self._body(node.body)
    self.fn.pop()
    return node

  def visit_ClassDef(self, node):
    saved, self.fn = self.fn, []
    node.body = self._body(node.body)
    names = {getattr(b, "name", "") for b in node.body}
    if "__len__" in names and "__bool__" not in names:
      # Python asks __len__ for the truth value and wants an int from it.
      node.body.append(ast.Assign([ast.Name("__bool__", ast.Store())],
                                  self._rt("truth_of_len")))
    node.decorator_list = [self.visit(d) for d in node.decorator_list]
    self.fn = saved
    return node

  def visit_Lambda(self, node):
    node.args = self.visit(node.args)
    self.fn.append((node, False))
    node.body = self.visit(node.body)
    self.fn.pop()
    return node

  def visit_AnnAssign(self, node):
    if node.value is not None:
      node.value = self.visit(node.value)
    node.target = self.visit(node.target)
    return node

  def visit_arg(self, node):
    return node

  def _body(self, stmts):
    out = []
    for s in stmts:
      r = self.visit(s)
      if isinstance(r, list):
        out.extend(r)
      elif r is not None:
        out.append(r)
    return out

  # -- expressions ----------------------------------------------------------------
  def _rt(self, name):
    return ast.Attribute(ast.Name("_vc_rt", ast.Load()), name, ast.Load())

  def visit_Call(self, node):
    f = node.func
    self.generic_visit(node)
    name = None
    if isinstance(f, ast.Name) and f.id in rt.BUILTINS and f.id not in self.shadowed:
      name = f.id
    elif (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and
          f.value.id == "builtins" and f.attr in rt.BUILTINS):
      name = f.attr
    if name and self.fn:
      node.func = self._rt(rt.BUILTINS[name].__name__)
    elif isinstance(f, ast.Attribute) and f.attr in rt.METHODS and self.fn:
      node.func = self._rt(rt.METHODS[f.attr].__name__)
      node.args = [f.value] + node.args
    return node

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
      c = node.comparators[0]
      if isinstance(c, ast.Constant) and c.value is None:
        call = ast.Call(self._rt("is_none"), [node.left], [])
        if isinstance(node.ops[0], ast.Is):
          return call
        return ast.UnaryOp(ast.Not(), call)
    return node

  def visit_List(self, node):
    self.generic_visit(node)
    if self.fn and isinstance(node.ctx, ast.Load):
      return ast.Call(self._rt("VList"), [node], [])
    return node

  def visit_Subscript(self, node):
    # keep type expressions such as Callable[[int], T]
    node.value = self.visit(node.value)
    if not (isinstance(node.slice, ast.Tuple) and
            any(isinstance(e, ast.List) for e in node.slice.elts)):
      node.slice = self.visit(node.slice)
    return node

  def _lam(self, target, expr):
    if isinstance(target, ast.Name):
      return ast.Lambda(_args([target.id]), expr)
    if isinstance(target, (ast.Tuple, ast.List)):
      names, nested = [], []
      for i, e in enumerate(target.elts):
        if isinstance(e, ast.Name):
          names.append(e.id)
        elif isinstance(e, (ast.Tuple, ast.List)):
          self.n += 1
          nm = f"_vc_t{self.n}"
          names.append(nm)
          nested.append((nm, e))
        else:
          return None
      # duplicate names such as `_`
      seen = set()
      for i in range(len(names) - 1, -1, -1):
        if names[i] in seen:
          self.n += 1
          names[i] = f"_vc_u{self.n}"
        seen.add(names[i])
      for nm, e in reversed(nested):
        inner = self._lam(e, expr)
        if inner is None:
          return None
        expr = ast.Call(inner, [ast.Name(nm, ast.Load())], [])
      self.n += 1
      x = f"_vc_x{self.n}"
      return ast.Lambda(_args([x]), ast.Call(
          ast.Lambda(_args(names), expr),
          [ast.Starred(ast.Name(x, ast.Load()), ast.Load())], []))
    return None

  def _comp(self, node, kind, elt):
    bad = (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)
    if (not self.fn or len(node.generators) != 1 or node.generators[0].is_async
        or _has(node, bad) or self._uses_super(node)):
      self.generic_visit(node)
      return node
    site = (self.filename, node.lineno, node.col_offset)
    g = node.generators[0]
    it = self.visit(g.iter)
    elt = self.visit(elt)
    fn = self._lam(g.target, elt)
    conds = [self._lam(g.target, self.visit(c)) for c in g.ifs]
    if fn is None or any(c is None for c in conds):
      self.generic_visit(node)
      return node
    return ast.Call(self._rt("comp"), [
        ast.Constant(kind), ast.Constant(site), it, fn,
        ast.Tuple(conds, ast.Load())], [])

  def _uses_super(self, node):
    return any(isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals")
               for n in ast.walk(node))

  def visit_ListComp(self, node):
    return self._comp(node, "list", node.elt)

  def visit_GeneratorExp(self, node):
    return self._comp(node, "gen", node.elt)

  def visit_SetComp(self, node):
    return self._comp(node, "set", node.elt)

  def visit_DictComp(self, node):
    return self._comp(node, "dict", ast.Tuple([node.key, node.value], ast.Load()))

  # -- loops ------------------------------------------------------------------------
  def _loop(self, node, kind):
    if not self.fn or self.fn[-1][1] or isinstance(self.fn[-1][0], ast.Lambda):
      self.generic_visit(node)
      return node
    self.n += 1
    k = self.n
    site = (self.filename, node.lineno, node.col_offset)
    assigned = sorted({
        n.id for b in ([node.target] if kind == "for" else [node.test]) + node.body
        for n in ast.walk(b)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    func = self.fn[-1][0]
    dead = []
    for nm in assigned:
      outside = _count_reads(func, nm) > _count_reads_list(
          node.body + ([node.test] if kind == "while" else []), nm)
      if outside:
        continue
      if kind == "for":
        if _writes(node.target, nm):
          r = "write"
        else:
          r = _scan(node.body, nm)
      else:
        r = "read" if _reads(node.test, nm) else _scan(node.body, nm)
      if r != "read":
        dead.append(nm)
    # names captured by nested functions stay (they are cells)
    it, lp, d, ok, v, el = (f"_vc_{x}{k}" for x in ("it", "l", "d", "ok", "v", "else"))
    pre = []
    if kind == "for":
      pre.append(_assign(it, ast.Call(self._rt("call_iter"), [self.visit(node.iter)], [])))
      pre.append(_assign(lp, ast.Call(self._rt("Loop"), [
          ast.Constant(site), ast.Constant("for"), ast.Name(it, ast.Load())], [])))
    else:
      pre.append(_assign(lp, ast.Call(self._rt("Loop"), [
          ast.Constant(site), ast.Constant("while")], [])))
    orelse = self._body(node.orelse)
    if orelse:
      pre.append(_assign(el, ast.Constant(False)))
    body = [_assign(d, ast.Call(
        ast.Attribute(ast.Name(lp, ast.Load()), "top", ast.Load()),
        [ast.Call(self._rt("loc"), [
            ast.Call(ast.Name("locals", ast.Load()), [], []),
            ast.Constant(it), ast.Constant(tuple(dead))], [])], []))]
    sets = [ast.If(
        ast.Compare(ast.Constant(nm), [ast.In()], [ast.Name(d, ast.Load())]),
        [_assign(nm, ast.Subscript(ast.Name(d, ast.Load()), ast.Constant(nm), ast.Load()))],
        []) for nm in assigned if nm not in dead]
    if sets:
      body.append(ast.If(ast.Compare(ast.Name(d, ast.Load()), [ast.IsNot()],
                                     [ast.Constant(None)]), sets, []))
    exit_ = ([_assign(el, ast.Constant(True))] if orelse else []) + [ast.Break()]
    if kind == "for":
      body.append(ast.Assign([ast.Tuple([ast.Name(ok, ast.Store()),
                                         ast.Name(v, ast.Store())], ast.Store())],
                             ast.Call(ast.Attribute(ast.Name(it, ast.Load()), "vnext",
                                                    ast.Load()), [], [])))
      body.append(ast.If(ast.UnaryOp(ast.Not(), ast.Name(ok, ast.Load())), exit_, []))
      body.append(ast.Assign([self.visit(node.target)], ast.Name(v, ast.Load())))
    else:
      body.append(ast.If(ast.UnaryOp(ast.Not(), self.visit(node.test)), exit_, []))
    body += self._body(node.body)
    loop = ast.While(ast.Constant(True), body, [])
    out = pre + [loop]
    if orelse:
      out.append(ast.If(ast.Name(el, ast.Load()), orelse, []))
    for s in out:
      ast.copy_location(s, node)
      ast.fix_missing_locations(s)
    return out

  def visit_For(self, node):
    return self._loop(node, "for")

  def visit_While(self, node):
    return self._loop(node, "while")


def _count_reads(node, nm):
  return sum(isinstance(n, ast.Name) and n.id == nm and not isinstance(n.ctx, ast.Store)
             for n in ast.walk(node))


def _count_reads_list(nodes, nm):
  return sum(_count_reads(n, nm) for n in nodes)


def _args(names):
  return ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])


def _assign(name, value):
  return ast.Assign([ast.Name(name, ast.Store())], value)


def transform(src, filename):
  tree = ast.parse(src, filename)
  ins = Instr(filename, tree)
  tree.body = ins._body(tree.body)
  # after the docstring and `from __future__` imports
  i = 0
  while i < len(tree.body) and (
      (isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant))
      or (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__")):
    i += 1
  imp = ast.parse("import pyvc.rt as _vc_rt").body
  tree.body[i:i] = imp
  ast.fix_missing_locations(tree)
  return tree


class Loader(importlib.machinery.SourceFileLoader):

  def get_code(self, fullname):
    path = self.get_filename(fullname)
    data = self.get_data(path)
    return compile(transform(data, path), path, "exec", dont_inherit=True)


INSTRUMENTED = []
SKIP = ("grain.proto",)
PLAIN_PARTS = ("monitoring", "config", "profiler", "grain_logging",
               "traceback_util", "execution_summary_pb2", "prometheus_monitoring")


class Finder(importlib.abc.MetaPathFinder):
  """Finds `grain` in /repo's working tree; instruments when asked to."""

  def __init__(self, instrument, extra=()):
    self.instrument = instrument
    self.extra = extra

  def find_spec(self, name, path, target=None):
    if name in self.extra:
      spec = importlib.machinery.PathFinder.find_spec(name, path)
    elif name == "grain":
      spec = importlib.machinery.PathFinder.find_spec(name, [REPO])
    elif name.startswith("grain."):
      spec = importlib.machinery.PathFinder.find_spec(name, path)
    else:
      return None
    if spec is None or not self.instrument:
      return spec
    if (isinstance(spec.loader, importlib.machinery.SourceFileLoader)
        and (name in self.extra or
             (name.startswith("grain._src") and name.split(".")[-1] not in PLAIN_PARTS))):
      spec.loader = Loader(spec.loader.name, spec.loader.path)
      spec.cached = None
      INSTRUMENTED.append(name)
    return spec


def install(instrument=True, extra=()):
  sys.dont_write_bytecode = True
  for m in list(sys.modules):
    if m == "grain" or m.startswith("grain."):
      raise RuntimeError("grain is already imported")
  sys.meta_path.insert(0, Finder(instrument, extra))
