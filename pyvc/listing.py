"""Prints the harness registry as JSON, without importing grain."""
import ast
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import contracts  # noqa: E402

out = []
for m in contracts.MODULES:
  p = os.path.join(VERIF, *m.split(".")) + ".py"
  tree = ast.parse(open(p).read())
  names = {}
  for n in tree.body:
    if isinstance(n, ast.Assign):
      for t in n.targets:
        if isinstance(t, ast.Name):
          try:
            names[t.id] = ast.literal_eval(n.value)
          except ValueError:
            pass

  def value(x):
    return names[x.id] if isinstance(x, ast.Name) else ast.literal_eval(x)
  for fn in tree.body:
    if not isinstance(fn, ast.FunctionDef):
      continue
    for d in fn.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
        kw = {k.arg: value(k.value) for k in d.keywords}
        out.append(dict(
            name=fn.name, props=[ast.literal_eval(x) for x in d.args],
            sym=kw.get("sym", True), conc=kw.get("conc", True),
            bounded=kw.get("bounded"), budget=kw.get("budget", 150),
            tier=kw.get("tier", "quick"), weight=kw.get("weight", 1),
            conc_budget=kw.get("conc_budget", 0), so=kw.get("so", False),
            about=kw.get("about") or (ast.get_docstring(fn) or "")))
json.dump(out, sys.stdout)
