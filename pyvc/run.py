"""One check: proves the harnesses of a property and searches failing inputs.

usage: run.py PROPERTY [--tier quick|thorough] | run.py --replay FILE
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from pyvc import boot  # noqa: E402


class Idle:
  """No harness needs this server."""
  n, startup = 0, None

  def submit(self, **job):
    raise AssertionError("idle server")

  def wait(self, timeout):
    return []

  def stop(self):
    pass


class Server:

  def __init__(self, mode, scratch, par):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu",
               TF_CPP_MIN_LOG_LEVEL="3", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    self.err = open(os.path.join(scratch, f"{mode}.err"), "w+")
    self.p = subprocess.Popen(
        [boot.PY, os.path.join(HERE, "serve.py"), mode, scratch, str(par)],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=None if os.environ.get("PYVC_DEBUG") else self.err, env=env,
        text=True, start_new_session=True)
    self.n = 0
    self.results = []
    self.cond = threading.Condition()
    self.startup = None
    self.dead = False
    threading.Thread(target=self._read, daemon=True).start()

  def _read(self):
    for line in self.p.stdout:
      try:
        r = json.loads(line)
      except ValueError:
        continue
      with self.cond:
        if r["kind"] == "startup":
          self.startup = r
        else:
          self.results.append(r)
        self.cond.notify_all()
    with self.cond:
      self.dead = True
      self.cond.notify_all()

  def submit(self, **job):
    job["id"] = self.n
    self.n += 1
    try:
      self.p.stdin.write(json.dumps(job) + "\n")
      self.p.stdin.flush()
    except BrokenPipeError:
      pass

  def wait(self, timeout):
    end = time.time() + timeout
    with self.cond:
      while len(self.results) < self.n and not self.dead and time.time() < end:
        self.cond.wait(min(1.0, max(0.01, end - time.time())))
      return list(self.results)

  def stop(self):
    import signal
    try:
      self.p.stdin.close()
    except OSError:
      pass
    try:
      self.p.wait(2)
    except subprocess.TimeoutExpired:
      pass
    try:
      os.killpg(self.p.pid, signal.SIGKILL)
    except OSError:
      pass


def load_known(prop):
  """Known findings: JSON lines; `fixed:` lines suppress nothing."""
  out = []
  p = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith("{"):
        k = json.loads(line)
        if k["property"] == prop:
          out.append(k)
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--harness", action="append")
  ap.add_argument("--replay")
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  if a.replay:
    return replay(a.replay)
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  scratch = tempfile.mkdtemp(prefix="pyvc-")
  try:
    return check(a.prop, a.tier, seed, scratch, a)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def emit(prop, tag, payload):
  d = os.path.join(VERIF, "evidence", "replay")
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f"{prop}-{re.sub('[^A-Za-z0-9_.-]', '_', tag)}.json")
  payload["how_to_replay"] = f"{boot.PY} {HERE}/run.py --replay {path}"
  with open(path, "w") as f:
    json.dump(payload, f, indent=1)
  return path


def check(prop, tier, seed, scratch, a):
  t0 = time.time()
  deep = tier == "thorough"
  meta = subprocess.run(
      [boot.PY, os.path.join(HERE, "listing.py")], capture_output=True, text=True,
      env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
  if meta.returncode:
    print(meta.stderr[-3000:], file=sys.stderr)
    return 2
  hs = [h for h in json.loads(meta.stdout) if prop in h["props"]
        and (deep or h["tier"] == "quick")
        and (not a.harness or h["name"] in a.harness)]
  if not hs:
    print(f"no harness for {prop}", file=sys.stderr)
    return 2
  err = boot.build(scratch, force_so=any(h["so"] for h in hs))
  known = load_known(prop)
  if err:
    path = emit(prop, "build", dict(obligation="build", output=err))
    print("the tree does not build:\n" + err, file=sys.stderr)
    return 2
  nsym = any(h["sym"] for h in hs)
  sym = Server("sym", scratch, 7) if nsym else Idle()
  conc = Server("conc", scratch, 3 if nsym else 8) if any(h["conc"] for h in hs) else Idle()
  scale = 4 if deep else 1
  for h in sorted(hs, key=lambda h: -h["budget"]):
    if h["sym"]:
      sym.submit(harness=h["name"], budget=h["budget"] * scale,
                 timeout_ms=40000 if deep else 15000, tier=tier, seed=seed,
                 scratch=scratch)
  ch = [h for h in hs if h["conc"]]
  # While long proofs run, there is time for more native exploration.
  total = 240 if deep else 60 if any(h["budget"] >= 300 for h in hs) else 20
  share = lambda h: h["weight"] * (1 if h["sym"] else 2)
  wsum = sum(map(share, ch)) or 1
  for h in ch:
    b = max(3.0 if not deep else 20.0, 3 * total * share(h) / wsum)
    b = max(b, h["conc_budget"] * (4 if deep else 1))
    conc.submit(harness=h["name"], budget=b, seed=seed, known=known)
  cap = 3000 if deep else 780
  cres = conc.wait(cap - 60)
  fast = os.environ.get("PYVC_FAST")  # for trying many mutants
  if fast and any(r.get("violation") for r in cres):
    cap = 0
  sres = sym.wait(max(5, cap - (time.time() - t0)))
  for s in (sym, conc):
    if s.n and (s.startup is None or s.startup["error"]):
      txt = (s.startup or {}).get("error") or "server did not start"
      print(txt, file=sys.stderr)
      s.err.seek(0)
      print(s.err.read()[-3000:], file=sys.stderr)
      sym.stop()
      conc.stop()
      path = emit(prop, "import", dict(obligation="import", output=txt))
      print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
      write_evidence(prop, tier, seed, hs, [], [], [], 1, t0, known)
      return 1
  got = {r["harness"] for r in sres}
  for h in hs:
    if h["sym"] and h["name"] not in got:
      sres.append(dict(kind="sym", harness=h["name"], status="limit",
                       detail="time budget of the check used up"))
  bad = [r for r in sres if r["status"] != "ok"]
  for h in hs:
    if not h["sym"] and h["conc"]:
      rs = [r for r in cres if r["harness"] == h["name"]]
      if not sum(r.get("checks") or 0 for r in rs) and not any(r.get("violation") for r in rs):
        bad.append(dict(harness=h["name"], status="vacuous", kind="conc",
                        detail=str([r.get("misfit") or r.get("detail") for r in rs]
                                   or "no answer")))
      elif any(r.get("misfit") for r in rs):
        bad.append(dict(harness=h["name"], status="misfit", kind="conc",
                        detail=str([r["misfit"] for r in rs if r.get("misfit")][:1])))
  viol = {r["harness"]: r for r in cres if r.get("violation")}
  # a harness whose proof fails and has no failing input yet: search longer
  again = [r for r in bad if r["harness"] not in viol
           and any(h["name"] == r["harness"] and h["conc"] for h in hs)]
  if again and not viol and not fast:
    left = max(20.0, min(120.0 * (3 if deep else 1), cap - (time.time() - t0) - 20))
    # ... the harness itself, and the native ones: what a proof about one step
    # refuses may take a whole history to show.
    names = [r["harness"] for r in again[:3]]
    names += [h["name"] for h in ch if not h["sym"] and h["name"] not in names]
    names *= max(1, 3 // len(names))
    for k, name in enumerate(names):
      conc.submit(harness=name, budget=min(left, 3 * left / len(names)),
                  seed=seed + 7919 * (k + 1), known=known)
    cres = conc.wait(left + 60)
    viol = {r["harness"]: r for r in cres if r.get("violation")}
  sym.stop()
  conc.stop()
  lines = []
  for name, r in sorted(viol.items()):
    v = r["violation"]
    path = emit(prop, name, dict(
        property=prop, harness=name, seed=v["seed"], size=v["size"],
        obligation=v["label"], detail=v["detail"], inputs=v["inputs"],
        source=boot.source_digest(),
        proof=next((s for s in sres if s["harness"] == name), None)))
    print(f"{name}: {v['label']}: {v['detail'][:300]}", file=sys.stderr)
    lines.append(f"VIOLATION property={prop} replay={path}")
  if not lines:
    for r in bad:
      path = emit(prop, "proof-" + r["harness"], dict(
          property=prop, harness=r["harness"], verifier=r,
          source=boot.source_digest()))
      what = (r.get("failures") or [{}])[0].get("obligation") or r.get("detail", r["status"])
      print(f"{r['harness']}: {r['status']}: {str(what)[:300]}", file=sys.stderr)
      lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
  if a.v:
    for r in sorted(sres, key=lambda r: -r.get("wall", 0)):
      print(f"  sym {r['harness']}: {r['status']} wall={r.get('wall', 0):.1f} "
            f"obl={sum(x[0] for x in r.get('obligations', {}).values())} "
            f"paths={r.get('paths')} rounds={r.get('rounds')} {str(r.get('detail', ''))[:300]}")
      for f in r.get("failures", [])[:4]:
        print("      FAIL", f["obligation"], f["kind"], str(f["detail"])[:300])
    for r in cres:
      print(f"  conc {r['harness']}: n={r.get('evaluations')} disc={r.get('discarded')} "
            f"distinct={r.get('distinct')} viol={bool(r.get('violation'))} {r.get('detail', '')}")
  seen_known = set()
  for r in cres:
    seen_known |= {int(k) for k in r.get("known", {})}
  for j, k in enumerate(known):
    print(f"KNOWN-FINDING: property={prop} {k['what']}")
  write_evidence(prop, tier, seed, hs, sres, cres, sorted(seen_known), len(lines), t0, known)
  for line in lines:
    print(line)
  print(f"{prop}: {'violated' if lines else 'held'} in {time.time() - t0:.0f} s",
        file=sys.stderr)
  return 1 if lines else 0


TRUSTED = [
    "CPython executes the instrumented bodies as it executes the originals "
    "(loops, comprehensions, size/iteration builtins, list displays and "
    "`is None` tests are routed through pyvc.rt; bodies of __del__ dropped)",
    "pyvc engine (path enumeration, loop cutting, Houdini filtering), z3, cvc5",
    "Python integers are mathematical integers; floating point operations are real operations followed by an unspecified rounding of relative error at most 2**-53 that is monotone around whole numbers (overflow, underflow and NaN left out)",
    "parents obey the iterator contract of pyvc/model.py (each transformation "
    "is proved to provide the same contract)",
    "user functions are deterministic and side-effect free; elements opaque",
    "absl logging has no effect on results",
]


def write_evidence(prop, tier, seed, hs, sres, cres, known_seen, nviol, t0, known):
  d = os.path.join(VERIF, "evidence")
  os.makedirs(d, exist_ok=True)
  man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
  level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
  names = {h["name"]: h for h in hs}
  ob = dis = 0
  backends, funcs, stubs, per = {}, set(), set(), []
  solver = 0.0
  bounded = 0
  for r in sres:
    n = sum(x[0] for x in r.get("obligations", {}).values())
    k = sum(x[1] for x in r.get("obligations", {}).values())
    h = names.get(r["harness"], {})
    isb = bool(h.get("bounded"))
    ob += n
    dis += k
    bounded += k if isb else 0
    for b, c in r.get("backends", {}).items():
      backends[b] = backends.get(b, 0) + c
    funcs |= set(r.get("functions", []))
    stubs |= set(r.get("stubs", []))
    solver += r.get("solver_time", 0.0)
    per.append(dict(
        harness=r["harness"], status=r["status"], about=h.get("about", ""),
        scope=("bounded: " + h["bounded"]) if isb else "unbounded",
        obligations=r.get("obligations", {}), paths=r.get("paths", 0),
        loops_with_inferred_invariants=r.get("loops", []),
        invariants=r.get("inv_count", 0), rounds=r.get("rounds", 0),
        solver_time=round(r.get("solver_time", 0.0), 2),
        wall=round(r.get("wall", 0.0), 1),
        extra=r.get("extra"), detail=r.get("detail"),
        failures=r.get("failures", [])))
  ev = sum(r.get("evaluations", 0) for r in cres)
  dist = sum(r.get("distinct", 0) for r in cres)
  samples = [dict(harness=r["harness"], **r["sample"]) for r in cres
             if r.get("sample")][:6]
  cov = dict(
      obligations=ob, discharged=dis,
      discharged_in_bounded_harnesses=bounded,
      checker_cmd=f"{boot.PY} /verif/pyvc/run.py {prop} --tier {tier}",
      trusted_base=TRUSTED,
      backends=backends, solver_time_s=round(solver, 1),
      functions_under_contract=sorted(funcs), harnesses=per,
      callees_replaced_by_contract=sorted(stubs),
      native_cross_check=dict(
          evaluations=ev, distinct_nontrivial=dist,
          rule="the same harness text run on inputs drawn from the seed against "
               "the unmodified modules; non-trivial: reached at least one "
               "assertion; distinct by drawn inputs and step count"),
      evaluations=ev, distinct_nontrivial=dist,
      rule="see native_cross_check.rule", samples=samples or per[:1],
      explanation="obligations: assertion instances over all paths of the "
                  "harnesses in the final pass, each decided by a solver query")
  out = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=TRUSTED + sorted(stubs)
             + sorted({h["bounded"] for h in hs if h.get("bounded")}),
             wall_s=round(time.time() - t0, 2), violations=nviol)
  p = os.path.join(d, f"{prop}.json")
  with open(p + ".tmp", "w") as f:
    json.dump(out, f, indent=1)
  os.rename(p + ".tmp", p)


def replay(path):
  r = json.load(open(path))
  if "seed" not in r:
    print(json.dumps(r, indent=1))
    print("no failing input: the file carries the verifier's output")
    return 1
  scratch = tempfile.mkdtemp(prefix="pyvc-")
  try:
    boot.build(scratch)
    code = (
        "import sys; sys.path.insert(0, %r)\n"
        "from pyvc import boot, harness, serve\nimport contracts\n"
        "boot.start(False, %r)\nharness.load(contracts.MODULES)\n"
        "v, c, l, d = serve.run_once(harness.REG[%r], %d, %d, 120)\n"
        "print('inputs:', c.trace); print(v, l, d)\n"
        "import os; sys.stdout.flush(); os._exit(1 if v == 'violation' else 0)\n"
        % (VERIF, scratch, r["harness"], r["seed"], r["size"]))
    return subprocess.run([boot.PY, "-c", code]).returncode
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
  sys.stdout.flush()
  rc = main()
  sys.stdout.flush()
  os._exit(rc)
