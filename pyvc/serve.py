"""Worker server: imports grain once, forks one child per job.

usage: serve.py sym|conc SCRATCH   (jobs as JSON lines on stdin, results as
JSON lines on stdout, in completion order)
"""
import json
import os
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from pyvc import boot  # noqa: E402


class Hang(BaseException):
  pass


def _alarm(*_):
  raise Hang()


# -- symbolic ------------------------------------------------------------------
def functions_monitor():
  """Records which functions of grain are executed (sys.monitoring)."""
  mon = sys.monitoring
  seen = set()
  root = boot.REPO + "/grain/"

  def start(code, off):
    fn = code.co_filename
    if fn.startswith(root) and not code.co_name.startswith("<"):
      seen.add(f"{fn[len(boot.REPO) + 1:]}:{code.co_qualname}")
    return mon.DISABLE

  mon.use_tool_id(3, "pyvc")
  mon.register_callback(3, mon.events.PY_START, start)
  mon.set_events(3, mon.events.PY_START)
  return seen


def run_sym(job):
  from pyvc import api, engine, harness, stubs
  h = harness.REG[job["harness"]]
  sys.setrecursionlimit(20000)
  t0 = time.time()
  res = dict(kind="sym", harness=h.name, bounded=h.bounded)
  if h.native:
    try:
      seen = functions_monitor()
      r = h.fn(job)
      res.update(r)
      res.setdefault("functions", [])
    except Exception as x:
      res.update(status="limit", detail=f"{type(x).__name__}: {x}"[:800])
    res["wall"] = time.time() - t0
    return res
  used = stubs.apply() if h.stubs is True else stubs.apply(skip=h.stubs or ())
  seen = functions_monitor()
  e = engine.Engine(h.name, deadline=t0 + job["budget"],
                    timeout_ms=job.get("timeout_ms", 15000))
  try:
    e.verify(lambda: h.fn(api.SymCtx()))
    bad_cover = [k for k, v in e.covers.items() if not v]
    n = sum(o.n for o in e.obs.values())
    ok = sum(o.ok for o in e.obs.values())
    status = "ok"
    if e.failures or n != ok:
      status = "fail"
    elif bad_cover or not e.covers or n == 0:
      status = "vacuous"
    res.update(status=status, bad_cover=bad_cover)
  except engine.ToolLimit as x:
    tb = traceback.extract_tb(x.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb
             if "/grain/" in f.filename or "/contracts/" in f.filename][-2:]
    res.update(status="limit", detail=f"{type(x).__name__}: {x} at {where}"[:800])
  except Exception as x:
    res.update(status="limit", detail="engine error: "
               + traceback.format_exc()[-1500:])
  back = {}
  for o in e.obs.values():
    for b, k in o.backends.items():
      back[b] = back.get(b, 0) + k
  res.update(
      obligations={k: [o.n, o.ok] for k, o in e.obs.items()},
      backends=back, inv_count=e.inv_count,
      failures=[f.as_dict() for f in e.failures[:8]],
      covers=len(e.covers), paths=e.n_paths, rounds=e.rounds,
      queries=e.queries, solver_time=e.solver_time,
      loops=[f"{s[0]}:{s[1]}" for s in e.loops_cut],
      functions=sorted(seen), stubs=used, wall=time.time() - t0)
  return res


# -- native --------------------------------------------------------------------
def run_once(h, seed, size, limit_s=30):
  """Returns (verdict, ctx, label, detail)."""
  from pyvc import api
  c = api.ConcCtx(seed, size)
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(limit_s)
  try:
    h.fn(c)
    return "ok", c, None, None
  except api.Discard:
    return "discard", c, None, None
  except api.Violation as v:
    return "violation", c, v.label, v.detail
  except Hang:
    return "violation", c, "terminates", f"no answer within {limit_s} s"
  except Exception as x:
    tb = traceback.extract_tb(x.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}:{f.lineno}" for f in tb][-4:]
    if misfit(x, tb):
      return "misfit", c, None, f"{type(x).__name__}: {str(x)[:300]} at {where}"
    return ("violation", c, "no-unexpected-exception",
            f"{type(x).__name__}: {str(x)[:300]} at {where}")
  finally:
    signal.alarm(0)
    try:
      signal.alarm(limit_s)
      c.release()
    except Hang:
      pass
    finally:
      signal.alarm(0)


def misfit(x, tb):
  """The contract itself names a private part of the code that is not there (or
  is called otherwise): the contract no longer fits, which says nothing about
  what the code does."""
  if not tb or os.sep + "contracts" + os.sep not in tb[-1].filename:
    return False
  if isinstance(x, AttributeError):
    return str(x.name or "").startswith("_")
  if isinstance(x, ImportError):
    return True
  return isinstance(x, TypeError) and bool(
      re.match(r"([\w.<>]*\.)?_[a-z]\w*\(\) (got|missing|takes)|_\w+\.__init__\(\) ", str(x)))


def run_conc(job):
  from pyvc import harness
  h = harness.REG[job["harness"]]
  known = job.get("known", [])
  t0 = time.time()
  res = dict(kind="conc", harness=h.name)
  n = disc = checks = slow = 0
  distinct = set()
  sample = None
  viol = None
  misfits = None
  known_hit = {}
  seed0 = job["seed"] * 1_000_003
  i = 0
  sizes = [2, 3, 4, 6, 9, 14]
  while time.time() - t0 < job["budget"] and i < job.get("max", 10**9):
    seed = seed0 + i
    size = sizes[i % len(sizes)]
    i += 1
    verdict, c, label, detail = run_once(h, seed, size)
    if label == "terminates" and all(
        run_once(h, seed, size)[2] != "terminates" for _ in range(3)):
      # not reproducible: a starved machine rather than the code
      slow += 1
      continue
    if verdict == "discard":
      disc += 1
      continue
    if verdict == "misfit":
      misfits = misfits or detail
      continue
    n += 1
    checks += c.checks
    if c.checks:
      distinct.add(hash(repr(c.trace) + str(c.steps)))
      if sample is None or n == 7:
        sample = dict(seed=seed, size=size, inputs=repr(c.trace)[:300])
    if verdict == "violation":
      k = match_known(known, h, label, detail, c)
      if k is not None:
        known_hit[k] = known_hit.get(k, 0) + 1
        continue
      viol = dict(seed=seed, size=size, label=label, detail=str(detail)[:1200],
                  inputs=repr(c.trace)[:2000])
      break
  res.update(evaluations=n, discarded=disc, distinct=len(distinct), checks=checks,
             unanswered=slow, sample=sample, violation=viol, known=known_hit, misfit=misfits, wall=time.time() - t0)
  return res


def match_known(known, h, label, detail, c):
  for j, k in enumerate(known):
    if k["harness"] != h.name or k["label"] != label:
      continue
    if k.get("detail") and not re.search(k["detail"], str(detail)):
      continue
    if k.get("inputs") and not re.search(k["inputs"], repr(c.trace)):
      continue
    return j
  return None


# -- server --------------------------------------------------------------------
def main():
  mode, scratch, par = sys.argv[1], sys.argv[2], int(sys.argv[3])
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)
  import contracts
  try:
    boot.start(mode == "sym", scratch, contracts.MODULES)
    from pyvc import harness
    harness.load(contracts.MODULES)
  except BaseException:
    out.write(json.dumps(dict(kind="startup", error=traceback.format_exc()[-3000:])) + "\n")
    out.flush()
    os._exit(3)
  out.write(json.dumps(dict(kind="startup", error=None)) + "\n")
  out.flush()
  import gc
  gc.collect()
  gc.freeze()
  queue = []
  running = {}
  eof = False
  import select
  buf = b""
  while not eof or queue or running:
    if not eof:
      r, _, _ = select.select([0], [], [], 0.02 if running or queue else 1.0)
      if r:
        d = os.read(0, 1 << 16)
        if not d:
          eof = True
        buf += d
        while b"\n" in buf:
          line, buf = buf.split(b"\n", 1)
          if line.strip():
            queue.append(json.loads(line))
    else:
      time.sleep(0.02)
    while queue and len(running) < par:
      job = queue.pop(0)
      f = os.path.join(scratch, f"res-{mode}-{job['id']}.json")
      sys.stderr.flush()
      pid = os.fork()
      if pid == 0:
        try:
          os.setpgid(0, 0)
          os.nice(0 if mode == "sym" else 2)
          dn = os.open(os.devnull, os.O_RDWR)
          os.dup2(dn, 0)
          if not os.environ.get("PYVC_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
          r = run_sym(job) if mode == "sym" else run_conc(job)
          with open(f + ".tmp", "w") as fh:
            json.dump(r, fh, default=str)
          os.rename(f + ".tmp", f)
        except BaseException:
          with open(f + ".tmp", "w") as fh:
            json.dump(dict(kind=mode, harness=job["harness"], status="limit",
                           crash=True, detail=traceback.format_exc()[-1500:]), fh)
          os.rename(f + ".tmp", f)
        finally:
          os._exit(0)
      running[pid] = (job, f, time.time())
    for pid in list(running):
      job, f, t = running[pid]
      p, st = os.waitpid(pid, os.WNOHANG)
      if p == 0:
        if time.time() - t > job["budget"] + 60:
          try:
            os.killpg(pid, signal.SIGKILL)
          except OSError:
            pass
        continue
      del running[pid]
      try:
        with open(f) as fh:
          r = json.load(fh)
        os.unlink(f)
      except (OSError, ValueError):
        r = dict(kind=mode, harness=job["harness"], status="limit", crash=True,
                 detail=f"worker ended with status {st} after {time.time()-t:.0f} s")
      r["id"] = job["id"]
      out.write(json.dumps(r) + "\n")
      out.flush()
  os._exit(0)


if __name__ == "__main__":
  main()
