"""C02: the index shuffle (C++)."""
import os
import subprocess

from pyvc.harness import harness


@harness("C02", native=True, conc=False, budget=400, so=True)
def index_shuffle_ir(job):
  """index_shuffle.cc over its LLVM IR, all block sizes (pyvc/irproof.py), and
  the lemma on cycle walking it rests on (Lean)."""
  from pyvc import boot, irproof
  try:
    v = irproof.verify(boot.REPO)
  except irproof.Unsupported as x:
    return dict(status="limit", detail=f"irproof: {x}"[:800])
  obs = {k: list(o) for k, o in v.log.items()}
  lemma = os.path.join(boot.VERIF, "lemmas", "FirstReturn.lean")
  p = subprocess.run(["lean", lemma], capture_output=True, text=True, timeout=300)
  ok = p.returncode == 0 and "sorry" not in p.stdout and p.stdout.count("axioms") == 3
  obs["lemma: walks end and are injective (lean)"] = [3, 3 if ok else 0]
  fails = list(v.failures)
  if not ok:
    return dict(status="limit", detail="lean: " + (p.stdout + p.stderr)[-500:])
  total, done = (sum(o[i] for o in obs.values()) for i in (0, 1))
  return dict(
      status="ok" if total == done and not fails else "fail",
      obligations=obs, failures=fails[:8],
      backends={"z3-bv": done - 3, "lean": 3}, inv_count=v.inv, queries=v.queries,
      solver_time=v.solver_time, loops=sorted(v.loops), covers=len(obs),
      functions=["grain/_src/python/experimental/index_shuffle/index_shuffle.cc:"
                 + f for f in ["index_shuffle", "simon_encrypt<8..32>"]
                 + [f"impl::index_shuffle<{b}>" for b in range(16, 65, 2)]])


def _shuffle():
  from grain._src.python.experimental.index_shuffle.python import (
      index_shuffle_module)
  return index_shuffle_module.index_shuffle


@harness("C02", sym=False, so=True, weight=3, conc_budget=25,
         bounded="domains of up to 70000 positions exhaustively, larger ones by "
         "200000 positions each")
def index_shuffle_native(c):
  """The built extension: a permutation of [0, n), fixed by its arguments."""
  f = _shuffle()
  kind = c.pick("size", ["tiny", "small", "medium", "edge", "large"])
  n = {"tiny": lambda: c.int("n", 1, 40), "small": lambda: c.rng.randint(1, 3000),
       "medium": lambda: c.rng.randint(3000, 70000),
       "edge": lambda: 2 ** c.rng.choice([8, 12, 15, 16]) + c.rng.choice([-1, 0, 1, 2]),
       "large": lambda: 2 ** c.rng.randint(17, 62) + c.rng.choice([-1, 0, 1, 5])}[kind]()
  seed = c.rng.choice([0, 1, 42, 2**31, 2**32 - 1, c.rng.randrange(2**32)])
  rounds = c.rng.choice([4, 4, 4, 6, 8, 10, 64])
  c._log("n", n), c._log("seed", seed), c._log("rounds", rounds)
  c.cover("shuffle")
  if n <= 80000:
    out = [f(i, max_index=n - 1, seed=seed, rounds=rounds) for i in range(n)]
    c.check(min(out) >= 0 and max(out) < n, "in-range")
    c.check(len(set(out)) == n, "one-to-one")
    i = c.rng.randrange(n)
    c.check(f(i, n - 1, seed, rounds) == out[i], "depends-on-arguments-only")
  else:
    k = 200000 if c.rng.random() < 0.2 else 5000
    if c.rng.random() < 0.5:
      a = c.rng.randrange(n - k) if n > k else 0
      idx = range(a, a + min(k, n))
    else:
      idx = {c.rng.randrange(n) for _ in range(k)} | {0, n - 1}
    out = {f(i, n - 1, seed, rounds) for i in idx}
    c.check(min(out) >= 0 and max(out) < n, "in-range")
    c.check(len(out) == len(idx), "one-to-one")
    i = next(iter(idx))
    c.check(f(i, n - 1, seed, rounds) in out, "depends-on-arguments-only")


@harness("C02", sym=False, so=True,
         bounded="drawn invalid requests")
def index_shuffle_rejects(c):
  """Invalid requests are refused, not computed."""
  f = _shuffle()
  n = c.int("n", 1, 1000)
  c.cover("reject")
  for args in [(n, n - 1, 0, 4), (-1, n - 1, 0, 4), (0, -1, 0, 4),
               (0, n - 1, 0, c.int("odd", 0, 600) * 2 + 1), (0, n - 1, 0, 2),
               (0, n - 1, 0, 1026), (0, n - 1, -1, 4), (0, n - 1, 2**32, 4)]:
    try:
      r = f(*args)
    except (ValueError, TypeError):
      r = None
    c.check(r is None, "invalid-request-refused", (args, r))
