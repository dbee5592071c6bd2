"""C14, C15 and the packing part of C09: packing, splitting, rebatching."""
import numpy as np

from contracts.iters import checkpoint, isolated, second_generation, step
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import packing
from grain._src.python.dataset.transformations import packing_concat_then_split as cts
from grain._src.python.dataset.transformations import rebatch
from pyvc.harness import harness

NATIVE = "native exploration of drawn streams, settings and histories"


class Seqs:
  """A drawn stream of records, each a dict of arrays of drawn lengths whose
  values name the record and the position."""

  def __init__(self, c, n, caps, dims=(), scalar=False, meta=False, lo=0, none_short=True):
    self.c, self.n, self.caps = c, n, caps
    self.dims, self.scalar, self.meta, self.lo = dims, scalar, meta, lo

  def lens(self, i):
    return {k: self.lo + self.c._h("len", i, k) % (cap - self.lo + 1)
            for k, cap in self.caps.items()}

  def get(self, i):
    r = {}
    for k, m in self.lens(i).items():
      v = 1 + i * 1000 + np.arange(m, dtype=np.int64)
      r[k] = np.stack([v, -v], axis=1) if k in self.dims else v
    if self.scalar:
      r["s"] = np.int64(5000 + i)
    if self.meta:
      r["m"] = f"meta{i}"
    return r

  def __deepcopy__(self, memo):
    return self


def records(c, **kw):
  return Seqs(c, c.int("L", 0, 14), **kw)


class ListIter(dataset.IterDataset):
  """Abstract parent over `Seqs`."""

  def __init__(self, seqs):
    super().__init__()
    self.seqs = seqs

  def __iter__(self):
    from pyvc.model import AbsIterator
    return AbsIterator(self.seqs)


# -- packing into bins ---------------------------------------------------------
def pack_setting(c):
  caps = {"a": c.int("cap_a", 1, 9)}
  if c.bool("two"):
    caps["b"] = c.int("cap_b", 1, 9)
  scalar, meta = c.bool("scalar"), c.bool("meta")
  dims = ("a",) if c.bool("dims") else ()
  seqs = records(c, caps=caps, dims=dims, scalar=scalar, meta=meta)
  length = dict(caps)
  if scalar:
    length["s"] = c.int("cap_s", 1, 4)
  opt = {}
  if c.bool("align"):
    opt["pack_alignment_struct"] = {k: c.int("al_" + k, 1, 4) for k in length}
  if c.bool("pad"):
    opt["padding_struct"] = {k: -7 for k in length}
  if c.bool("max"):
    opt["max_sequences_per_bin"] = c.int("max_seq", 1, 3)
  if meta:
    opt["meta_features"] = ("m",)
  best = c.bool("best_fit")
  cls = packing.BestFitPackIterDataset if best else packing.FirstFitPackIterDataset
  bins = c.int("bins", 1, 4)
  shuffle = c.bool("shuffle")
  ds = cls(ListIter(seqs), length_struct=length, num_packing_bins=bins,
           seed=c.int("seed", 0, 1000), shuffle_bins=shuffle, **opt)
  return ds, seqs, length, opt, best, bins, shuffle


def plen(v):
  return 1 if np.ndim(v) == 0 else len(v)


def reference_pack(seqs, length, opt, best, bins):
  """The documented strategy on plain lists: groups of bins of record numbers."""
  align = opt.get("pack_alignment_struct") or {k: 1 for k in length}
  most = opt.get("max_sequences_per_bin")
  groups, cur = [], None

  def fresh():
    return [dict(free={k: 0 for k in length}, recs=[]) for _ in range(bins)]

  def fits(b, rec):
    return ((most is None or len(b["recs"]) < most) and all(
        b["free"][k] + plen(rec[k]) <= length[k] for k in length))

  def put(b, i, rec):
    b["recs"].append((i, dict(b["free"])))
    for k in length:
      end = b["free"][k] + plen(rec[k])
      b["free"][k] = -(-end // align[k]) * align[k]
  for i in range(seqs.n):
    rec = seqs.get(i)
    cur = cur or fresh()
    ok = [b for b in cur if fits(b, rec)]
    if not ok:
      groups.append(cur)
      cur = fresh()
      ok = cur
    b = max(ok, key=lambda b: sum(b["free"].values())) if best else ok[0]
    put(b, i, rec)
  if cur:
    groups.append(cur)
  return [[b["recs"] for b in g if b["recs"]] for g in groups]


def expected_row(seqs, length, opt, recs, meta):
  pad = opt.get("padding_struct")
  row = {}
  for k, cap in length.items():
    proto = np.asarray(seqs.get(0)[k])
    shape = (cap,) + proto.shape[1:]
    v = np.zeros(shape, proto.dtype) if pad is None else np.full(shape, pad[k], proto.dtype)
    seg, pos = np.zeros(cap, np.int32), np.zeros(cap, np.int32)
    for j, (i, start) in enumerate(recs):
      x = seqs.get(i)[k]
      a, b = start[k], start[k] + plen(x)
      v[a:b] = x
      seg[a:b] = j + 1
      pos[a:b] = np.arange(b - a)
    row[k], row[k + "_segment_ids"], row[k + "_positions"] = v, seg, pos
  if meta:
    row["m"] = [seqs.get(i)["m"] for i, _ in recs]
  return row


@harness("C14", sym=False, bounded=NATIVE, weight=3)
def pack_bins(c):
  """Every record is packed once, whole, in the bin the strategy names; segment
  ids, positions, padding, alignment and the limit per bin are respected."""
  ds, seqs, length, opt, best, bins, shuffle = pack_setting(c)
  out = [dict(x) for x in ds.__iter__()]
  groups = reference_pack(seqs, length, opt, best, bins)
  want = [[expected_row(seqs, length, opt, recs, seqs.meta) for recs in g]
          for g in groups]
  c.check(len(out) == sum(len(g) for g in want), "number-of-bins",
          f"{len(out)} bins, expected {[len(g) for g in want]}")
  at = 0
  for g in want:
    got = out[at:at + len(g)]
    at += len(g)
    for w in g:
      w["m"] = w.get("m")
    for r in got:
      r["m"] = list(r["m"]) if r.get("m") is not None else None
    if not shuffle:
      for r, w in zip(got, g):
        c.same(r, w, "bin-content")
      continue
    left = list(g)
    from pyvc.api import conc_same
    for r in got:
      k = next((k for k, w in enumerate(left) if conc_same(r, w)), None)
      c.check(k is not None, "bin-content", f"unexpected bin {r}")
      left.pop(k)


@harness("C14", sym=False, bounded=NATIVE)
def pack_order(c):
  """The order of shuffled bins is a function of the seed, and bins grouped by a
  feature come out in the order of that feature's average."""
  caps = {"a": c.int("cap_a", 1, 9)}
  seqs = records(c, caps=caps)
  bins = c.int("bins", 1, 5)
  seed = c.int("seed", 0, 1000)
  group = c.bool("group")

  def make():
    return packing.FirstFitPackIterDataset(
        ListIter(seqs), length_struct=caps, num_packing_bins=bins, seed=seed,
        shuffle_bins=True, shuffle_bins_group_by_feature="a" if group else None)
  one, two = list(make().__iter__()), list(make().__iter__())
  c.same(one, two, "same-seed-same-order")
  if group:
    groups = reference_pack(seqs, caps, {}, False, bins)
    at = 0
    for g in groups:
      avg = []
      for r in one[at:at + len(g)]:
        u = np.unique(r["a"])
        avg.append(float(np.sum(u) / max(1, np.count_nonzero(u))))
      at += len(g)
      c.check(avg == sorted(avg), "grouped-order", f"{avg}")


@harness("C09", sym=False, bounded=NATIVE, weight=2)
def ck_packing(c):
  """Save/restore inside a group of packed bins."""
  checkpoint(c, pack_setting(c)[0])


@harness("C09", sym=False, bounded=NATIVE)
def ck2_packing(c):
  """Save right after a restore of a packing iterator."""
  second_generation(c, pack_setting(c)[0])


@harness("C09", sym=False, bounded=NATIVE)
def iso_packing(c):
  """Saved states of a packing iterator are values."""
  isolated(c, pack_setting(c)[0])


# -- concat then split -----------------------------------------------------------
def cts_setting(c):
  caps = {"a": c.int("cap_a", 1, 7)}
  if c.bool("two"):
    caps["b"] = c.int("cap_b", 1, 7)
  meta = c.bool("meta")
  longest = {k: v * c.int("longest_" + k, 1, 3) for k, v in caps.items()}
  if meta:
    longest["m"] = c.int("cap_m", 1, 4)
  seqs = records(c, caps=longest, dims=("a",) if c.bool("dims") else ())
  length = dict(caps)
  if meta:
    length["m"] = longest["m"]
  kw = {}
  if meta:
    kw["meta_features"] = ("m",)
  bos = c.bool("bos")
  if bos:
    kw.update(bos_handling=cts.BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS,
              bos_features=("a",), bos_token_id=-99)
  full = c.bool("split_full")
  ds = cts.ConcatThenSplitIterDataset(
      ListIter(seqs), length_struct=length, split_full_length_features=full, **kw)
  return ds, seqs, caps, length, meta, bos, full


@harness("C15", sym=False, bounded=NATIVE, weight=3)
def split_conserves(c):
  """Concat-then-split neither loses, repeats nor reorders a token of any
  feature, labels every token with its segment and position, and fills at least
  one feature of every packed element but the last ones."""
  ds, seqs, caps, length, meta, bos, full = cts_setting(c)
  out = list(ds.__iter__())
  pieces = {}     # (record, feature) -> list of (first token position, tokens)
  origin = {}
  for o in out:
    for k, cap in length.items():
      c.check(len(o[k]) == cap, "target-length")
    for k in caps:
      seg, pos = o[k + "_segment_ids"], o[k + "_positions"]
      v = o[k] if o[k].ndim == 1 else o[k][:, 0]
      used = int(np.count_nonzero(seg))
      c.check(not np.any(seg[used:]) and not np.any(pos[used:])
              and not np.any(v[used:]), "padding-only-at-the-end", f"{o}")
      start = 0
      while start < used:
        s = seg[start]
        end = start
        while end < used and seg[end] == s:
          end += 1
        c.check(start == 0 or s > seg[start - 1], "segment-ids-ascend", f"{seg}")
        c.same(pos[start:end], np.arange(end - start, dtype=np.int32), "positions")
        toks = [int(x) for x in v[start:end]]
        if bos and k == "a":
          c.check(toks[0] == -99, "bos", f"{toks}")
          toks[0] = None
        pieces.setdefault(k, []).append((id(o), int(s), toks))
        start = end
  for k in caps:
    want = []
    for i in range(seqs.n):
      x = seqs.get(i)[k]
      want.append([int(t) for t in (x if x.ndim == 1 else x[:, 0])])
    got = [t for _, _, t in pieces.get(k, [])]
    flat = [t for g in got for t in g]
    if full:
      ref = [t for w in want for t in w]
      c.check(len(ref) == len(flat) and all(
          b is None or a == b for a, b in zip(ref, flat)),
          "every-token-once-in-order", f"{k}: {flat} for {ref}")
    else:
      c.check(len(flat) == sum(len(w) for w in want), "every-token-once",
              f"{k}: {got} for {want}")
      known = [t for t in flat if t is not None]
      c.check(len(known) == len(set(known))
              and set(known) <= {t for w in want for t in w},
              "every-token-once", f"{k}: {got} for {want}")
      for g in got:
        ks = [t for t in g if t is not None]
        c.check(all(b - a == 1 for a, b in zip(ks, ks[1:])), "segments-contiguous")
  if not meta:
    part = [j for j, o in enumerate(out) if not any(
        np.count_nonzero(o[k + "_segment_ids"]) == caps[k] for k in caps)]
    c.check(not part or part == [len(out) - 1] or (not full and len(part) == 1),
            "some-feature-full", f"{part} of {out}")
  # the features of one segment stem from one record
  for o in out:
    for s in range(1, 1 + max(int(o[k + "_segment_ids"].max()) for k in caps)):
      rec = set()
      for k in caps:
        v = o[k] if o[k].ndim == 1 else o[k][:, 0]
        toks = [int(t) for t in v[o[k + "_segment_ids"] == s]]
        rec |= {(t - 1) // 1000 for t in toks if t != -99}
      c.check(len(rec) <= 1, "segment-is-one-record", f"{o}")


@harness("C09", sym=False, bounded=NATIVE, weight=2)
def ck_split(c):
  """Save/restore of concat-then-split, also with a remainder pending."""
  checkpoint(c, cts_setting(c)[0])


@harness("C09", sym=False, bounded=NATIVE)
def ck2_split(c):
  """Save right after a restore of concat-then-split."""
  second_generation(c, cts_setting(c)[0])


@harness("C09", sym=False, bounded=NATIVE)
def iso_split(c):
  """Saved states of concat-then-split are values."""
  isolated(c, cts_setting(c)[0])


# -- rebatch ---------------------------------------------------------------------
def rebatch_setting(c):
  cap = c.int("in", 1, 6)
  lo = 1
  same = c.bool("same")
  two = c.bool("two")

  class Batches(Seqs):

    def get(self, i):
      m = cap if same else 1 + self.c._h("rb", i) % cap
      v = 1 + i * 1000 + np.arange(m, dtype=np.int64)
      return {"x": v, "y": np.stack([v, -v], axis=1)} if two else v

  seqs = Batches(c, c.int("L", 0, 12), {})
  b, drop = c.int("out", 1, 13), c.bool("drop")
  return rebatch.RebatchIterDataset(ListIter(seqs), b, drop_remainder=drop), seqs, b, drop


@harness("C16", sym=False, bounded=NATIVE)
def rebatch_elements(c):
  """Rebatching cuts the concatenation of the batches at multiples of the new
  size."""
  ds, seqs, b, drop = rebatch_setting(c)
  rows = []
  for i in range(seqs.n):
    x = seqs.get(i)
    rows += [int(t) for t in (x["x"] if isinstance(x, dict) else x)]
  got = list(ds.__iter__())
  want = [rows[k:k + b] for k in range(0, len(rows), b)]
  if drop and want and len(want[-1]) < b:
    want.pop()
  c.check([[int(t) for t in (g["x"] if isinstance(g, dict) else g)] for g in got]
          == want, "rebatched", f"{got} for {want}")
  for g in got:
    if isinstance(g, dict):
      c.same(g["y"], np.stack([g["x"], -g["x"]], axis=1), "features-stay-aligned")


@harness("C09", sym=False, bounded=NATIVE)
def ck_rebatch(c):
  """Save/restore inside a batch being cut up."""
  checkpoint(c, rebatch_setting(c)[0])


@harness("C09", sym=False, bounded=NATIVE)
def iso_rebatch(c):
  """Saved states of a rebatch iterator are values."""
  k = rebatch_setting(c)[0]
  isolated(c, k)
