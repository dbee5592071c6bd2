"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "grain/_src/python/dataset/transformations/"
D = "grain/_src/python/dataset/dataset.py"
P = []


def prop(id, title, statement, over, text, tests, files, mech, level="proof",
         technique="", note=""):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                tests=tests, files=files, mech=mech, level=level,
                technique=technique, note=note))


PY = ("contracts on the real Python functions, discharged by symbolic execution "
      "with inductive loop invariants and z3/cvc5")
NOTE = ("Trusted: the engine, the solvers, the abstract parent contract, integers "
        "for machine arithmetic. The text of a proved harness also runs natively "
        "on drawn inputs.")


def note(p, hs):
  """Which harnesses are proofs, and which only explore."""
  out = []
  full = [h["name"] for h in hs if h["sym"] and not h["bounded"]]
  part = [h for h in hs if h["sym"] and h["bounded"]]
  drawn = [h["name"] for h in hs if not h["sym"]]
  if full:
    out.append("Proved over the mechanically instrumented current sources, for all "
               "inputs and iterations: " + ", ".join(full) + ".")
  if part:
    out.append("Proved with a stated bound: " + "; ".join(
        f"{h['name']} ({h['bounded']})" for h in part) + ".")
  if drawn:
    out.append("Bounded exploration of the real code on drawn inputs, never counted "
               "as proved: " + ", ".join(drawn) + ".")
  if p["note"]:
    out.append(p["note"])
  if full or part:
    out.append(NOTE)
  return " ".join(out)

prop("C01", "Shards of a source partition it",
     "For every number of records and every shard count, the record ranges given "
     "to the shards are disjoint, ordered and cover all the records, or all but "
     "the remainder when the remainder is dropped. Shard sizes differ by at most "
     "one, and are equal when the remainder is dropped. Every split of every "
     "valid request is accepted and no invalid one is.",
     ["inputs", "configurations"],
     "all record counts, shard counts and shard indices, with and without "
     "dropping the remainder",
     "Tests check a handful of counts; coverage and disjointness are statements "
     "about every count and every pair of shards.",
     ["grain/_src/core/sharding.py"],
     [("even split of a range", "grain/_src/core/sharding.py:even_split")])
prop("C02", "Index shuffle is a permutation",
     "For every number of records, seed and number of rounds in range, shuffling "
     "indices maps the valid positions one-to-one onto the valid positions. The "
     "result depends only on its arguments.",
     ["inputs"], "all record counts, seeds and positions",
     "Tests shuffle a few small ranges; being a permutation concerns every size "
     "up to the 32-bit limit.",
     ["grain/_src/python/experimental/index_shuffle/index_shuffle.cc"],
     [("index shuffle", "grain/_src/python/experimental/index_shuffle/index_shuffle.cc:index_shuffle")])
prop("C03", "Random-access operations denote their sequences",
     "Slicing, repeating, concatenating, zipping, batching, reindexing, mapping "
     "and filtering a random-access dataset gives exactly the length and, at "
     "every index (also beyond the first epoch and negative where allowed), "
     "exactly the element that the operation's mathematical definition gives. "
     "This holds for datasets of any size.",
     ["inputs", "configurations"],
     "all dataset lengths, indices and operation parameters",
     "Tests use lists of a few elements; index arithmetic at boundaries, epochs "
     "and large sizes is not reached.",
     [T + "slice.py", T + "repeat.py", T + "batch.py", T + "concatenate.py",
      T + "zip.py", T + "map.py", T + "filter.py", T + "source.py"],
     [("slice", T + "slice.py:SliceMapDataset"),
      ("repeat", T + "repeat.py:RepeatMapDataset"),
      ("batch", T + "batch.py:BatchMapDataset"),
      ("concatenation", T + "concatenate.py"),
      ("zip", T + "zip.py:ZipMapDataset"),
      ("range and file sources", T + "source.py")])
prop("C04", "Every shuffled epoch is a permutation",
     "In every epoch, a globally shuffled dataset contains each element of its "
     "parent exactly once, and a window-shuffled one contains in every window "
     "exactly the elements of that window. The order is a function of the seed "
     "and the epoch (or window) only, and reseeding changes from epoch to epoch "
     "only when asked for.",
     ["inputs", "configurations"],
     "all lengths, window sizes, seeds and epochs",
     "Tests compare a few shuffled lists with expected ones.",
     [T + "shuffle.py"],
     [("global shuffle", T + "shuffle.py:ShuffleMapDataset"),
      ("window shuffle", T + "shuffle.py:WindowShuffleMapDataset"),
      ("window shuffle of iterators", T + "shuffle.py:WindowShuffleIterDataset")])
prop("C05", "Mixtures keep their proportions and lose nothing",
     "Within every prefix of a mixture the number of elements from each source "
     "follows the weights to within one rounding step, and each source's own "
     "elements appear in order, each once, without gaps. A random-access mixture "
     "has the length at which the first source runs out.",
     ["inputs", "configurations"],
     "all prefix lengths, lengths of the sources and weights",
     "Tests check the counts for some weights over short prefixes.",
     [T + "mix.py"],
     [("selection of the source", T + "mix.py:SelectionWithProportionsMap"),
      ("mixed dataset", T + "mix.py:MixedMapDataset"),
      ("mixed iterator", T + "mix.py:_MixedDatasetIterator")])
prop("C06", "Reading in batches equals reading one by one",
     "For every random-access dataset, asking for a list of indices at once gives "
     "the same elements in the same order as asking for each index by itself.",
     ["inputs", "configurations"],
     "all index lists of any length over all parameters of each operation",
     "Tests compare a few index lists; the batched path is separate code in each "
     "operation.",
     [D, T + "map.py", T + "shuffle.py", T + "mix.py", T + "source.py"],
     [("batched read", D + ":MapDataset._getitems")])
prop("C07", "Random transforms depend on seed and position only",
     "The randomness given to a random transform is a function of the seed and "
     "the element's position alone: reading order, repetition, batching or other "
     "reads in between never change it. Different positions of one dataset get "
     "different streams, and a reused generator never leaks state between "
     "elements.",
     ["inputs", "histories"],
     "all seeds, positions and orders of reads",
     "Tests read a few positions in order.",
     [T + "map.py", "grain/_src/python/rng.py"],
     [("random map", T + "map.py:RandomMapMapDataset"),
      ("generator pool", "grain/_src/python/rng.py:RngPool")])
prop("C08", "Element-wise pipelines resume exactly from a saved state",
     "A state saved at any point of a mapped, filtered, limited or batched stream "
     "and restored into any other iterator over the same pipeline, whatever that "
     "one did before, continues with exactly the elements the first one would "
     "have given. Saved states survive JSON and are values: nothing done later to "
     "an iterator changes them.",
     ["histories", "crash_points"],
     "all streams, all points at which a state is saved, all prior histories of "
     "the iterator it is restored into",
     "Tests save at a few points of short streams, mostly into fresh iterators.",
     [T + "map.py", T + "filter.py", T + "limit.py", T + "batch.py"],
     [("map", T + "map.py:_MapDatasetIterator"),
      ("filter", T + "filter.py:_FilterDatasetIterator"),
      ("limit", T + "limit.py:_LimitDatasetIterator"),
      ("batch", T + "batch.py:_BatchDatasetIterator")])
prop("C09", "Buffering pipelines resume exactly from a saved state",
     "A state saved in the middle of a one-to-many expansion, a cache, a shuffled "
     "window, a rebatch, a packing bin or a split sequence and restored into any "
     "other iterator over the same pipeline continues with exactly the elements "
     "the first one would have given. The same holds for a state saved right "
     "after a restore, and saved states are values.",
     ["histories", "crash_points"],
     "all streams, all points at which a state is saved, all prior histories of "
     "the iterator it is restored into",
     "Buffered elements make states mid-buffer and at the end of the data "
     "special; tests cover few such points and rarely a used iterator.",
     [T + "flatmap.py", T + "cache.py", T + "shuffle.py", T + "batch.py",
      T + "packing.py"],
     [("one-to-many", T + "flatmap.py:_FlatMapDatasetIterator"),
      ("cache", T + "cache.py:_InMemoryCacheDatasetIterator"),
      ("window shuffle", T + "shuffle.py:_WindowShuffleDatasetIterator")])
prop("C10", "Multi-source pipelines resume exactly from a saved state",
     "A state saved at any point of a zipped, mixed, interleaved, concatenated or "
     "repeated stream and restored into any other iterator over the same pipeline "
     "continues with exactly the elements the first one would have given, from "
     "every source. Saved states are values.",
     ["histories", "crash_points"],
     "all streams, all points at which a state is saved, all prior histories of "
     "the iterator it is restored into",
     "The state is a combination of the states of all sources; tests reach few of "
     "the combinations.",
     [T + "zip.py", T + "mix.py", T + "repeat.py", T + "interleave.py"],
     [("zip", T + "zip.py:_ZipDatasetIterator"),
      ("mix", T + "mix.py:_MixedDatasetIterator"),
      ("repeat", T + "repeat.py:_RepeatDatasetIterator"),
      ("interleave", T + "interleave.py:InterleaveDatasetIterator")])


def main():
  sys.path.insert(0, VERIF)
  exec(open(os.path.join(VERIF, "tools", "props_more.py")).read(), globals())
  meta = subprocess.run(
      ["/opt/venv/bin/python", os.path.join(VERIF, "pyvc", "listing.py")],
      capture_output=True, text=True, check=True,
      env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
  hs = json.loads(meta.stdout)
  have = {p for h in hs for p in h["props"]}
  symb = {p for h in hs if h["sym"] for p in h["props"]}
  lines, checks, na = [], [], []
  for p in P:
    if p["id"] not in have and p["id"] not in NA:
      continue
    lines.append(json.dumps(dict(
        id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["text"]),
        why_tests_cant=p["tests"],
        anchors=dict(files=p["files"],
                     mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))))
    if p["id"] in have:
      checks.append(dict(
          property=p["id"], quick_cmd=f"./check {p['id']}",
          thorough_cmd=f"./check {p['id']} --tier thorough",
          technique=p["technique"] or (PY if p["id"] in symb else
                                       "executable contracts run natively, bounded"),
          level=p["level"] if p["id"] in symb else
          (p["level"] if p["level"] != "proof" or p["technique"] else "exploration"),
          level_note=note(p, [h for h in hs if p["id"] in h["props"]])))
    else:
      na.append(dict(property=p["id"], reason=NA[p["id"]]))
  with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
  man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="See DESIGN.md. No hooks in /repo: the sources are instrumented "
                   "mechanically, in memory, on every run.")
  with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
  print(len(lines), "properties", len(checks), "checks")


if __name__ == "__main__":
  main()
