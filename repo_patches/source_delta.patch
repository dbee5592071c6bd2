From 52fdebb0435484fef33c92110384624266b860b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 01/22] fix: compute batch and range source lengths with
 integer arithmetic

---
 grain/_src/python/data_sources.py                  | 4 ++--
 grain/_src/python/dataset/transformations/batch.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/data_sources.py b/grain/_src/python/data_sources.py
index f885dae..5ce6653 100644
--- a/grain/_src/python/data_sources.py
+++ b/grain/_src/python/data_sources.py
@@ -23,7 +23,6 @@ pipelines.
 
 from collections.abc import Sequence
 import inspect
-import math
 from multiprocessing import shared_memory
 import os
 import threading
@@ -113,7 +112,8 @@ class RangeDataSource:
     self._start = start
     self._stop = stop
     self._step = step
-    self._len = int(math.ceil((self._stop - self._start) / step))
+    # Integer arithmetic: a float quotient is inexact beyond 2**53.
+    self._len = -((self._start - self._stop) // step)
     assert self._len >= 0, "length can't be negative."
     _api_usage_counter.Increment("RangeDataSource")
 
diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 93169fc..983e48d 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -18,7 +18,6 @@ from __future__ import annotations
 from collections.abc import Sequence
 import concurrent.futures
 import functools
-import math
 import pprint
 import sys
 from typing import Any, Callable, Generic, Protocol, TypeVar, cast, runtime_checkable
@@ -428,7 +427,8 @@ class BatchMapDataset(dataset.MapDataset[T]):
     if self._drop_remainder:
       return len(self._parent) // self._batch_size
     else:
-      return math.ceil(len(self._parent) / self._batch_size)
+      # Integer arithmetic: a float quotient is inexact beyond 2**53.
+      return -(-len(self._parent) // self._batch_size)
 
   @functools.cached_property
   def _get_parent_items_fn(self):
-- 
2.43.0


From 7ead48032fc412d14ebb2a4c6314a289d2df0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 02/22] fix: size the index shuffle block by the bit width of
 max_index

---
 .../_src/python/experimental/index_shuffle/index_shuffle.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
index b031fe7..636a9bc 100644
--- a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
+++ b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
@@ -35,7 +35,6 @@ limitations under the License.
 
 #include <algorithm>
 #include <bitset>
-#include <cmath>
 #include <cstdint>
 #include <random>
 #include <vector>
@@ -115,7 +114,10 @@ uint64_t index_shuffle(const uint64_t index, const uint64_t max_index,
   // Block size must be large enough to represent max_index and even (since
   // word size is half of it). We force at least 16 bits as minimum block size
   // since we observed pattern in the permutations below.
-  int block_size = static_cast<int>(std::ceil(std::log2(max_index)));
+  int block_size = 0;
+  for (uint64_t rest = max_index; rest > 0; rest >>= 1) {
+    ++block_size;
+  }
   block_size = std::max(block_size + block_size % 2, kMinBlockSize);
   assert(block_size > 0 && block_size % 2 == 0 && block_size <= 64);
   // rounds should be in [4, 1024] and number of rounds must be even.
-- 
2.43.0


From 385d333f42ab6a5eefe0f3e53d5b91436d243bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 03/22] fix: drop the stale buffer when a flat map iterator is
 restored at its end

---
 grain/_src/python/dataset/transformations/flatmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 75a8ea6..20dc473 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -134,8 +134,8 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       # Edge case: The iterator has run out of elements.
       # We keep this EOF state.
 
+      self._buffer = []
       self._next_index_in_buffer = 0
-      pass
 
   def __str__(self) -> str:
     return f"FlatMapDatasetIterator(transform={self._transform_name})"
-- 
2.43.0


From 3b7413907c1b0ccfa3c5d87c5da2dee6ae3cfd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 04/22] fix: tell that the parent state is unusable while a
 cache rebuild is pending

---
 grain/_src/python/dataset/transformations/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 829dc51..38bf2d0 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -56,6 +56,8 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
     self._position = 0
     self._cache_filled = False
     self._rebuild_cache = False
+    # Whether the parent is in the state of an iterator whose cache was filled.
+    self._parent_state_unusable = False
     self._starting_state = parent_iter.get_state()
 
   @stats.record_next_duration_if_output
@@ -74,6 +76,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
         self._parent.set_state(self._starting_state)
         self._cache = []
         self._rebuild_cache = False
+        self._parent_state_unusable = False
       for _ in range(self._position):
         val = next(self._parent)
         with timer:
@@ -93,7 +96,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
     return {
         "parent": self._parent.get_state(),
         "position": self._position,
-        "cache_filled": self._cache_filled,
+        "cache_filled": self._cache_filled or self._parent_state_unusable,
     }
 
   def set_state(self, state: dict[str, Any]):
@@ -101,6 +104,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
       # If the state is from an iterator whose cache was filled, the parent
       # state will not be usable. We will rebuild the cache from scratch.
       self._rebuild_cache = True
+    self._parent_state_unusable = state["cache_filled"]
     self._parent.set_state(state["parent"])
     self._position = state["position"]
     if self._position > len(self._cache) and not self._cache_filled:
-- 
2.43.0


From 82a4f983610cdb8c1ade761a10472381e3ab8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 05/22] fix: forget exhausted iterators when an interleave
 iterator is restored

---
 grain/_src/python/dataset/transformations/interleave.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d1830f6..dc081ca 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -256,6 +256,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for index_in_cycle, (index_in_datasets, it_state) in enumerate(
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
+      self._exhausted_iterator_state[index_in_cycle] = None
       if it_state is None:
         self._iterators_in_use[index_in_cycle] = None
       elif exhausted[index_in_cycle] == 0:
-- 
2.43.0


From b874acf1eb2e94623b5b015e85254ae8fa634ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 06/22] fix: do not share saved state with a running interleave
 iterator

---
 .../python/dataset/transformations/interleave.py    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index dc081ca..b045ff3 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -17,7 +17,7 @@ import collections
 from collections.abc import Sequence
 import copy
 import functools
-from typing import Any, TypeVar, cast
+from typing import Any, TypeVar
 import weakref
 
 from absl import logging
@@ -204,7 +204,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         "iterators_in_use_indices": self._iterators_in_use_indices.copy(),
         "iterators_in_use_states": iterators_in_use_states,
         "exhausted": exhausted,
-        "future_states": self._future_states,
+        "future_states": self._future_states.copy(),
     }
     return state
 
@@ -295,8 +295,13 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     )
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
-    self._iterators_in_use_indices = state["iterators_in_use_indices"]
-    self._future_states = cast(dict[int, Any], state.get("future_states", {}))
+    # Copied because iteration changes them and `state` belongs to the caller.
+    self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
+    # JSON turns the keys into strings.
+    self._future_states = {
+        int(index): future_state
+        for index, future_state in state.get("future_states", {}).items()
+    }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
     active_states = []
-- 
2.43.0


From 75bd722e18962d640189319517d5a65ebd42ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 07/22] fix: do not emit an empty batch after restoring a used
 up rebatch iterator

---
 grain/_src/python/dataset/transformations/rebatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index e6cfb25..e6bf151 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -145,6 +145,9 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
           raise ValueError(
               "Rebatching with starting batch size of 0 is not supported."
           )
+        if self._batch_idx >= len(self._current_batch[0]):
+          # The state was saved after the last element of the current batch.
+          continue
 
         if not to_concatenate:
           for _ in range(len(self._current_batch)):
-- 
2.43.0


From 34c57142da6b3da42e7c935980ba35da0699e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 08/22] fix: restore concat-then-split from a state which went
 through JSON

---
 .../dataset/transformations/packing_concat_then_split.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index f54e2a6..3d80bbc 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -525,6 +525,10 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
 
   def set_state(self, state: dict[str, Any]):
     state = _CtsState(**state)
+    # JSON turns the slices into lists.
+    state.remainder_slices = {
+        key: tuple(sl) for key, sl in state.remainder_slices.items()
+    }
     # Clear internal state.
     self._packed_elements = collections.deque()
     self._remainder_element = None
-- 
2.43.0


From e091694dee0d5e3de1e4676e0e079508f3efb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 09/22] fix: split every feature of a remainder relative to
 where it starts

---
 .../transformations/packing_concat_then_split.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 3d80bbc..c5fb58a 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -375,17 +375,17 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
           return element
         new_tokens_in_buffer[key] = sequence_length
       else:
+        if element.slices[key] == _EMPTY_SLICE:
+          start_index = 0
+        else:
+          start_index = element.slices[key][0]
         if sequence_length > available_tokens:
           needs_splitting = True
-          if element.slices[key] == _EMPTY_SLICE:
-            start_index = 0
-          else:
-            start_index = element.slices[key][0]
           split_points[key] = start_index + available_tokens
           new_tokens_in_buffer[key] = available_tokens
         else:
           # No splitting.
-          split_points[key] = sequence_length
+          split_points[key] = start_index + sequence_length
           new_tokens_in_buffer[key] = sequence_length
 
     if needs_splitting:
-- 
2.43.0


From 26bfcf02380bc07dea437e9a6e08499369a59ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 10/22] fix: do not write a BOS token for an empty slice of a
 feature

---
 .../python/dataset/transformations/packing_concat_then_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index c5fb58a..2e9f637 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -313,7 +313,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
               " ConcatThenSplitPackDatasetIterator."
           )
         values[start:end] = sequence
-        if replace_with_bos:
+        if replace_with_bos and sequence_length > 0:
           values[start] = self._config.bos_token_id
         if not is_meta_feature:
           assert segment_ids is not None
-- 
2.43.0


From c4a23efcfd6ba2400caba724608fb783de135a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 11/22] fix: respect max_sequences_per_bin for empty sequences
 in best fit packing

---
 .../transformations/packing_packed_batch.py    | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index 56f8ae1..f09d425 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -418,21 +418,15 @@ class BestFitPackedBatch(PackedBatch[_T]):
     free_cells_matrix = np.stack(self._flat_first_free_cell_per_row, axis=0)
     new_free_cells = free_cells_matrix + element_lengths[:, np.newaxis]
 
+    features_fit = new_free_cells <= self._capacities[:, np.newaxis]
     if self._max_sequences_per_bin is not None:
-      # Invalidate bins that have reached the max sequence limit. Adding the
-      # capacity ensures they fail the subsequent length check.
-      max_sequence_mask = np.where(
-          self._num_examples_per_row < self._max_sequences_per_bin, 0, 1
-      )
-      new_free_cells = (
-          new_free_cells + max_sequence_mask * self._capacities[:, np.newaxis]
-      )
-    fittable_mask = np.all(
-        new_free_cells <= self._capacities[:, np.newaxis], axis=0
-    )
+      # Nothing fits into bins that have reached the max sequence limit, not
+      # even a sequence of length zero.
+      not_full_mask = self._num_examples_per_row < self._max_sequences_per_bin
+      features_fit = np.logical_and(features_fit, not_full_mask)
+    fittable_mask = np.all(features_fit, axis=0)
 
     if not np.any(fittable_mask):
-      features_fit = new_free_cells <= self._capacities[:, np.newaxis]
       fail_counts = np.sum(~features_fit, axis=1)
       order = np.argsort(-fail_counts)
       failing_components = [
-- 
2.43.0


From b6eaca82159a683f0838ef38512514ae8d8b86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 12/22] fix: do not read exhausted datasets again after
 resharding an interleave

---
 .../dataset/transformations/interleave.py     | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index b045ff3..d7c264f 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -141,24 +141,23 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             continue
       with timer:
         if self._next_index_in_datasets < len(self._datasets):
-          self._iterators_in_use[self._next_index_in_cycle] = next(
-              self._prefetch_ds_iter
-          )
+          iterator = next(self._prefetch_ds_iter)
+          index_in_datasets = self._next_index_in_datasets
+          self._next_index_in_datasets += 1
+          # For elastic iterators, we might have a future state saved for this
+          # dataset iterator from which to resume from.
+          if index_in_datasets in self._future_states:
+            future_state = self._future_states.pop(index_in_datasets)
+            if future_state is None:
+              # The dataset was exhausted before resharding.
+              iterator.close()
+              continue
+            iterator.set_state(future_state)
+          self._iterators_in_use[self._next_index_in_cycle] = iterator
           self._exhausted_iterator_state[self._next_index_in_cycle] = None
           self._iterators_in_use_indices[self._next_index_in_cycle] = (
-              self._next_index_in_datasets
+              index_in_datasets
           )
-          # For elastic iterators, we might have a future state saved for this
-          # dataset iterator from which to resume from.
-          if (
-              self._next_index_in_datasets in self._future_states
-              and self._iterators_in_use[self._next_index_in_cycle]
-          ):
-            future_state = self._future_states.pop(self._next_index_in_datasets)
-            self._iterators_in_use[self._next_index_in_cycle].set_state(
-                future_state
-            )
-          self._next_index_in_datasets += 1
         elif not any(self._iterators_in_use):
           raise StopIteration
         else:
@@ -224,7 +223,13 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # means the current shard has not yet started to be iterated on or have a
       # future state has been saved for it.
       if i >= next_index_in_datasets:
-        if i in self._future_states:
+        if i in self._future_states and self._future_states[i] is None:
+          # Exhausted before resharding.
+          shard_states[i] = {
+              "exhausted": 1,
+              "state": self._get_iterator_start_state(i),  # pylint: disable=protected-access
+          }
+        elif i in self._future_states:
           shard_states[i] = {
               "exhausted": 0,
               "state": self._future_states[i],
@@ -326,6 +331,11 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         max(iterators_in_use_indices) + 1 if iterators_in_use_indices else 0
     )
 
+    # Exhausted datasets which come up again are skipped.
+    for indx in range(next_index_in_datasets, len(shard_states)):
+      if shard_states[indx]["exhausted"]:
+        future_states[indx] = None
+
     # This is the case where the cycle length is greater than the number of
     # non-exhausted shards. We will just go back through the datasets to fill
     # the cycle length.
-- 
2.43.0


From d32b33215790e3819f966ee6cd92d4697e206271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 13/22] fix: compute the length of a mixture exactly

The division by the floating point share of a dataset could round up, so that
the last element of the mixture repeated an element of a parent, or round down
and leave an element out.
---
 grain/_src/python/dataset/transformations/mix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 74cdb50..ddbf396 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -54,7 +54,7 @@ class SelectionWithProportionsMap(base.DatasetSelectionMap):
     # once.
     weight_sum = sum(proportions)
     lengths = [
-        len(parent) / (weight / weight_sum)
+        len(parent) * weight_sum // weight
         for parent, weight in zip(parents, proportions)
     ]
     zero_length_datasets = []
@@ -66,7 +66,7 @@ class SelectionWithProportionsMap(base.DatasetSelectionMap):
           "All datasets must have positive length for mixing, but dataset(s) "
           f"at {', '.join(zero_length_datasets)} have length 0."
       )
-    self._length = min(sys.maxsize, int(min(lengths)))
+    self._length = min(sys.maxsize, min(lengths))
 
   def __len__(self) -> int:
     return self._length
-- 
2.43.0


From 8ebb13f3fee366cf48b25a2600d49b4ad37295d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:55 +0000
Subject: [PATCH 14/22] fix: keep the seeds of shuffled windows in range

---
 grain/_src/python/dataset/transformations/shuffle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 23e56c4..c9a6dc1 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -111,7 +111,7 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
 
   def _shuffled_index(self, index: int) -> int:
     window_index, index_in_window = divmod(index, self._window_size)
-    seed = self._seed + window_index
+    seed = (self._seed + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
         max_index=self._window_size - 1,
@@ -210,7 +210,8 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
     self._window = _reshuffle_window(
-        window=self._window, seed=self._global_seed + self._window_index
+        window=self._window,
+        seed=(self._global_seed + self._window_index) % 2**32,
     )
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From ce40d6bb32e0d091508b7955bd3855135bde8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 15/22] fix: count elements whose prefetched read failed as
 read

---
 grain/_src/python/dataset/transformations/prefetch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 76449dd..b75d6de 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -259,6 +259,8 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
             self._fill_buffer()
           self._measure_prefetch_depth()
           element = self._buffer.popleft()
+          # The element has left the buffer, even if reading it failed.
+          self._next_returned_index += 1
           # Prefetch elements until the buffer is full again.
           self._fill_buffer()
           element = element.result()
@@ -266,13 +268,15 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
           if self._buffer:
-            element = self._buffer.popleft().result()
+            element = self._buffer.popleft()
+            self._next_returned_index += 1
+            element = element.result()
           else:
             element = self._stats.record_bytes_consumed(
                 self._map_parent[self._next_returned_index]
             )
             self._next_buffered_index += 1
-        self._next_returned_index += 1
+            self._next_returned_index += 1
       return_element = self._allow_nones or element is not None
       self._threshold_checker.check(return_element)
       if return_element:
-- 
2.43.0


From 2e0edd53778564f415c1ae9d09fb16f2c746ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 16/22] fix: leave a prefetch iterator as it was when it
 refuses a state

---
 .../_src/python/dataset/transformations/prefetch.py  | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index b75d6de..d127d1b 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -290,16 +290,14 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   def set_state(self, state):
     with self._lock:
-      self._next_returned_index = state["next_index"]
-      self._next_buffered_index = self._next_returned_index
-      if (
-          self._next_returned_index < 0
-          or self._next_returned_index > self._dataset_length
-      ):
+      next_index = state["next_index"]
+      if next_index < 0 or next_index > self._dataset_length:
         raise IndexError(
-            f"Checkpoint `next_index` {self._next_returned_index} is out of"
+            f"Checkpoint `next_index` {next_index} is out of"
             f" range for dataset of length {self._dataset_length}."
         )
+      self._next_returned_index = next_index
+      self._next_buffered_index = next_index
 
       # Cancel all pending futures in the buffer.
       while self._buffer:
-- 
2.43.0


From 4f89d27ed3e4f3c041a808a633deacf1049b87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 17/22] fix: do not read ahead on a thread without a buffer

An iterator with `prefetch_buffer_size=0` reads its parent in `__next__` when
the buffer is empty. After `start_prefetch` (`InterleaveIterDataset` with
`iter_buffer_size=0` calls it) a thread read the same parent at the same time
into an unbounded queue: elements came out of order or several times.
---
 grain/_src/python/dataset/transformations/prefetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index d127d1b..9b6bd5c 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -608,6 +608,9 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       raise ValueError("Attempting to use a closed iterator.")
     if self._prefetch_thread is not None:
       return
+    if self._target_prefetch_buffer_size == 0:
+      # There is no buffer to prefetch into: `__next__` reads the parent.
+      return
 
     self._prefetch_should_stop.clear()
 
-- 
2.43.0


From 0219de91677adb9afac79fb3162bc8b64ac0ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 18/22] fix: keep the state when a thread starts to read ahead

`get_state` after `set_next_index` and `start_prefetch` asked the parent,
which the thread had moved on: the state skipped elements.
---
 grain/_src/python/dataset/transformations/prefetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 9b6bd5c..babf51f 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -611,6 +611,9 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     if self._target_prefetch_buffer_size == 0:
       # There is no buffer to prefetch into: `__next__` reads the parent.
       return
+    # After `set_next_index` the state is only known to the parent, which must
+    # not be asked once the thread uses it.
+    self.get_state()
 
     self._prefetch_should_stop.clear()
 
-- 
2.43.0


From 7bca38ee5fda8e04ba105a047efaa9be970b5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:30 +0000
Subject: [PATCH 19/22] fix: report a worker which fails before it restores a
 state

The error of a worker process which ended (its init function or dataset failed)
was taken for a stale element while a `set_state` was pending: `next` on an
iterator restored from a checkpoint waited forever.
---
 .../dataset/transformations/process_prefetch.py      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1bf3c8a..6467557 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -296,7 +296,7 @@ def _put_dataset_elements_in_buffer(
     _clear_queue_and_maybe_unlink_shm(set_state_queue)
     grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
         (
-            None,
+            _WorkerFailed(),
             None,
             None,
             e,
@@ -314,6 +314,10 @@ class _SetStateIsDone:
   """Placeholder to indicate set_state has completed in worker process."""
 
 
+class _WorkerFailed:
+  """Placeholder to indicate that the worker process has ended with an error."""
+
+
 def _close_if_alive(
     iterator_ref: weakref.ReferenceType[dataset.DatasetIterator],
 ):
@@ -516,7 +520,11 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             )
           else:
             continue
-        if isinstance(element, _SetStateIsDone):
+        if isinstance(element, _WorkerFailed):
+          # The error is never stale: pending set_state calls are not going to
+          # be completed.
+          break
+        elif isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
         elif self._set_state_count == 0:
           break
-- 
2.43.0


From 40af41f8b5bf9c1cc2c7b2605fbccfa23ff68f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:28 +0000
Subject: [PATCH 20/22] fix: slice a dataset which a pipeline uses twice only
 once per worker

---
 .../dataset/transformations/prefetch.py       | 22 +++++++++++++++----
 .../python/dataset/transformations/source.py  |  5 ++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index babf51f..8af18b0 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -397,6 +397,7 @@ def _set_slice_iter_dataset(
     ds: dataset.IterDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.IterDataset in place.
 
@@ -408,7 +409,13 @@ def _set_slice_iter_dataset(
    ds: dataset.IterDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the datasets which are already sliced. A dataset can be
+     reached on several paths, but must be sliced once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -416,15 +423,16 @@ def _set_slice_iter_dataset(
     raise ValueError(f"Cannot slice `IterDataset` source. {type(ds)}")
   for parent in ds.parents:
     if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
+      _set_slice_map_dataset(parent, sl, sequential_slice, visited)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def _set_slice_map_dataset(
     ds: dataset.MapDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.MapDataset in place.
 
@@ -436,7 +444,13 @@ def _set_slice_map_dataset(
    ds: dataset.MapDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the datasets which are already sliced. A dataset can be
+     reached on several paths, but must be sliced once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -444,9 +458,9 @@ def _set_slice_map_dataset(
     raise ValueError(f"Cannot slice `MapDataset` source. {type(ds)}")
   for parent in ds.parents:
     if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
+      _set_slice_map_dataset(parent, sl, sequential_slice, visited)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def get_dataset_options(ds: dataset.IterDataset) -> base.DatasetOptions:
diff --git a/grain/_src/python/dataset/transformations/source.py b/grain/_src/python/dataset/transformations/source.py
index 9cec968..4da7b3c 100644
--- a/grain/_src/python/dataset/transformations/source.py
+++ b/grain/_src/python/dataset/transformations/source.py
@@ -127,7 +127,10 @@ class SourceMapDataset(dataset.MapDataset):
         shard_count=workers_count,
         drop_remainder=False,
     )
-    shard_start, shard_end = sharding.even_split(self.__len__(), shard_options)
+    # Iterators over several pipelines may share this source and slice it.
+    shard_start, shard_end = sharding.even_split(
+        len(self._original_source_map_dataset or self), shard_options
+    )
     return slice(shard_start, shard_end)
 
   def set_slice(self, sl: slice, sequential_slice: bool = False) -> None:
-- 
2.43.0


From 3612177608fce8fdce5241fe3b7f7d88ae08768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:52 +0000
Subject: [PATCH 21/22] fix: batch arrays of different types or without
 elements as np.stack does

---
 .../python/dataset/transformations/batch.py   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 983e48d..da11d08 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -57,6 +57,17 @@ _PARALLEL_BATCHING_MIN_TOTAL_BYTES = 4 * 1024 * 1024
 _PARALLEL_BATCHING_MIN_BATCH_SIZE = 4
 
 
+def _can_stack_to_shared_memory(
+    xs: Sequence[Any], first_arg: np.ndarray
+) -> bool:
+  """Whether the stacked `xs` have the type of `first_arg` and a size."""
+  # `np.stack` with a pre-allocated `out=` array would cast other types to the
+  # type of the first element, and shared memory can't be empty.
+  return first_arg.size > 0 and all(
+      np.asanyarray(x).dtype == first_arg.dtype for x in xs
+  )
+
+
 class _MakeBatchParallel:
   """A callable class for batching sequences of structured data in parallel.
 
@@ -93,7 +104,7 @@ class _MakeBatchParallel:
 
     first_arg = np.asanyarray(xs[0])
     shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
-    if dtype.hasobject:
+    if dtype.hasobject or not _can_stack_to_shared_memory(xs, first_arg):
       return np.stack(xs)
     # For string dtypes, np.stack with a pre-allocated out= array would
     # silently truncate strings longer than the first element's width.
@@ -125,6 +136,10 @@ class _MakeBatchParallel:
       # Fall back to the serial _stack path which handles strings correctly.
       if dtype.kind in ("U", "S"):
         return self._stack(xs)
+      # Copying into the slices would silently cast and broadcast arrays which
+      # differ from the first one. The serial path promotes or rejects them.
+      if any(x.shape != first_arg.shape or x.dtype != dtype for x in xs):
+        return self._stack(xs)
       # Fall back to the standard serial `np.stack` operation if the size of
       # of the entire batch is smaller (measured in bytes) than the threshold.
       if sum(x.nbytes for x in xs) < _PARALLEL_BATCHING_MIN_TOTAL_BYTES:
@@ -192,7 +207,7 @@ def make_batch(
     def shm_stacking_function(*args):
       first_arg = np.asanyarray(args[0])
       shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
-      if dtype.hasobject:
+      if dtype.hasobject or not _can_stack_to_shared_memory(args, first_arg):
         return np.stack(args)
       # For string dtypes, np.stack with a pre-allocated out= array would
       # silently truncate strings longer than the first element's width.
-- 
2.43.0


From bc38b693a5b84d16748d0cd69a18ade568565def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:57 +0000
Subject: [PATCH 22/22] fix: do not send a view of a shared array as the start
 of that array

---
 grain/_src/python/ipc/shared_memory_array.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8dab940..7c52687 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -117,7 +117,15 @@ class SharedMemoryArray(np.ndarray):
     obj._unlink_on_del = False
     return obj
 
+  @property
+  def _is_view(self) -> bool:
+    """Whether this is a view of (a part of) another array."""
+    return not isinstance(self.base, mmap.mmap)
+
   def __reduce_ex__(self, protocol):
+    if self._is_view:
+      # The shared memory does not tell which part of it is viewed.
+      return self.view(np.ndarray).__reduce_ex__(protocol)
     # For out-of-band pickling we don't need a PickleBuffer because the
     # `SharedMemory` class automatically pickles itself using only its name
     return self.from_shared_memory, (self.shm, self.shape, self.dtype)
@@ -190,7 +198,9 @@ class SharedMemoryArray(np.ndarray):
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
   if isinstance(leaf, SharedMemoryArray):
-    return leaf.metadata
+    if not leaf._is_view:  # pylint: disable=protected-access
+      return leaf.metadata
+    leaf = leaf.view(np.ndarray)
   if (
       not isinstance(leaf, np.ndarray)
       or leaf.dtype.hasobject
-- 
2.43.0

