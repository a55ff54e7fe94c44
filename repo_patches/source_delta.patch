From a1ea255013843eee633b2cbb891b773f919625fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 01/79] fix: BatchDataset length counts the partial batch of
 workers with one more sample

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..306e63c 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From ab57894067bd56a6a65d420855ef8cac3d5f812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 02/79] fix: a skipped or failed batch does not leak its
 restore keys into the following batches

---
 src/megatron/energon/wrappers/batch_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 306e63c..1c1dc48 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -187,12 +187,14 @@ class BatchDataset(
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
-                pass
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
                 self.error_handler(e, batch)
 
         for sample in self.dataset:
@@ -201,6 +203,7 @@ class BatchDataset(
             if len(batch) == self.batch_size:
                 yield from flush()
                 batch = []
+                sample_restore_keys = []
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
 
-- 
2.43.0


From cce14f34149faeed73d71faf1aa58c3eeb172c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 03/79] fix: RepeatDataset starts over in the next epoch and
 keeps its current pass when resumed

---
 src/megatron/energon/wrappers/repeat_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..496cd5f 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
+                self._offset[worker_idx] = offset
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,8 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            # Start over in the next epoch
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From 36db1bd501b57fc648ae450a901c13749ef35edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 04/79] fix: restoring an EpochizeDataset discards the iterator
 of the previous state

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..bee69c1 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # The active iterator belongs to the state before restoring
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From a4638df7c228ddc8a086c5edadec97ad05ec149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 05/79] fix: a generator map function that fails is not resumed
 in the next epoch

---
 src/megatron/energon/wrappers/map_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..e785cfd 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -166,10 +166,13 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                         src=self,
                     )
             except SkipSample:
-                pass
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
             except SYSTEM_EXCEPTIONS as e:
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
                 self.error_handler(e, sample)
 
     def save_state(self) -> MapState:
-- 
2.43.0


From 65f590a948d91d0ca77323ff7dd4768a0fa2aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 06/79] fix: restore keys of a blend refer to all datasets,
 also if some are empty for the worker

---
 src/megatron/energon/wrappers/blend_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..3849b72 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,11 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        # Keep the index of each dataset for the restore key, as empty datasets are left out
+        indexes, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (idx, dataset, weight)
+                for idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -92,7 +93,7 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         while True:
             ds_idx = self._worker_rng.choice_idx(probs=probs)
             sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            yield add_sample_restore_key(sample, indexes[ds_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From 9cc9285514b4f4259a98be83d03bab5073264da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 07/79] fix: restoring a wrapper state copies it, so that the
 state can be restored again

---
 src/megatron/energon/wrappers/base.py               | 2 +-
 src/megatron/energon/wrappers/batch_dataset.py      | 4 ++--
 src/megatron/energon/wrappers/buffer.py             | 2 +-
 src/megatron/energon/wrappers/epochize_dataset.py   | 2 +-
 src/megatron/energon/wrappers/limit_dataset.py      | 2 +-
 src/megatron/energon/wrappers/log_sample_dataset.py | 2 +-
 src/megatron/energon/wrappers/map_dataset.py        | 4 ++--
 src/megatron/energon/wrappers/packing_dataset.py    | 2 +-
 src/megatron/energon/wrappers/repeat_dataset.py     | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index afe7cd6..c92ede5 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -198,7 +198,7 @@ class SampleIndex:
             self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert len(state) == len(self._sample_index)
-            self._sample_index = state
+            self._sample_index = list(state)
 
 
 def get_sample_restore_key(sample: Any) -> Optional[Union[str, int]]:
diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 1c1dc48..810c744 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -254,8 +254,8 @@ class BatchDataset(
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, BatchGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/buffer.py b/src/megatron/energon/wrappers/buffer.py
index 730e504..de17c04 100644
--- a/src/megatron/energon/wrappers/buffer.py
+++ b/src/megatron/energon/wrappers/buffer.py
@@ -139,7 +139,7 @@ class SavableSampleBuffer(BaseWrapperDataset[T_sample], Generic[T_sample]):
             assert isinstance(state, SampleBufferMergedState)
             assert len(state.buffer) == max(self.worker_config.num_workers, 1)
             self._buffer = [[] for _ in range(max(self.worker_config.num_workers, 1))]
-            self._restore_keys = state.buffer
+            self._restore_keys = [list(keys) for keys in state.buffer]
             self._restore_pending = True
 
     def restore_key(self) -> Tuple[Union[str, int], ...]:
diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index bee69c1..d2b63c6 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -130,7 +130,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, EpochizeMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..e95772d 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -133,7 +133,7 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LimitMergedState)
-            self._current_offset = state.offset
+            self._current_offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index 772b180..b0582e5 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -130,7 +130,7 @@ class LogSampleDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_s
             self._step = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LogSampleMergedState)
-            self._step = state.step
+            self._step = list(state.step)
 
     def config(self) -> Dict[str, Any]:
         # Transparent logger, it won't change the samples
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index e785cfd..42494fd 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -222,8 +222,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert isinstance(state, MapMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, MapGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..e6bcf98 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -316,7 +316,7 @@ class PackingDataset(
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
             self._pre_packing_buffer.restore_state(state.pre_packing_buffer)
-            self._pre_packing_lengths = state.pre_packing_lengths
+            self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
 
diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index 496cd5f..c6c64e2 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -109,7 +109,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, RepeatMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From d49cf8260307fc382df4c8abfa5d42e8076726c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 08/79] fix: a resumed generator map or batch function
 continues at its own sample index and is error isolated

---
 .../energon/wrappers/batch_dataset.py         | 53 +++++++++++--------
 src/megatron/energon/wrappers/map_dataset.py  | 50 +++++++++--------
 2 files changed, 60 insertions(+), 43 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 810c744..5f705e9 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,39 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use the index of the interrupted batch
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 42494fd..1a7c0ec 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,35 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use the index of the interrupted sample
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
-- 
2.43.0


From abfa9d827797c02cb3f8bfc6df478e470ee1a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 09/79] fix: packing workers without a saved state are restored
 to an empty buffer

---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index e6bcf98..d724ee5 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From b56eb417c2683f80876c932e2cdcb4a219061fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 10/79] fix: grouped batching restores the buckets of the own
 worker, and its sample indexes

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..1117873 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
@@ -272,9 +274,9 @@ class GroupBatchDataset(
                             SampleBufferMergedState(
                                 buffer=[
                                     (
-                                        []
+                                        bucket_state.samples.buffer
                                         if gen_worker_idx == worker_idx
-                                        else bucket_state.samples.buffer
+                                        else []
                                     )
                                     for gen_worker_idx in range(
                                         max(self.worker_config.num_workers, 1)
-- 
2.43.0


From fe0d9c3328b4466b2a7db7c724a1468d1296e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 11/79] fix: restoring the initial state resets the worker
 random generator

---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..63c2ba0 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -111,6 +111,8 @@ class WorkerRng:
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
         if state is None:
+            # Start over with the initial state
+            self._rng = None
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-- 
2.43.0


From 40df9822b4997ef2147bcbc5f98a9273cce39a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 12/79] fix: a restored concatenation continues with the
 dataset it was saved in

---
 .../energon/wrappers/concat_dataset.py         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..b2f271c 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -20,12 +20,16 @@ T_sample = TypeVar("T_sample")
 class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
+    #: Index of the dataset which is currently iterated
+    current_dataset: int
 
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
+    #: Index of the dataset which is currently iterated, for each worker
+    current_datasets: List[int]
 
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
@@ -36,6 +40,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     """
 
     datasets: Tuple[SavableDataset[T_sample], ...]
+    _current_datasets: List[int]
 
     def __init__(
         self,
@@ -45,19 +50,24 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._current_datasets = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        # Continue with the current dataset if restored
+        for ds_idx in range(self._current_datasets[worker_idx], len(self.datasets)):
+            self._current_datasets[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        self._current_datasets[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +75,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            current_dataset=self._current_datasets[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,17 +88,20 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            current_datasets=[0 if s is None else s.current_dataset for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
+            self._current_datasets = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
+            self._current_datasets = list(state.current_datasets)
 
     def can_restore_sample(self) -> bool:
         return all(dataset.can_restore_sample() for dataset in self.datasets)
-- 
2.43.0


From a74de614e4f24dd91bc5bc0950a38d2db7360239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 13/79] fix: a shuffle buffer restored while draining does not
 read the next epoch early

---
 .../energon/wrappers/shuffle_buffer_dataset.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
index c18594f..64c1635 100644
--- a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
+++ b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
@@ -25,12 +25,15 @@ T_sample = TypeVar("T_sample")
 class ShuffleBufferState(BaseSingleWrapperState):
     buffer: SampleBufferState
     rng: WorkerRngState
+    #: True, if the inner dataset is exhausted, and the remaining buffer is being yielded
+    draining: bool = False
 
 
 @dataclass
 class ShuffleBufferMergedState(BaseSingleWrapperMergedState):
     buffer: SampleBufferMergedState
     rng: WorkerRngMergedState
+    draining: List[bool]
 
 
 class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sample]):
@@ -40,6 +43,7 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
     _worker_rng: WorkerRng
 
     _active_buffer: SavableSampleBuffer[T_sample]
+    _draining: List[bool]
 
     def __init__(
         self,
@@ -53,14 +57,16 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         self.size = size
         self._worker_rng = WorkerRng(self.worker_config)
         self._active_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self) -> int:
         return len(self.dataset)
 
     def __iter__(self) -> Iterator[T_sample]:
+        worker_idx = self.worker_config.rank_worker_id()
         self._active_buffer.worker_start()
         it = iter(self._active_buffer.append_iter())
-        while True:
+        while not self._draining[worker_idx]:
             if len(self._active_buffer) >= self.size:
                 pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
                 yield self._active_buffer.pop(pop_idx)
@@ -68,16 +74,18 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
                 try:
                     next(it)
                 except StopIteration:
-                    break
+                    self._draining[worker_idx] = True
         while len(self._active_buffer) > 0:
             pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
             yield self._active_buffer.pop(pop_idx)
+        self._draining[worker_idx] = False
 
     def save_state(self) -> ShuffleBufferState:
         return ShuffleBufferState.extend(
             super().save_state(),
             rng=self._worker_rng.save_state(),
             buffer=self._active_buffer.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[Optional[ShuffleBufferState]]) -> ShuffleBufferMergedState:
@@ -88,6 +96,7 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
             buffer=self._active_buffer.merge_states(
                 [None if s is None else s.buffer for s in states]
             ),
+            draining=[False if s is None else s.draining for s in states],
         )
 
     def restore_state(self, state: Optional[ShuffleBufferMergedState]) -> None:
@@ -95,10 +104,12 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         if state is None:
             self._active_buffer.restore_state(None)
             self._worker_rng.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ShuffleBufferMergedState)
             self._active_buffer.restore_state(state.buffer)
             self._worker_rng.restore_state(state.rng)
+            self._draining = list(state.draining)
 
     def restore_sample(self, index: Tuple[Union[str, int, tuple], ...]) -> T_sample:
         return self._active_buffer.restore_sample(index)
-- 
2.43.0


From 8095d17fba8424981f58cc2ed0cdaac6b250b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 14/79] fix: a batch or group batch dataset restored after its
 last batch of an epoch ends the epoch

---
 src/megatron/energon/wrappers/batch_dataset.py      | 13 ++++++++++++-
 .../energon/wrappers/group_batch_dataset.py         | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 5f705e9..991a1e9 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -37,11 +37,14 @@ T_batch_sample = TypeVar("T_batch_sample", covariant=True)
 @dataclass
 class BatchState(BaseSingleWrapperState):
     sample_index: int
+    #: True, if the inner dataset is exhausted, and the remaining partial batch is being yielded
+    draining: bool
 
 
 @dataclass
 class BatchMergedState(BaseSingleWrapperMergedState):
     sample_indexes: List[int]
+    draining: List[bool]
 
 
 @dataclass
@@ -68,6 +71,7 @@ class BatchDataset(
     _sample_index: SampleIndex
     _generator_sample_keys: List[Optional[Any]]
     _generator_offsets: List[Optional[int]]
+    _draining: List[bool]
 
     def __init__(
         self,
@@ -105,6 +109,7 @@ class BatchDataset(
         self.drop_last = drop_last
         self.error_handler = error_handler
         self._sample_index = SampleIndex(worker_config, src=self)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
         self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
         self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
 
@@ -206,7 +211,7 @@ class BatchDataset(
                 self._generator_offsets[worker_id] = None
                 self.error_handler(e, batch)
 
-        for sample in self.dataset:
+        for sample in self.dataset if not self._draining[worker_id] else ():
             batch.append(sample)
             sample_restore_keys.append(get_sample_restore_key(sample))
             if len(batch) == self.batch_size:
@@ -214,12 +219,15 @@ class BatchDataset(
                 batch = []
                 sample_restore_keys = []
         if len(batch) > 0 and not self.drop_last:
+            self._draining[worker_id] = True
             yield from flush()
+        self._draining[worker_id] = False
 
     def save_state(self) -> BatchState:
         state = BatchState.extend(
             super().save_state(),
             sample_index=self._sample_index.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
         if self._generator_offsets[self.worker_config.rank_worker_id()] is not None:
             state = BatchGeneratorState.extend(
@@ -238,6 +246,7 @@ class BatchDataset(
             sample_indexes=self._sample_index.merge_states(
                 [0 if state is None else state.sample_index for state in states]
             ),
+            draining=[False if state is None else state.draining for state in states],
         )
         if any(isinstance(s, BatchGeneratorState) for s in states):
             state = BatchGeneratorMergedState.extend(
@@ -257,11 +266,13 @@ class BatchDataset(
         super().restore_state(state)
         if state is None:
             self._sample_index.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
             self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
             self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
+            self._draining = list(state.draining)
             if isinstance(state, BatchGeneratorMergedState):
                 self._generator_sample_keys = list(state.generator_sample_keys)
                 self._generator_offsets = list(state.generator_offsets)
diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 1117873..1b6275c 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -63,6 +63,8 @@ class GroupBatchState(BaseSingleWrapperState):
     bucket_sample_index: int
     batch_sample_index: int
     buckets: List[BucketState]
+    #: True, if the inner dataset is exhausted, and the remaining buckets are being flushed
+    draining: bool = False
 
 
 @dataclass
@@ -70,6 +72,7 @@ class GroupBatchMergedState(BaseSingleWrapperMergedState):
     bucket_sample_index: List[int]
     batch_sample_index: List[int]
     buckets: List[List[BucketMergedState]]
+    draining: List[bool]
 
 
 @dataclass
@@ -97,6 +100,7 @@ class GroupBatchDataset(
     _group_key_sample_index: SampleIndex
     _batch_sample_index: SampleIndex
     _buckets: List[Dict[Hashable, Bucket[T_batch_sample]]]
+    _draining: List[bool]
 
     def __init__(
         self,
@@ -134,6 +138,7 @@ class GroupBatchDataset(
         self._group_key_sample_index = SampleIndex(worker_config, src=self)
         self._batch_sample_index = SampleIndex(worker_config, src=self)
         self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
         assert not inspect.isgeneratorfunction(
             batcher
         ), f"Batcher {batcher} must not be a generator function for grouped batching."
@@ -175,7 +180,7 @@ class GroupBatchDataset(
                 self.error_handler(e, batch_items)
 
         # Add samples to the buckets
-        for sample in self.dataset:
+        for sample in self.dataset if not self._draining[worker_idx] else ():
             try:
                 with self._group_key_sample_index.ctx():
                     bucket_key, batch_size = self.sample_group_key(sample)
@@ -206,12 +211,14 @@ class GroupBatchDataset(
             if len(bucket.samples) >= bucket.batch_size:
                 yield from flush(bucket)
         # Flush out last samples
+        self._draining[worker_idx] = True
         if not self.drop_last:
             for bucket in buckets.values():
                 if len(bucket.samples) > 0:
                     yield from flush(bucket)
         # Clear the buckets
         self._buckets[worker_idx].clear()
+        self._draining[worker_idx] = False
 
     def save_state(self) -> GroupBatchState:
         rank = self.worker_config.rank_worker_id()
@@ -231,6 +238,7 @@ class GroupBatchDataset(
                 if self._buckets[rank] is not None
                 else []
             ),
+            draining=self._draining[rank],
         )
 
     def merge_states(self, states: List[Optional[GroupBatchState]]) -> GroupBatchMergedState:
@@ -244,6 +252,7 @@ class GroupBatchDataset(
                 [0 if s is None else s.batch_sample_index for s in states]
             ),
             buckets=[(state.buckets if state else []) for state in states],
+            draining=[(state.draining if state else False) for state in states],
         )
 
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
@@ -252,10 +261,12 @@ class GroupBatchDataset(
             self._group_key_sample_index.restore_state(None)
             self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, GroupBatchMergedState)
             self._group_key_sample_index.restore_state(state.bucket_sample_index)
             self._batch_sample_index.restore_state(state.batch_sample_index)
+            self._draining = list(state.draining)
             for worker_idx, (buckets_state, buckets) in enumerate(
                 zip(state.buckets, self._buckets)
             ):
-- 
2.43.0


From b25c819bcf77c4fa53cf28bdeae792015a0a7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 15/79] fix: packing restored while yielding its last packs or
 samples of a generator continues exactly

---
 .../energon/wrappers/packing_dataset.py       | 64 +++++++++++++++++--
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index d724ee5..f0b06d6 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -46,6 +46,12 @@ class PackingState(BaseSingleWrapperState):
     pre_packing_lengths: List[int]
     pre_packing_index: int
     final_packing_index: int
+    #: True, if the inner dataset is exhausted, and the remaining packs are being yielded
+    draining: bool
+    #: Restore keys of the pack a generator is currently yielding samples for, None if there is none
+    generator_pack_keys: Optional[Tuple[Any, ...]]
+    #: Number of samples already yielded by that generator
+    generator_offset: int
 
 
 @dataclass
@@ -55,6 +61,9 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     pre_packing_lengths: List[List[int]]
     pre_packing_index: List[int]
     final_packing_index: List[int]
+    draining: List[bool]
+    generator_pack_keys: List[Optional[Tuple[Any, ...]]]
+    generator_offsets: List[int]
 
 
 class PackingDataset(
@@ -136,6 +145,9 @@ class PackingDataset(
         self._pre_packing_lengths = [[] for _ in range(max(worker_config.num_workers, 1))]
         self._pre_packing_sample_index = SampleIndex(worker_config, src=self)
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
+        self._draining = [False] * max(worker_config.num_workers, 1)
+        self._generator_pack_keys = [None] * max(worker_config.num_workers, 1)
+        self._generator_offsets = [0] * max(worker_config.num_workers, 1)
 
     def __len__(self):
         """The real length is unknown, since it depends on the packing function.
@@ -171,6 +183,10 @@ class PackingDataset(
         self._pre_packing_buffer.worker_start()
         self._reading_buffer.worker_start()
 
+        def clear_generator():
+            self._generator_pack_keys[worker_idx] = None
+            self._generator_offsets[worker_idx] = 0
+
         def next_pre_pack():
             """Take the samples from the reading buffer and select groups of samples to be packed
             together."""
@@ -205,20 +221,36 @@ class PackingDataset(
         def next_final_pack() -> Generator[T_batch_sample, None, None]:
             """Yield the next packs from the buffer. The final packer is called on the fly."""
 
-            pack = list(self._pre_packing_buffer[: pre_packing_lengths[0]])
-            del self._pre_packing_buffer[: pre_packing_lengths[0]]
-            del pre_packing_lengths[0]
+            if self._generator_pack_keys[worker_idx] is not None:
+                # Continue the interrupted generator, with the same sample index
+                pack = [
+                    self.dataset.restore_sample(restore_key)
+                    for restore_key in self._generator_pack_keys[worker_idx]
+                ]
+                pack_idx = self._final_packing_sample_index.current_idx - 1
+                target_offset = self._generator_offsets[worker_idx]
+            else:
+                pack = list(self._pre_packing_buffer[: pre_packing_lengths[0]])
+                del self._pre_packing_buffer[: pre_packing_lengths[0]]
+                del pre_packing_lengths[0]
+                pack_idx = None
+                target_offset = 0
             try:
                 pack_restore_keys = tuple(get_sample_restore_key(sample) for sample in pack)
-                with self._final_packing_sample_index.ctx() as pack_idx:
+                with self._final_packing_sample_index.ctx(pack_idx) as pack_idx:
                     final_packed_sample = self.final_packer(pack)
                 if isinstance(final_packed_sample, Generator):
                     assert inspect.isgeneratorfunction(
                         self.final_packer
                     ), f"Generator in {self.final_packer} but not marked as such."
+                    self._generator_pack_keys[worker_idx] = pack_restore_keys
                     for pack_sub_idx, (pack_idx, inner_batch_sample) in enumerate(
                         self._final_packing_sample_index.iter_ctx(final_packed_sample, pack_idx)
                     ):
+                        # Skip samples which were already yielded
+                        if pack_sub_idx < target_offset:
+                            continue
+                        self._generator_offsets[worker_idx] = pack_sub_idx + 1
                         yield set_sample_restore_key(
                             inner_batch_sample,
                             pack_idx,
@@ -226,7 +258,9 @@ class PackingDataset(
                             *pack_restore_keys,
                             src=self,
                         )
+                    clear_generator()
                 else:
+                    clear_generator()
                     yield set_sample_restore_key(
                         final_packed_sample,
                         pack_idx,
@@ -234,14 +268,18 @@ class PackingDataset(
                         src=self,
                     )
             except SkipSample:
-                pass
+                clear_generator()
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(pack)
             except Exception as e:
+                clear_generator()
                 self.error_handler(e, pack)
 
+        if self._generator_pack_keys[worker_idx] is not None:
+            yield from next_final_pack()
+
         # Main loop:
-        stopping = False
+        stopping = self._draining[worker_idx]
         while not stopping:
 
             pre_pack_round = 0
@@ -270,8 +308,10 @@ class PackingDataset(
                 break
 
         # Yield the remaining packs, flushing the collecting buffer
+        self._draining[worker_idx] = True
         while len(pre_packing_lengths) > 0:
             yield from next_final_pack()
+        self._draining[worker_idx] = False
 
     def save_state(self) -> PackingState:
         return PackingState.extend(
@@ -283,6 +323,9 @@ class PackingDataset(
             ),
             final_packing_index=self._final_packing_sample_index.save_state(),
             pre_packing_index=self._pre_packing_sample_index.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
+            generator_pack_keys=self._generator_pack_keys[self.worker_config.rank_worker_id()],
+            generator_offset=self._generator_offsets[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -302,6 +345,9 @@ class PackingDataset(
             pre_packing_index=self._pre_packing_sample_index.merge_states(
                 [0 if state is None else state.pre_packing_index for state in states]
             ),
+            draining=[False if s is None else s.draining for s in states],
+            generator_pack_keys=[None if s is None else s.generator_pack_keys for s in states],
+            generator_offsets=[0 if s is None else s.generator_offset for s in states],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -312,6 +358,9 @@ class PackingDataset(
             self._pre_packing_lengths = [[] for _ in range(max(self.worker_config.num_workers, 1))]
             self._pre_packing_sample_index.restore_state(None)
             self._final_packing_sample_index.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
+            self._generator_pack_keys = [None] * max(self.worker_config.num_workers, 1)
+            self._generator_offsets = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -319,6 +368,9 @@ class PackingDataset(
             self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
+            self._draining = list(state.draining)
+            self._generator_pack_keys = list(state.generator_pack_keys)
+            self._generator_offsets = list(state.generator_offsets)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
-- 
2.43.0


From d438006b260729ad7d2f2f7a578af47bf878459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 16/79] fix: restore keys after an iterator map failure do not
 contain the failed sample

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..7f1cf44 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -139,6 +139,8 @@ class IterMapDataset(
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                # The failed samples do not contribute to the next yielded sample
+                sample_restore_keys.clear()
                 self.error_handler(e, last_sample_wrapper.last_sample)
             else:
                 break
-- 
2.43.0


From 783fe6808b0023fec65173e6287b7b0dfa0103a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 17/79] fix: an iterator map does not swallow errors of the
 inner dataset

---
 .../energon/wrappers/iter_map_dataset.py      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 7f1cf44..e1e3207 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -111,14 +111,20 @@ class IterMapDataset(
         iter_idx = 0
         sample_idx = 0
         sample_restore_keys = []
+        # The exception raised by the inner dataset (not by the iter_map_fn), if any
+        inner_error: Optional[Exception] = None
 
         def reset_idx_iter() -> Generator[T_sample, None, None]:
             # Resets the inner sample index
-            nonlocal iter_idx, sample_restore_keys
-            for entry in last_sample_wrapper:
-                iter_idx = 0
-                sample_restore_keys.append(get_sample_restore_key(entry))
-                yield entry
+            nonlocal iter_idx, sample_restore_keys, inner_error
+            try:
+                for entry in last_sample_wrapper:
+                    iter_idx = 0
+                    sample_restore_keys.append(get_sample_restore_key(entry))
+                    yield entry
+            except Exception as e:
+                inner_error = e
+                raise
 
         ds_iter = iter(reset_idx_iter())
 
@@ -139,6 +145,9 @@ class IterMapDataset(
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                if e is inner_error:
+                    # The inner dataset ended with this error, it cannot be continued.
+                    raise
                 # The failed samples do not contribute to the next yielded sample
                 sample_restore_keys.clear()
                 self.error_handler(e, last_sample_wrapper.last_sample)
-- 
2.43.0


From b03470141f3175c2da87965e79861068753b8a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 18/79] fix: excluded samples are counted in the sample offsets
 of a shard

---
 .../flavors/webdataset/single_shard_reader.py  | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..7e94f75 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -42,6 +42,8 @@ class SingleShardReader:
     _cur_base_name: Optional[str] = None
     _cur_ext: Optional[str] = None
     _cur_key: Optional[str] = None
+    # Number of excluded samples skipped since the last call to `_pop_excluded_count`
+    _excluded_count: int = 0
 
     def __init__(
         self,
@@ -117,6 +119,7 @@ class SingleShardReader:
 
     def _next_tarinfo(self) -> None:
         """Internally loads the nest tar entry metadata. Or raises StopIteration."""
+        excluded_key: Optional[str] = None
         while True:
             try:
                 self._cur_tarinfo = next(self._stream)
@@ -139,15 +142,26 @@ class SingleShardReader:
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
             if self._cur_key in self.exclude:
+                if self._cur_key != excluded_key:
+                    # Excluded samples are not yielded, but the sample offset must account for them
+                    excluded_key = self._cur_key
+                    self._excluded_count += 1
                 continue
             return
 
+    def _pop_excluded_count(self) -> int:
+        """Returns the number of excluded samples that were skipped since the last call."""
+        count = self._excluded_count
+        self._excluded_count = 0
+        return count
+
     def read_next(
         self, for_group_name: Optional[str] = None, must_match: bool = False
     ) -> Tuple[str, FilteredSample]:
         """Gets the next sample, or raises StopIteration if exhausted."""
         if self._cur_tarinfo is None:
             self._next_tarinfo()
+            self.shard_state.offset += self._pop_excluded_count()
         assert self._cur_tarinfo is not None
         assert self._cur_key is not None
 
@@ -179,7 +193,7 @@ class SingleShardReader:
                         next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
                     )
                     assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-                    self.shard_state.offset += 1
+                    self.shard_state.offset += 1 + self._pop_excluded_count()
 
                     if self.worker_config.should_log(level=3):
                         self.worker_config.worker_log(
@@ -225,7 +239,7 @@ class SingleShardReader:
             next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
         )
         assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-        self.shard_state.offset += 1
+        self.shard_state.offset += 1 + self._pop_excluded_count()
 
         if self.worker_config.should_log(level=3):
             self.worker_config.worker_log(
-- 
2.43.0


From e23fd5b605e4120219a14a99ea28a35a8ebf3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 19/79] fix: workers of a resumed loader continue in the right
 order for more than two workers

---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From fd8b21644afc57e38b1bf842aa4b6d8f92262208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 20/79] fix: a loader without workers saves and restores its
 sample index

---
 src/megatron/energon/savable_loader.py | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..061bf30 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,32 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[SimpleSavableDatasetMergedState]):
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            assert isinstance(state, SimpleSavableDatasetMergedState)
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From 1855e299c68d524808081460165c9d3ee665b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 21/79] fix: a resumed worker that was in its initial state
 gets its own random seed

---
 src/megatron/energon/savable_loader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 061bf30..ad21ef7 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -504,7 +504,9 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         """Restores the internal worker state"""
         assert torch.utils.data.get_worker_info() is not None, "Can only restore in worker process"
         if state.torch_rng[self._worker_id] is None:
-            torch.manual_seed(torch.initial_seed())
+            # Initial state of this worker. Not the initial seed of the process, because the worker
+            # ids may be shifted.
+            torch.manual_seed(self.worker_config.worker_seed())
         else:
             torch.set_rng_state(
                 torch.frombuffer(
@@ -512,12 +514,12 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 ).clone()
             )
         if state.numpy_rng[self._worker_id] is None:
-            np.random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            np.random.seed(self.worker_config.worker_seed())
         else:
             np_tp, np_state, *np_rng = state.numpy_rng[self._worker_id]
             np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), *np_rng))
         if state.rng[self._worker_id] is None:
-            random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            random.seed(self.worker_config.worker_seed())
         else:
             random.setstate(state.rng[self._worker_id])
         self._sample_index = state.sample_index[self._worker_id]
-- 
2.43.0


From efbfcb46f1373393211c685bef5f124cf55eadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 22/79] fix: saving a loader before all workers have delivered
 a batch does not skip or lose samples

---
 src/megatron/energon/savable_loader.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ad21ef7..866714f 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -694,7 +694,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     #: Instance of the current data iterator. There shall be only one active iterator, such that the
     # dataset is not iterated multiple times in parallel. The state will proceed.
     _persistent_iterator: Optional[Iterator[T]] = None
-    #: The index of the current worker
+    #: The state as restored, as long as the workers were not started yet
+    _restored_state: Optional["SavableDataLoaderState"] = None
+    #: The index of the last sample received from each worker
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
@@ -751,7 +753,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        # No sample received yet
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
@@ -912,8 +915,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial or restored state
+            return self._restored_state
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -937,6 +940,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             state: The state to restore, as saved by `save_state_rank`.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
+        self._restored_state = state
         if state is None:
             # Assume initial state
             return
@@ -947,6 +951,13 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
             self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            self._next_worker_id = state.next_worker_id
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 4d7fa5c55e15bdd439cb3a88566b4d64816849f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 23/79] fix: the checkpoints of a loader worker always cover
 the prefetched samples

---
 src/megatron/energon/savable_loader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 866714f..2986a93 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -471,7 +471,13 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     sample_index=self._sample_index,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # Up to `prefetch_factor * num_workers` samples may not have been retrieved yet. Keep a
+            # checkpoint before those, also if checkpoints were stored in short succession.
+            max_prefetched = 2 * max(self.worker_config.num_workers, 1)
+            while (
+                len(self._last_checkpoints) > self.n_checkpoints
+                and self._last_checkpoints[1].sample_index < self._sample_index - max_prefetched
+            ):
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
-- 
2.43.0


From f1f7d2c9f4ec04b117909335e8320033fa850b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 24/79] fix: a loader resumed in the last round of an epoch
 ends the epoch like the saved one

---
 src/megatron/energon/savable_loader.py | 45 +++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 2986a93..b52d6dd 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -223,6 +223,10 @@ class SavableCheckpoint:
     checkpoint_time: float
     #: Index of the next sample to be returned from the dataset after restoring the checkpoint
     sample_index: int
+    #: True, if the checkpoint was taken while iterating, i.e. after yielding a sample
+    in_epoch: bool = False
+    #: If the checkpoint was taken at the end of an epoch, the index of that epoch
+    end_of_epoch: Optional[int] = None
 
 
 @dataclass
@@ -273,6 +277,8 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     _result_queues: List[torch.multiprocessing.Queue]
 
     _sample_index: int = 0
+    #: Index of the current epoch, i.e. how often the dataset was iterated to its end
+    _epoch: int = 0
     _worker_offset: int = 0
     _last_checkpoints: List[SavableCheckpoint]
     _restore_from: Optional[Any] = None
@@ -390,10 +396,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 if self._restore_from:
                     self._restore_state(self._restore_from)
                     self._restore_from = None
-                # If skipping, also restart the iterator to reach the start of the restored
-                # checkpoint
-                last_was_skip = True
-                while last_was_skip:
+                while True:
                     dataset_has_samples = False
                     self.worker_config.worker_activate(self._sample_index)
                     worker_active = True
@@ -407,11 +410,9 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                                 # print(f"Skip [{self._worker_id}:{self._sample_index}] {src_data}")
                                 self._skip_samples[self._worker_id] -= 1
                                 self._sample_index += 1
-                                last_was_skip = True
                                 self.worker_config.worker_activate(self._sample_index)
                                 worker_active = True
                                 continue
-                            last_was_skip = False
                             sample_index = self._sample_index
                             add_sample_restore_key(
                                 src_data, global_worker_id, sample_index, src=self
@@ -435,13 +436,15 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                         if worker_active:
                             self.worker_config.worker_deactivate()
 
-                    # If the dataset is empty, don't try again and again
-                    if not dataset_has_samples:
+                    # If still skipping, restart the iterator to reach the start of the restored
+                    # checkpoint. If the dataset is empty, don't try again and again
+                    if self._skip_samples[self._worker_id] == 0 or not dataset_has_samples:
                         break
         finally:
             # print(f"{id(self)}:{multiprocessing.current_process().ident} Worker iter closing")
             # Always store a final checkpoint (it's likely to be saved)
             self._store_checkpoint(force=True)
+            self._epoch += 1
 
     def _store_checkpoint(self, force: bool = False) -> None:
         """
@@ -450,7 +453,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         intermediate queues.
 
         Args:
-            force: If true, ignore time or frequency condition.
+            force: If true, this is the end of the epoch. Ignore time or frequency condition.
         """
         if (
             force
@@ -469,6 +472,8 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     dataset_state=self.dataset.save_state(),
                     checkpoint_time=time.perf_counter(),
                     sample_index=self._sample_index,
+                    in_epoch=not force,
+                    end_of_epoch=self._epoch if force else None,
                 )
             )
             # Up to `prefetch_factor * num_workers` samples may not have been retrieved yet. Keep a
@@ -538,18 +543,29 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             )
         ]
 
-    def get_checkpoint(self, last_sample_indexes: List[int]) -> SavableDatasetCheckpoint:
+    def get_checkpoint(
+        self, last_sample_indexes: List[int], epoch: Optional[int] = None
+    ) -> SavableDatasetCheckpoint:
         """
         Get a checkpoint given the last emitted sample indexes for all workers.
 
         Args:
             last_sample_indexes: The last emitted sample indexes for all workers.
+            epoch: The index of the epoch the main process is iterating. None, if it has reached
+                the end of the epoch.
 
         Returns:
             The found checkpoint including the offset to the next sample index
         """
         sample_index = last_sample_indexes[self._worker_id] + 1
         for checkpoint in reversed(self._last_checkpoints):
+            if epoch is not None and (
+                checkpoint.end_of_epoch == epoch
+                or (checkpoint.in_epoch and checkpoint.sample_index == sample_index)
+            ):
+                # This worker may already be at the end of the epoch, but the epoch is not over for
+                # the other workers. Restore an earlier state, to end the epoch again.
+                continue
             if checkpoint.sample_index <= sample_index:
                 # print(f"Found cp for {sample_index} at {checkpoint.sample_index}")
                 return SavableDatasetCheckpoint(
@@ -706,6 +722,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
+    #: Index of the current epoch of the running worker processes
+    _epoch: int = -1
     #: Global index of the last yielded sample
     _global_sample_idx: int = 0
     #: Current iterator index of the last yielded sample
@@ -886,6 +904,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             if self._persistent_iterator is None or self._persistent_iterator.finished:
                 self._persistent_iterator = InnerIterator(super().__iter__())
                 self._sample_idx = 0
+                self._epoch += 1
                 # print("New Iterator", self._persistent_iterator)
             return self._persistent_iterator
         else:
@@ -925,7 +944,11 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             return self._restored_state
         else:
             # Fetch from worker processes
-            worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
+            worker_states = self._worker_command(
+                "get_checkpoint",
+                self._worker_sample_counters,
+                None if self._persistent_iterator.finished else self._epoch,
+            )
             merged_states = self.dataset.merge_checkpoints(worker_states)
 
         # Merge the states
-- 
2.43.0


From f62396cf1b3ac5d4fd7b1a42b1f1c7cafb96d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 25/79] fix: epochs after resuming in the middle of an epoch
 start with worker 0

---
 src/megatron/energon/savable_loader.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index b52d6dd..8cdd51c 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -614,6 +614,11 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             self.dataset.restore_state(state.dataset_state)
             self._skip_samples = state.offset
 
+    @property
+    def worker_offset(self) -> int:
+        """By how much the worker ids are shifted."""
+        return self._worker_offset
+
     def can_restore_sample(self) -> bool:
         return self.dataset.can_restore_sample()
 
@@ -902,6 +907,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         if self.num_workers > 0:
             # Always keep same iterator alive, as long as it yields data
             if self._persistent_iterator is None or self._persistent_iterator.finished:
+                if self._persistent_iterator is not None and self.dataset.worker_offset != 0:
+                    # The worker ids are shifted since resuming, but each epoch starts with worker 0
+                    self._restart_workers()
                 self._persistent_iterator = InnerIterator(super().__iter__())
                 self._sample_idx = 0
                 self._epoch += 1
@@ -910,6 +918,22 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             return InnerIterator(super().__iter__())
 
+    def _restart_workers(self) -> None:
+        """Restarts the worker processes at the end of an epoch, without shifting the worker ids."""
+        state = self.save_state_rank()
+        assert state.next_worker_id == 0
+        # Do not keep the workers alive by the exhausted iterator
+        self._persistent_iterator._iterator = iter(())
+        self._persistent_iterator = None
+        iterator, self._iterator = self._iterator, None
+        iterator._shutdown_workers()
+        # A stopped worker may have left its queues locked. Replace them (in place, as the dataset
+        # shares the lists).
+        for queues in (self.cmd_queues, self.result_queues):
+            queues[:] = [multiprocessing.Queue() for _ in range(self.num_workers)]
+        self._epoch = -1
+        self.restore_state_rank(state)
+
     def _worker_command(self, *cmd_args) -> List[Any]:
         """Executes a command in all workers and returns the results."""
         # print(f"cmd: {cmd_args}")
-- 
2.43.0


From 0981628cb3e35e73c703536143568c3e4605f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 26/79] fix: a loader worker does not answer commands before it
 has restored its state

---
 src/megatron/energon/savable_loader.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 8cdd51c..5eddd3e 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -379,23 +379,25 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         WorkerConfig.worker_id_offset = self._worker_offset
         self._worker_id = self.worker_config.rank_worker_id()
         global_worker_id = self.worker_config.global_worker_id()
-        if self._cmd_thread is None:
-            self._running = True
+        if self._command_lock is None:
             self._command_lock = threading.RLock()
-            weakref_self = weakref.proxy(self)
-            self._cmd_thread = threading.Thread(
-                target=SavableDatasetWrapper._command_thread,
-                name="command_thread",
-                args=(weakref_self,),
-                daemon=True,
-            )
-            self._cmd_thread.start()
-            # atexit.register(lambda: weakref_self.__del__())
         try:
             with self._command_lock:
                 if self._restore_from:
                     self._restore_state(self._restore_from)
                     self._restore_from = None
+                if self._cmd_thread is None:
+                    # Only after restoring, such that no command sees the state before
+                    self._running = True
+                    weakref_self = weakref.proxy(self)
+                    self._cmd_thread = threading.Thread(
+                        target=SavableDatasetWrapper._command_thread,
+                        name="command_thread",
+                        args=(weakref_self,),
+                        daemon=True,
+                    )
+                    self._cmd_thread.start()
+                    # atexit.register(lambda: weakref_self.__del__())
                 while True:
                     dataset_has_samples = False
                     self.worker_config.worker_activate(self._sample_index)
-- 
2.43.0


From a77088fbdf642f1baa3a526ae6f9fc646a9d98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 27/79] fix: restoring a loader state held by one rank only
 scatters it to the other ranks

---
 src/megatron/energon/savable_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 5eddd3e..dbaba60 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1074,7 +1074,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         if (
             torch.distributed.is_available()
             and torch.distributed.is_initialized()
-            and isinstance(state, list)
+            and (isinstance(state, list) or src_rank is not None)
         ):
             if src_rank is None:
                 # All ranks have the state
-- 
2.43.0


From 0b50d1b20177cfb9db9bc7b26b0a95406765bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 28/79] fix: the retrying stream returns all bytes after short
 reads and errors

---
 src/megatron/energon/retry_stream.py | 42 +++++++++++++++++-----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..0b61df4 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -35,30 +35,39 @@ class RetryReadStream(BinaryIO):
             self._file.close()
 
     def read(self, n: int = -1) -> bytes:
+        start = self._pos
+        end = self._size if n is None or n < 0 else min(start + n, self._size)
         buf = b""
-        for retry in range(10):
+        # Number of consecutive attempts that failed to read anything
+        failures = 0
+        while self._pos < end:
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
+                res = self._file.read(end - self._pos)
+                if not res:
+                    raise IOError(f"Unexpected end of file at {self._pos} in {self._path}")
                 self._pos += len(res)
                 buf += res
-                if (
-                    (n == -1 and self._pos >= self._size)
-                    or len(buf) == n
-                    or self._pos >= self._size
-                ):
-                    return res
+                failures = 0
             except IOError:
-                try:
-                    self._file.close()
-                except IOError:
-                    pass
-                self._file = None
-                if retry == 9:
+                self._drop_file()
+                failures += 1
+                if failures == 10:
+                    # The bytes read so far are not returned, thus read them again the next time.
+                    self._pos = start
                     raise
-                continue
+        return buf
+
+    def _drop_file(self) -> None:
+        """Closes the file, such that it will be opened again at the current position."""
+        file, self._file = self._file, None
+        if file is not None:
+            try:
+                file.close()
+            except IOError:
+                pass
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
@@ -75,7 +84,8 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # The position of the file is unknown now
+            self._drop_file()
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From cdcb684e7199d7532fc3a9b70c500e06ae9445a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 29/79] fix: comparing a path to another type does not raise

---
 src/megatron/energon/epathlib/epath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 873c928..cf0bc88 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -364,4 +364,6 @@ class EPath:
         return hash((self.internal_path, self.protocol))
 
     def __eq__(self, other):
+        if not isinstance(other, EPath):
+            return NotImplemented
         return self.internal_path == other.internal_path and self.protocol == other.protocol
-- 
2.43.0


From c1035d5509c544831dcc18dc040136260976ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 30/79] fix: remote paths do not escape above their remote

---
 src/megatron/energon/epathlib/epath.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index cf0bc88..23c8b53 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -64,30 +64,34 @@ class EPath:
                     # The first part of the path will be the rclone remote name
                     path = "/" + path
 
-                self.internal_path = self._resolve(path)
+                self.num_fs_path_parts = 2  # Root and remote name
+                self.internal_path = self._resolve(path, self.num_fs_path_parts)
 
                 remote_name = self.internal_path.parts[1]
                 self.fs, self.s3_args = self.create_s3fs_from_rclone_remote(
                     remote_name, config_override=config_override
                 )
                 self.protocol = "rclone"
-                self.num_fs_path_parts = 2  # Root and remote name
             else:
                 raise ValueError(f"Unknown protocol: {protocol}")
 
     @staticmethod
-    def _resolve(path: Union[str, PurePosixPath]) -> PurePosixPath:
-        """Resolve a path, removing .. and . components."""
+    def _resolve(
+        path: Union[str, PurePosixPath], num_fs_path_parts: int = 0
+    ) -> PurePosixPath:
+        """Resolve a path, removing .. and . components. The parts which specify the file system
+        (root and remote name) are never removed."""
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
         if parts[0] != "/":
             raise ValueError("Only absolute paths are supported")
         if ".." in parts or "." in parts:
+            num_root_parts = max(num_fs_path_parts - 1, 0)
             new_parts = []
             for part in parts[1:]:
                 if part == "..":
-                    if len(new_parts) == 0:
+                    if len(new_parts) <= num_root_parts:
                         raise ValueError(f"Path above root: {path}")
                     new_parts.pop()
                 elif path == ".":
@@ -197,7 +201,8 @@ class EPath:
     @property
     def parent(self):
         new_path = EPath(self)
-        new_path.internal_path = self.internal_path.parent
+        if self.num_fs_path_parts == 0 or len(self.internal_path.parts) > self.num_fs_path_parts:
+            new_path.internal_path = self.internal_path.parent
         return new_path
 
     @property
@@ -325,7 +330,8 @@ class EPath:
 
         new_path = EPath(self)
         new_path.internal_path = self._resolve(
-            self.internal_path / (other if isinstance(other, str) else other.internal_path)
+            self.internal_path / (other if isinstance(other, str) else other.internal_path),
+            self.num_fs_path_parts,
         )
         return new_path
 
@@ -338,7 +344,9 @@ class EPath:
             return self
 
         new_path = EPath(self)
-        new_path.internal_path = self._resolve(other.internal_path / self.internal_path)
+        new_path.internal_path = self._resolve(
+            other.internal_path / self.internal_path, other.num_fs_path_parts
+        )
         return new_path
 
     def __lt__(self, other: "EPath"):
-- 
2.43.0


From d0b96112aadc8657d94d88e987d4bdbd23892e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 31/79] fix: sets and paths of typed objects are converted back
 to json

---
 src/megatron/energon/typed_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..64f2224 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -1123,9 +1123,11 @@ def to_json_object(obj: Any) -> Any:
             for field in dataclasses.fields(obj)
             if field.init
         }
-    elif isinstance(obj, (list, tuple)):
+    elif isinstance(obj, (list, tuple, set)):
         return [to_json_object(val) for val in obj]
     elif isinstance(obj, dict):
         return {key: to_json_object(val) for key, val in obj.items()}
+    elif isinstance(obj, EPath):
+        return str(obj)
     else:
         raise RuntimeError(f"Unknown type {type(obj)}")
-- 
2.43.0


From 039127d68a5da0d1ab72d458a8256c9433efed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 32/79] fix: positional arguments from a config list are passed
 in order

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 64f2224..3e8dcba 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -600,7 +600,7 @@ def safe_call_function(
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-                    arg_val = unused_args.pop()
+                    arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From 48c42e30bbafc148fcd181168cf0765227cfb37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 33/79] fix: fixed size tuples are converted to tuples

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 3e8dcba..5da49ff 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -454,12 +454,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From 781f06e11502826636b632ea6ac3bd4933f19c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 34/79] fix: fields of typed objects which are not given use
 their default as it is

---
 src/megatron/energon/typed_converter.py | 39 +++++++++++++------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 5da49ff..2cb3db1 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -298,9 +298,10 @@ def raw_to_typed(  # noqa: C901
         if getattr(inst_type, "__dash_keys__", "False"):
             raw_data = {key.replace("-", "_"): val for key, val in raw_data.items()}
         defaults = getattr(inst_type, "_field_defaults", {})
+        # Fields which are not given use their default as it is
         kwargs = {
             field_name: raw_to_typed(
-                raw_data.get(field_name, defaults.get(field_name, _missing_value)),
+                raw_data.get(field_name, _missing_value),
                 field_type,
                 strict,
                 allow_imports,
@@ -308,6 +309,7 @@ def raw_to_typed(  # noqa: C901
                 _stage + (idx,),
             )
             for idx, (field_name, field_type) in enumerate(inst_type.__annotations__.items())
+            if field_name in raw_data or field_name not in defaults
         }
         if strict and not set(raw_data).issubset(inst_type.__annotations__):
             raise JsonValueError(
@@ -337,20 +339,10 @@ def raw_to_typed(  # noqa: C901
                 _path,
                 _stage,
             )
+        # Fields which are not given use their default as it is
         kwargs = {
             field.name: raw_to_typed(
-                raw_data.get(
-                    field.name,
-                    (
-                        (
-                            _missing_value
-                            if field.default_factory is dataclasses.MISSING
-                            else field.default_factory()
-                        )
-                        if field.default is dataclasses.MISSING
-                        else field.default
-                    ),
-                ),
+                raw_data.get(field.name, _missing_value),
                 field.type,
                 strict,
                 allow_imports,
@@ -359,6 +351,13 @@ def raw_to_typed(  # noqa: C901
             )
             for idx, field in enumerate(dataclasses.fields(inst_type))
             if field.init
+            and (
+                field.name in raw_data
+                or (
+                    field.default is dataclasses.MISSING
+                    and field.default_factory is dataclasses.MISSING
+                )
+            )
         }
         if strict and not set(raw_data).issubset(
             field.name for field in dataclasses.fields(inst_type) if field.init
@@ -556,8 +555,11 @@ def safe_call_function(
             ):
                 if param.default is inspect.Parameter.empty and key not in unused_args:
                     raise ValueError(f"Missing required argument {key!r} for {fn}")
+                if key not in unused_args:
+                    # Use the default as it is
+                    continue
                 kwargs[key] = raw_to_typed(
-                    unused_args.pop(key, param.default),
+                    unused_args.pop(key),
                     t,
                     strict,
                     allow_imports,
@@ -598,11 +600,12 @@ def safe_call_function(
                 if param.default is inspect.Parameter.empty and len(unused_args) == 0:
                     raise ValueError(f"Missing required positional argument {key!r} at index {idx}")
                 if len(unused_args) == 0:
-                    arg_val = param.default
-                else:
-                    arg_val = unused_args.pop(0)
+                    # Use the default as it is
+                    continue
                 args.append(
-                    raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
+                    raw_to_typed(
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
+                    )
                 )
             elif param.kind == inspect.Parameter.VAR_POSITIONAL:
                 for arg_val in unused_args:
-- 
2.43.0


From 7a10d15759161691b2a5483e587c30894c8343f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 35/79] fix: dashes in config keys are only replaced for types
 requesting it

---
 src/megatron/energon/typed_converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 2cb3db1..3ff10e1 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -295,7 +295,7 @@ def raw_to_typed(  # noqa: C901
                 _path,
                 _stage,
             )
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             raw_data = {key.replace("-", "_"): val for key, val in raw_data.items()}
         defaults = getattr(inst_type, "_field_defaults", {})
         # Fields which are not given use their default as it is
@@ -850,7 +850,7 @@ def override(  # noqa: C901
                 _stage,
             )
         local_overrides = _split_dict_keys(overrides)
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             local_overrides = {key.replace("-", "_"): val for key, val in local_overrides.items()}
         kwargs = {
             field_name: (
@@ -907,7 +907,7 @@ def override(  # noqa: C901
                 _stage,
             )
         local_overrides = _split_dict_keys(overrides)
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             local_overrides = {key.replace("-", "_"): val for key, val in local_overrides.items()}
         kwargs = {
             field.name: (
@@ -1060,7 +1060,7 @@ def override(  # noqa: C901
                 _stage,
             )
         local_overrides = _split_dict_keys(overrides)
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             local_overrides = {key.replace("-", "_"): val for key, val in local_overrides.items()}
         res = {
             key: (
-- 
2.43.0


From 3f0e8684795d2b7f83a3a74c372624ff66bf5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 36/79] fix: seeds of stateless functions are not taken from
 another worker

---
 src/megatron/energon/task_encoder/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..dc0b0e6 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,11 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # Not cached: samples of other workers may be restored in the same process
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +183,8 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # Not cached: samples of other workers may be restored in the same process
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From 5722258f332b96665e3d04a92205d0a8115598c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 37/79] fix: samples failing to load are reported with their
 key

---
 src/megatron/energon/flavors/webdataset/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/error_handler.py b/src/megatron/energon/flavors/webdataset/error_handler.py
index 857a282..2763f03 100644
--- a/src/megatron/energon/flavors/webdataset/error_handler.py
+++ b/src/megatron/energon/flavors/webdataset/error_handler.py
@@ -32,7 +32,7 @@ class ErrorHandler(Generic[T_sample]):
     ):
         if isinstance(sample, dict):
             key = sample.get("__key__")
-        elif isinstance(sample, list):
+        elif isinstance(sample, (list, tuple)):
             if isinstance(sample[0], dict):
                 key = ",".join("None" if s is None else s.get("__key__") for s in sample)
             elif isinstance(sample[0], Sample):
-- 
2.43.0


From 4352bc244ad919d3602505954273d44f32adf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 38/79] fix: samples of a joined dataset can be restored

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..35c95a9 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -556,6 +556,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
     ) -> Tuple[Optional[FilteredSample], ...]:
         # Key is: ("Webdataset", shard_name, shard_offset, shard_name2, shard_offset2, ...)
         # The key is joined in the dataset's typed joining (i.e. load_sample of MergedWebdataset).
+        if key[0] != "Webdataset":
+            # The joining has prepended its own type
+            key = key[1:]
         id, *shard_data = key
         assert id == "Webdataset"
         assert isinstance(shard_data[0], str)
-- 
2.43.0


From c179e585d8f98f41edc6a233a94f5dfed40c7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 39/79] fix: samples are not joined with a sample of another
 key if the mismatch is ignored by the handler

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 35c95a9..62e1aa5 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,6 +241,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    failed = False
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -262,7 +263,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            failed = True
+                    if not failed:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From b014806653d376622328756538f6e2c172e8e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 40/79] fix: an infinite shuffle over epochs stays infinite if
 multiplied along nested metadatasets

---
 src/megatron/energon/metadataset/loader_interface.py |  7 +++++++
 src/megatron/energon/metadataset/metadataset.py      | 10 +++++++---
 src/megatron/energon/metadataset/metadataset_v2.py   | 10 +++++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/metadataset/loader_interface.py b/src/megatron/energon/metadataset/loader_interface.py
index 79984a7..72f7886 100644
--- a/src/megatron/energon/metadataset/loader_interface.py
+++ b/src/megatron/energon/metadataset/loader_interface.py
@@ -8,6 +8,13 @@ from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.worker import WorkerConfig
 
 
+def multiply_shuffle_over_epochs(outer: int, inner: int) -> int:
+    """Multiplies two `shuffle_over_epochs` values, where -1 means infinite."""
+    if outer == -1 or inner == -1:
+        return -1
+    return outer * inner
+
+
 class DatasetLoaderInterface(ABC):
     """General interface for a dataset loader."""
 
diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..0120b34 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -9,7 +9,10 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..88303e6 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -10,7 +10,10 @@ from megatron.energon.flavors import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
 from megatron.energon.metadataset.join_dataset_loader import JoinDatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From 2627fae683e30a5058f22669d7cb6d1ce836a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 41/79] fix: the shuffle over epochs multiplier of a join is
 used

---
 src/megatron/energon/metadataset/metadataset_v2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 88303e6..75bca70 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -165,7 +165,9 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From 9cac8b74878e855291b83c32d0a3aa2b275e8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 42/79] fix: joined datasets use their own split config unless
 the join sets it

---
 src/megatron/energon/metadataset/metadataset_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 75bca70..30e481a 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -120,7 +120,7 @@ class MetadatasetJoin(DatasetLoaderInterface):
     subflavors: Optional[Dict[str, Any]] = None
     shuffle_over_epochs_multiplier: int = 1
     dataset_config: str = "dataset.yaml"
-    split_config: str = "split.yaml"
+    split_config: Optional[str] = None
 
     _dataset: Optional[DatasetLoaderInterface] = None
 
-- 
2.43.0


From 686e04ec0c678be6cacf1507a3da344a3c745ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 43/79] fix: preparing a crude dataset writes a dataset config
 that can be loaded

---
 src/megatron/energon/tools/prepare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/tools/prepare.py b/src/megatron/energon/tools/prepare.py
index 7c2a38d..b05faf7 100644
--- a/src/megatron/energon/tools/prepare.py
+++ b/src/megatron/energon/tools/prepare.py
@@ -289,6 +289,10 @@ def command(
         }
 
         if cls == CrudeSampleDummy:
+            dataset_definition = {
+                "__module__": "megatron.energon",
+                "__class__": "CrudeWebdataset",
+            }
             click.echo(
                 "CrudeWebdataset does not need a field map. You will need to provide a `Cooker` for your dataset samples in your `TaskEncoder`."
             )
-- 
2.43.0


From acfdd6bd7bb09e42ed1cccedd7893bb51c7ce6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 44/79] fix: splitting shards by ratio does not drop a shard
 due to rounding errors

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..342c1bd 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -235,7 +235,8 @@ class WebdatasetPreparator:
             split_offset = 0
             for split_part, split_ratio in split_parts_ratio:
                 split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+                # Round, such that the accumulated ratio (e.g. 0.999...) does not drop a shard
+                split_end = int(round(len(shards) * split_total, 6))
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From 0178ababd880174e941b4e7b9d0d9c87946e9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 45/79] fix: a merged center crop pads like the original
 transform

---
 src/megatron/energon/transforms/mappers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 230218b..699fe47 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -392,6 +392,14 @@ class CenterCropMapper(TransformMapper[T.CenterCrop]):
     def __init__(self, transform: T.CenterCrop):
         super().__init__(transform)
 
+    @staticmethod
+    def _shift(target_size: int, size: int) -> int:
+        """Offset of the image in the output. Rounds in the same way as torchvision does."""
+        if target_size > size:
+            # Padding
+            return int((target_size - size) // 2)
+        return -int(round(float(size - target_size) / 2))
+
     def apply_transform(
         self, matrix: np.ndarray, dst_size: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray, Any]:
@@ -402,8 +410,8 @@ class CenterCropMapper(TransformMapper[T.CenterCrop]):
         else:
             th, tw = self.transform.size
 
-        shift_y = round(float(th - dst_size[0]) / 2)
-        shift_x = round(float(tw - dst_size[1]) / 2)
+        shift_y = self._shift(th, dst_size[0])
+        shift_x = self._shift(tw, dst_size[1])
 
         matrix = self.translate(shift_x, shift_y) @ matrix
         dst_size = np.array((th, tw), dtype=dst_size.dtype)
-- 
2.43.0


From 51ac3fdf48d3f8a45a7c50665eccaa4d9a064520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 46/79] fix: a merged random crop applies its padding

---
 src/megatron/energon/transforms/mappers.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 699fe47..57bd99b 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -283,11 +283,29 @@ class RandomCropMapper(TransformMapper[T.RandomCrop]):
     def __init__(self, transform: T.RandomCrop):
         super().__init__(transform)
 
+    @staticmethod
+    def _padding_ltrb(padding: Union[int, Tuple[int, ...], List[int]]) -> Tuple[int, int, int, int]:
+        """Get the padding for left, top, right and bottom."""
+        if isinstance(padding, numbers.Number):
+            return (padding,) * 4
+        if len(padding) == 1:
+            return (padding[0],) * 4
+        if len(padding) == 2:
+            return padding[0], padding[1], padding[0], padding[1]
+        return padding[0], padding[1], padding[2], padding[3]
+
     def apply_transform(
         self, matrix: np.ndarray, dst_size: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray, Any]:
         th, tw = self.transform.size  # Target height and width
 
+        if self.transform.padding is not None:
+            left, top, right, bottom = self._padding_ltrb(self.transform.padding)
+            matrix = self.translate(left, top) @ matrix
+            dst_size = np.array(
+                (dst_size[0] + top + bottom, dst_size[1] + left + right), dtype=dst_size.dtype
+            )
+
         # pad the width if needed
         if self.transform.pad_if_needed and dst_size[1] < tw:
             padding = tw - dst_size[1]  # Pad this much on both left and right
-- 
2.43.0


From 5013a6a55a6c2be564744167b1ff45da0967fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 47/79] fix: a merged rotation by multiples of 90 degrees does
 not extend the image

---
 src/megatron/energon/transforms/mappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 57bd99b..236b3d2 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -258,6 +258,12 @@ class RandomRotationMapper(TransformMapper[T.RandomRotation]):
             rounded_w = np.ceil(orig_size[1] / 2 + w / 2) - np.floor(orig_size[1] / 2 - w / 2)
             rounded_h = np.ceil(orig_size[0] / 2 + h / 2) - np.floor(orig_size[0] / 2 - h / 2)
 
+            # Right angles only transpose the image
+            if degrees % 180 == 0:
+                rounded_h, rounded_w = orig_size
+            elif degrees % 180 == 90:
+                rounded_w, rounded_h = orig_size
+
             # New size is h, w
             dst_size = np.array([int(rounded_h), int(rounded_w)], dtype=dst_size.dtype)
         matrix = (
-- 
2.43.0


From be7824f8df7ade53bd8f3d8e0a6c89751e76adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 48/79] fix: a merged perspective transform of tensors samples
 the pixel centers

---
 src/megatron/energon/transforms/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/merge.py b/src/megatron/energon/transforms/merge.py
index 749b79d..c53bbb9 100644
--- a/src/megatron/energon/transforms/merge.py
+++ b/src/megatron/energon/transforms/merge.py
@@ -137,8 +137,9 @@ class MergeTransform(torch.nn.Module):
                     torch.Size((1, 3, *dst_size)),
                 )
             else:
-                xs = torch.linspace(-1, 1, dst_size[1], dtype=torch.float32)
-                ys = torch.linspace(-1, 1, dst_size[0], dtype=torch.float32)
+                # Pixel centers (as for align_corners=False)
+                xs = (torch.arange(int(dst_size[1]), dtype=torch.float32) * 2 + 1) / dst_size[1] - 1
+                ys = (torch.arange(int(dst_size[0]), dtype=torch.float32) * 2 + 1) / dst_size[0] - 1
                 zs = torch.ones((1,), dtype=torch.float32)
                 # shape: (2<x,y,1>, W, H)
                 grid = torch.stack(torch.meshgrid([xs, ys, zs], indexing="ij"))[..., 0]
-- 
2.43.0


From 073d8ad6fc9a1956d1108c7e06ccad71cfe9bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 49/79] fix: batches of grouped samples are encoded, and can be
 restored

---
 src/megatron/energon/task_encoder/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index dc0b0e6..f43a97e 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -398,9 +398,18 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0


From 04d50beb2785a6308b63539e23de481bc06acefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 50/79] fix: restoring the state of a sample loader copies its
 counters

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 62e1aa5..fcd1e5a 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -755,9 +755,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                     state.active_shards, self.shards_by_key
                 )
             ]
-            self._sample_count = state.sample_count
-            self._epoch_count = state.epoch_count
-            self._epoch_sample_count = state.epoch_sample_count
+            self._sample_count = list(state.sample_count)
+            self._epoch_count = list(state.epoch_count)
+            self._epoch_sample_count = list(state.epoch_sample_count)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From ce35ba13189a956ede43999c24b25185370eb9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 51/79] fix: the config of a cooker with a condition can be
 logged

---
 src/megatron/energon/task_encoder/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index f43a97e..d2da95e 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -463,7 +463,11 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                             cook=SavableDataset._function_config(cooker.cook),
                             is_subflavor=cooker.is_subflavor,
                             has_subflavors=cooker.has_subflavors,
-                            condition=cooker.condition,
+                            condition=(
+                                None
+                                if cooker.condition is None
+                                else SavableDataset._function_config(cooker.condition)
+                            ),
                         )
                         for cooker in self.cookers
                     ]
-- 
2.43.0


From 82ffa3ddd441168bfacfa77273c392d444fcd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 52/79] fix: energon lint skips empty splits

---
 src/megatron/energon/tools/lint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index 9e3ca42..f70d666 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -11,7 +11,7 @@ import yaml
 
 from megatron.energon import WorkerConfig, get_loader, get_val_dataset
 from megatron.energon.epathlib import EPath
-from megatron.energon.flavors import BaseWebdatasetFactory
+from megatron.energon.flavors.webdataset.empty_dataset_error import EmptyDatasetError
 from megatron.energon.flavors.webdataset.itar import TarIndexReader
 
 
@@ -99,7 +99,7 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
                 handler=handler,
                 **kwargs,
             )
-        except BaseWebdatasetFactory.EmptyDatasetError:
+        except EmptyDatasetError:
             click.echo(f"Skipping empty split part {split_part}")
             continue
 
-- 
2.43.0


From f9a92f50e1fdc68f88865ed54f0d79208fac76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 53/79] fix: energon lint accepts metadataset files

---
 src/megatron/energon/tools/lint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index f70d666..b063e00 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -18,7 +18,7 @@ from megatron.energon.flavors.webdataset.itar import TarIndexReader
 def check_index(dataset_path: EPath):
     if not dataset_path.is_dir():
         click.echo(f"{dataset_path} is not a directory, therefore the index will not be checked")
-        return
+        return True
 
     ok = True
 
-- 
2.43.0


From c023285b8cd0b695f2345b19c7b9ea3466bc6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 54/79] fix: energon lint reports samples failing in worker
 processes

---
 src/megatron/energon/tools/lint.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index b063e00..d15672a 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import logging
+import multiprocessing
 import traceback
 from typing import Optional
 
@@ -70,16 +71,13 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
         raise click.ClickException("Validation failed with errors, see logs for details.")
 
     # Check the dataset
-    failed = False
-
-    ignore_list = []
+    # The handler is called in the worker processes, so share the list with them
+    manager = multiprocessing.Manager()
+    failures = manager.list()
 
     def handler(exc: Exception, key: Optional[str] = None) -> None:
-        nonlocal failed
-        failed = True
         logging.exception(str(exc))
-        if key is not None:
-            ignore_list.append(key)
+        failures.append(key)
 
     kwargs = {}
     if dataset_config != "dataset.yaml":
@@ -112,12 +110,13 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
             traceback.print_exc()
             raise click.ClickException("Validation failed with errors, see logs for details.")
 
-    if failed:
+    if len(failures) > 0:
         click.echo(
             "The following shards/samples failed (maybe set as dataset.yaml:ignore_list):", err=True
         )
-        for item in ignore_list:
-            click.echo(f"- {item}", err=True)
+        for item in failures:
+            if item is not None:
+                click.echo(f"- {item}", err=True)
         raise click.ClickException("Validation failed with errors, see logs for details.")
 
 
-- 
2.43.0


From 2784920eedfc2a4fb8535871ad3d0937efb54011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 55/79] fix: energon lint reports shards shorter than their
 index

---
 src/megatron/energon/tools/lint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index d15672a..9cada48 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -37,6 +37,9 @@ def check_index(dataset_path: EPath):
                 print(
                     f"Error in shard {shard_file}: Shard length in Info file {length} != {l - 1} (length in index)"
                 )
+            elif l > 0 and itar[l - 1] > (dataset_path / shard_file).size():
+                ok = False
+                print(f"Error in shard {shard_file}: Shard file is shorter than its index")
 
     return ok
 
-- 
2.43.0


From bbde98395d9ab5b53ff858b12a0d6596b2f58d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 56/79] fix: energon info expands braces in splits and accepts
 empty datasets

---
 src/megatron/energon/tools/info.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/info.py b/src/megatron/energon/tools/info.py
index 3964759..6f29d6c 100644
--- a/src/megatron/energon/tools/info.py
+++ b/src/megatron/energon/tools/info.py
@@ -5,6 +5,7 @@ from importlib import import_module
 from io import StringIO
 from typing import Type
 
+import braceexpand
 import click
 import yaml
 
@@ -56,6 +57,10 @@ def command(
     info_config = yaml.safe_load(StringIO((path / MAIN_FOLDER_NAME / ".info.yaml").read_text()))
     split_config = yaml.safe_load(StringIO((path / MAIN_FOLDER_NAME / split_config).read_text()))
     samples_count = sum(info_config["shard_counts"].values())
+    split_shards = {
+        split_name: [name for part in split_parts for name in braceexpand.braceexpand(part)]
+        for split_name, split_parts in split_config["split_parts"].items()
+    }
     dict_sample_type = ds_config["sample_type"]
     sample_module = import_module(dict_sample_type["__module__"])
 
@@ -81,13 +86,13 @@ def command(
             split_ratio=round(
                 100
                 * sum(info_config["shard_counts"][shard] for shard in split_parts)
-                / samples_count,
+                / max(samples_count, 1),
                 2,
             ),
             split_samples_count=sum(info_config["shard_counts"][shard] for shard in split_parts),
             split_shards_count=len(split_parts),
         )
-        for split_name, split_parts in sorted(split_config["split_parts"].items(), key=srt_key)
+        for split_name, split_parts in sorted(split_shards.items(), key=srt_key)
     )
     print(
         fmt.format(
-- 
2.43.0


From 0efaa0edc63b1628dc7682b7b1f2b82172e4693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 57/79] fix: energon preview shows constant images and images
 of any aspect ratio

---
 src/megatron/energon/tools/preview.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 6317ec7..8486c61 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -39,14 +39,14 @@ def to_str(value: Any, indent: str) -> str:
             procrustes = 0.3
             # keep aspect ratio
             if orig_w / orig_h < dst_w / dst_h:
-                dst_h = int(dst_w * procrustes * orig_h / orig_w)
+                dst_h = max(int(dst_w * procrustes * orig_h / orig_w), 1)
             else:
-                dst_w = int(dst_h / procrustes * orig_w / orig_h)
+                dst_w = max(int(dst_h / procrustes * orig_w / orig_h), 1)
             value = torch.nn.functional.interpolate(
                 value[None, None, :, :].to(dtype=torch.float32), size=(dst_h, dst_w), mode="area"
             )[0, 0]
             # normalize
-            value = (value - value.min()) / (value.max() - value.min())
+            value = (value - value.min()) / (value.max() - value.min()).clamp(min=1e-12)
             # to ascii text
             return (
                 f"Tensor(shape={orig_value.shape}, dtype={orig_value.dtype}):\n{indent}"
-- 
2.43.0


From 0679d8dabf4d2b32e25e8310ee7d1cf6b550c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 58/79] fix: energon preview shows named tuples

---
 src/megatron/energon/tools/preview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 8486c61..4961666 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -67,7 +67,7 @@ def to_str(value: Any, indent: str) -> str:
             return (
                 f"{type(value).__name__}(\n{indent}"
                 + f",\n{indent}  ".join(
-                    f"{field.name}={to_str(value, indent + '    ')}"
+                    f"{field}={to_str(value, indent + '    ')}"
                     for value, field in zip(value, value._fields)
                 )
                 + f"\n{indent})"
-- 
2.43.0


From db48612362d483e4188341af9969db4134b1dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 59/79] fix: energon preview shows crude samples

---
 src/megatron/energon/tools/preview.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 4961666..4b9c4ab 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -4,7 +4,7 @@
 import dataclasses
 import shutil
 import traceback
-from typing import Any
+from typing import Any, Union
 
 import click
 import torch
@@ -85,8 +85,14 @@ def to_str(value: Any, indent: str) -> str:
     return repr(value)
 
 
-def pprint(idx: int, sample: Sample):
+def pprint(idx: int, sample: Union[Sample, dict]):
     click.echo(f"Sample {idx}")
+    if isinstance(sample, dict):
+        # Crude samples
+        for name, value in sample.items():
+            if name not in ("__restore_key__", "__subflavor__", "__subflavors__"):
+                click.echo(f" - {name} ({type(value)}): {to_str(value, '')}")
+        return
     for field in dataclasses.fields(sample):
         if field.name in ("__restore_key__", "__subflavor__", "__subflavors__"):
             continue
-- 
2.43.0


From 6da79cbe3b5f3a2f503b4592e9224e05f57b9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 60/79] fix: energon analyze-debug can analyze the loading
 order

---
 src/megatron/energon/tools/analyze_debug.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index b9d99c8..d0f79f1 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -385,8 +385,8 @@ def command(
             "  Shuffle buffer and batching will not be considered, only the loading order from disk"
         )
         log_iters = [
-            _iter_sl_log_line_keys(_iter_sl_log_samples(log_file), start_idx=skip)
-            for log_file in log_files
+            (idx, _iter_sl_log_line_keys(_iter_sl_log_samples(log_file), start_idx=skip))
+            for idx, log_file in enumerate(log_files)
         ]
         key_index = {}
         count = 0
@@ -394,23 +394,23 @@ def command(
         while len(log_iters) > 0:
             cur_count = 0
             # Iterate over all iterators for this count and put into heatmap
-            for log_iter in tuple(log_iters):
+            for src_idx, log_iter in tuple(log_iters):
                 # Iterate until None (=next count) is encountered
                 while True:
                     try:
                         log_key = next(log_iter)
                     except StopIteration:
-                        log_iters.remove(log_iter)
+                        log_iters.remove((src_idx, log_iter))
                         break
                     except OSError:
                         traceback.print_exc()
-                        log_iters.remove(log_iter)
+                        log_iters.remove((src_idx, log_iter))
                         break
                     else:
                         if log_key is None:
                             break
                         key_id = key_index.setdefault(log_key, len(key_index))
-                        heatmap.add(key_id, count)
+                        heatmap.add(key_id, count, src_idx)
                         cur_count += 1
             if cur_count == 0:
                 print(f"No data for step {count}")
-- 
2.43.0


From eeb56a90d357bfd6d3b6daeff779fa75851d1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 61/79] fix: energon analyze-debug can skip steps

---
 src/megatron/energon/tools/analyze_debug.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index d0f79f1..b1ecf8d 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -570,6 +570,7 @@ class LoaderLogIter:
             if (
                 log_line["t"] in ("SavableDataLoader.yield", "BasicDataLoader.yield")
                 and log_line["id"] in loader_ids
+                and log_line["global_idx"] >= self._start_idx
             ):
                 assert (
                     log_line["global_idx"] >= idx
-- 
2.43.0


From ca2a609086b5f7b827463f62a8d294e31c864c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 62/79] fix: energon analyze-debug knows joined datasets

---
 src/megatron/energon/tools/analyze_debug.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index b1ecf8d..0c3fa07 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -535,6 +535,8 @@ class LoaderLogIter:
             return config["map_fn_config"]["path"]
         elif "map_fn_config" in config and "paths" in config["map_fn_config"]:
             return config["map_fn_config"]["paths"][0]
+        elif "map_fn_config" in config and "joined_datasets" in config["map_fn_config"]:
+            return config["map_fn_config"]["joined_datasets"][0]["path"]
         elif "dataset" in config:
             return LoaderLogIter._find_config_path(config["dataset"])
         elif "dataset_weights" in config:
-- 
2.43.0


From a898ad05034fa50d34b79504c43a9a1e0ad416bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 63/79] fix: energon analyze-debug accepts heatmaps of odd size

---
 src/megatron/energon/tools/analyze_debug.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index 0c3fa07..c5d1295 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -143,6 +143,9 @@ class AutosizingHeatmapWriter:
     """Writes a heatmap, automatically resizing it if necessary."""
 
     def __init__(self, heatmap_samples: int, heatmap_steps: int, colorize: bool = True):
+        # The size must be even for merging pairs when resizing
+        heatmap_samples += heatmap_samples % 2
+        heatmap_steps += heatmap_steps % 2
         self.heatmap = np.zeros((heatmap_samples, heatmap_steps, 3), dtype=np.int32)
         self.heatmap_sample_factor = 1
         self.heatmap_step_factor = 1
-- 
2.43.0


From 6de9e6f241c03d13262f7d194514ebeddf6b304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 64/79] fix: energon analyze-debug can analyze the loading
 order of blended datasets

---
 src/megatron/energon/tools/analyze_debug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index c5d1295..5de8557 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -602,8 +602,8 @@ def _iter_sl_log_line_keys(
     for log_line in log_lines:
         if log_line["count"] < start_idx:
             continue
-        assert log_line["count"] >= count
-        while log_line["count"] != count:
+        # The counts of blended datasets are independent
+        while log_line["count"] > count:
             yield None
             count += 1
         yield log_line["key"]
-- 
2.43.0


From c6ec4f84d75d488048435c6634ab8ec74dacbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 65/79] fix: energon analyze-debug uses the sample loader logs
 if there is no loader log

---
 src/megatron/energon/tools/analyze_debug.py | 72 +++++++++++----------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index 5de8557..3b17e48 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -340,42 +340,44 @@ def command(
                 if selected_loader_id in loaders_by_id:
                     break
                 print(f"Invalid loader id {selected_loader_id}")
-        assert selected_loader_id is not None
-        selected_loader_info, selected_loader_readers = loaders_by_id[selected_loader_id]
-        print(
-            f"Reading for loader {selected_loader_id}: {selected_loader_info.modality} {selected_loader_info.path}"
-        )
-        log_iters = [
-            (idx, loader.log_entries(loader_ids={selected_loader_id}))
-            for idx, loader in enumerate(selected_loader_readers)
-        ]
-        with tqdm(total=selected_loader_info.global_count) as pbar:
-            while len(log_iters) > 0:
-                cur_count = 0
-                # Iterate over all iterators for this count and put into heatmap
-                for src_idx, log_iter in tuple(log_iters):
-                    # Iterate until None (=next count) is encountered
-                    while True:
-                        try:
-                            log_keys = next(log_iter)
-                        except StopIteration:
-                            log_iters.remove((src_idx, log_iter))
-                            break
-                        except OSError:
-                            traceback.print_exc()
-                            log_iters.remove((src_idx, log_iter))
-                            break
-                        else:
-                            if log_keys is None:
+        if selected_loader_id is None:
+            print(f"No loader found for {include_modality}")
+        else:
+            selected_loader_info, selected_loader_readers = loaders_by_id[selected_loader_id]
+            print(
+                f"Reading for loader {selected_loader_id}: {selected_loader_info.modality} {selected_loader_info.path}"
+            )
+            log_iters = [
+                (idx, loader.log_entries(loader_ids={selected_loader_id}))
+                for idx, loader in enumerate(selected_loader_readers)
+            ]
+            with tqdm(total=selected_loader_info.global_count) as pbar:
+                while len(log_iters) > 0:
+                    cur_count = 0
+                    # Iterate over all iterators for this count and put into heatmap
+                    for src_idx, log_iter in tuple(log_iters):
+                        # Iterate until None (=next count) is encountered
+                        while True:
+                            try:
+                                log_keys = next(log_iter)
+                            except StopIteration:
+                                log_iters.remove((src_idx, log_iter))
+                                break
+                            except OSError:
+                                traceback.print_exc()
+                                log_iters.remove((src_idx, log_iter))
                                 break
-                            for log_key in log_keys:
-                                key_id = key_index.setdefault(log_key, len(key_index))
-                                heatmap.add(key_id, count, src_idx)
-                                cur_count += 1
-                if cur_count == 0:
-                    print(f"No data for step {count}")
-                count += 1
-                pbar.update(1)
+                            else:
+                                if log_keys is None:
+                                    break
+                                for log_key in log_keys:
+                                    key_id = key_index.setdefault(log_key, len(key_index))
+                                    heatmap.add(key_id, count, src_idx)
+                                    cur_count += 1
+                    if cur_count == 0:
+                        print(f"No data for step {count}")
+                    count += 1
+                    pbar.update(1)
 
     if len(key_index) == 0:
         if force_loading_order:
-- 
2.43.0


From 6491093c1ded2dda59a066efd3a72a9f32cd3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 66/79] fix: energon analyze-debug counts the last step of a
 loader

---
 src/megatron/energon/tools/analyze_debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index 3b17e48..3ece4d7 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -568,7 +568,7 @@ class LoaderLogIter:
                     global_count=0,
                 )
             elif log_line["t"] in ("SavableDataLoader.yield", "BasicDataLoader.yield"):
-                loaders[log_line["id"]].global_count = log_line["global_idx"]
+                loaders[log_line["id"]].global_count = log_line["global_idx"] + 1
         return loaders
 
     def log_entries(self, loader_ids: Container[int]) -> Generator[Optional[List[str]], None, None]:
-- 
2.43.0


From d9e7c0e6f3bee566e1c72d7d74f68b46565815f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 67/79] fix: energon analyze-debug reports logs without data

---
 src/megatron/energon/tools/analyze_debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index 3ece4d7..46f809c 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -424,7 +424,7 @@ def command(
                 start = time.time()
             count += 1
 
-    if count == 0:
+    if len(key_index) == 0:
         raise click.ClickException("No data found in logs")
 
     print(f"Found {len(key_index)} unique sample keys, {count} steps")
-- 
2.43.0


From f36ff4be894aab5b435a11ec06264cf406ec8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 68/79] fix: the configuration of grouped batching contains the
 fixed batch size

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 1b6275c..bd7ac6f 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -318,6 +318,7 @@ class GroupBatchDataset(
     def config(self) -> Dict[str, Any]:
         return {
             "type": type(self).__qualname__,
+            "fixed_batch_size": self.fixed_batch_size,
             "bucket": self._function_config(self.sample_group_key),
             "batcher": self._function_config(self.batcher),
             **(
-- 
2.43.0


From 4f02f01219aa80d07e0b56098c6b391f47478bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 69/79] fix: the configuration of joined datasets contains how
 they are joined

---
 src/megatron/energon/flavors/webdataset/joined_webdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..15749ea 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -245,6 +245,8 @@ class JoinedWebdatasetFactory(
         return dict(
             type=type(self).__qualname__,
             joined_datasets=[dataset.config() for dataset in self.inner_datasets],
+            joined_keys=self.inner_dataset_keys,
+            joiner=SavableDataset._function_config(self.__sample_type__),
             training=self.training,
             shuffle_over_epochs=self.shuffle_over_epochs,
             parallel_shard_iters=self.parallel_shard_iters,
-- 
2.43.0


From 470bfa66ee05741db684be04b48c37c035de896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 70/79] fix: sort the excluded samples in the configuration, as
 the order of a set differs between processes

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index fcd1e5a..e472354 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -780,7 +780,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 for shards in self.shards
             ],
             "worker_config": self.worker_config.config(),
-            "exclude": list(self.exclude),
+            "exclude": sorted(self.exclude),
             "loop": self.loop,
             "shuffle_over_epochs": self.shuffle_over_epochs,
             "parallel_shard_iters": self.parallel_shard_iters,
-- 
2.43.0


From b2ab7d7589a1c144f913d7dd7f4e80a707a71bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 71/79] fix: remote paths do not rely on outdated listings,
 such that data prepared in the same process can be loaded

---
 src/megatron/energon/epathlib/epath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 23c8b53..2779798 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -146,6 +146,9 @@ class EPath:
                 "verify": False,
                 "region_name": rclone_entry.region,
             },
+            # Files may be added by other processes (e.g. the workers preparing a dataset) and cached
+            # listings are not updated when moving files, thus never rely on a previous listing.
+            use_listings_cache=False,
         )
 
         return s3fs.S3FileSystem(**s3_args), s3_args  # type: ignore
-- 
2.43.0


From 3ed97fb1312b98561c163446d2950844de7c5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 72/79] fix: all samples which an iter_map_fn yields per
 fetched sample can be restored

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index e1e3207..f60f285 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -119,6 +119,10 @@ class IterMapDataset(
             nonlocal iter_idx, sample_restore_keys, inner_error
             try:
                 for entry in last_sample_wrapper:
+                    if iter_idx > 0:
+                        # The previously fetched samples have been yielded. Their keys are kept until
+                        # now, because multiple samples may be yielded per fetched sample.
+                        sample_restore_keys.clear()
                     iter_idx = 0
                     sample_restore_keys.append(get_sample_restore_key(entry))
                     yield entry
@@ -140,7 +144,6 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
-- 
2.43.0


From a34a84acfbc7f1939741373ade817ecbf64c3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 73/79] fix: values in the rclone configuration may contain "%"

---
 src/megatron/energon/epathlib/rclone_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/rclone_config.py b/src/megatron/energon/epathlib/rclone_config.py
index 7d01b8d..e4f6485 100644
--- a/src/megatron/energon/epathlib/rclone_config.py
+++ b/src/megatron/energon/epathlib/rclone_config.py
@@ -61,7 +61,8 @@ def get_rclone_config_path() -> Optional[Path]:
 def read_rclone_config_at_path(config_path: Path) -> Dict[str, ConfigEntry]:
     """Reads the config file and returns a dictionary with the config entries."""
 
-    config = configparser.ConfigParser()
+    # Values are used as they are, secrets may contain "%"
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_path)
 
     config_entries = {}
-- 
2.43.0


From f47717cbb71c7400a61f6ec09841b40f106041e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 74/79] fix: blank values in the rclone configuration mean the
 same as missing ones

---
 src/megatron/energon/epathlib/rclone_config.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/epathlib/rclone_config.py b/src/megatron/energon/epathlib/rclone_config.py
index e4f6485..399fdc5 100644
--- a/src/megatron/energon/epathlib/rclone_config.py
+++ b/src/megatron/energon/epathlib/rclone_config.py
@@ -67,14 +67,15 @@ def read_rclone_config_at_path(config_path: Path) -> Dict[str, ConfigEntry]:
 
     config_entries = {}
     for section in config.sections():
+        # Blank values mean the same as missing ones
         entry = ConfigEntry(
             name=section,
             type=config[section].get("type"),
-            provider=config[section].get("provider"),
-            access_key_id=config[section].get("access_key_id"),
-            secret_access_key=config[section].get("secret_access_key"),
-            region=config[section].get("region"),
-            endpoint=config[section].get("endpoint"),
+            provider=config[section].get("provider") or None,
+            access_key_id=config[section].get("access_key_id") or None,
+            secret_access_key=config[section].get("secret_access_key") or None,
+            region=config[section].get("region") or None,
+            endpoint=config[section].get("endpoint") or None,
         )
         config_entries[section] = entry
 
-- 
2.43.0


From 307eaf4df0bea4bd2595269f48cb7bf6e2fbf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 75/79] fix: ignore_decoder_errors leaves out the samples which
 cannot be decoded

---
 .../flavors/webdataset/default_decoder_webdataset.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py b/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
index 620eabd..581cb30 100644
--- a/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
@@ -11,6 +11,7 @@ from megatron.energon.flavors.webdataset.default_generic_webdataset import (
 )
 from megatron.energon.flavors.webdataset.structs import FilteredSample
 from megatron.energon.flavors.webdataset.video_data import VideoData
+from megatron.energon.wrappers.skip import SkipSample
 
 T_sample = TypeVar("T_sample", covariant=True)
 
@@ -104,7 +105,12 @@ class DefaultDecoderWebdatasetFactory(DefaultGenericWebdatasetFactory[T_sample],
 
     def load_sample(self, sample: FilteredSample) -> T_sample:
         if self._decoder is not None:
-            sample = self._decoder(sample)
+            try:
+                sample = self._decoder(sample)
+            except Exception as e:
+                self._decode_error_handler(e)
+                # The error is ignored, thus leave out the sample
+                raise SkipSample() from e
         return super().load_sample(sample)
 
     def config(self) -> Dict[str, Any]:
-- 
2.43.0


From baf82a06d631c1bb6665c2be4d6727a7c3fc1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 76/79] fix: loader workers without samples do not collect a
 checkpoint in every epoch

---
 src/megatron/energon/savable_loader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index dbaba60..981fab7 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -478,6 +478,13 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     end_of_epoch=self._epoch if force else None,
                 )
             )
+            # Without samples in between, only the end of the current and of the previous epoch can
+            # be of interest.
+            while (
+                len(self._last_checkpoints) > max(self.n_checkpoints, 2)
+                and self._last_checkpoints[-3].sample_index == self._sample_index
+            ):
+                self._last_checkpoints.pop(-3)
             # Up to `prefetch_factor * num_workers` samples may not have been retrieved yet. Keep a
             # checkpoint before those, also if checkpoints were stored in short succession.
             max_prefetched = 2 * max(self.worker_config.num_workers, 1)
-- 
2.43.0


From 38f02f3f0d9b029cdfd99860f93beedb918b8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 77/79] fix: a sample which cannot be read is left out instead
 of delivered without its parts

---
 .../flavors/webdataset/sample_loader.py       |  5 ++-
 .../flavors/webdataset/single_shard_reader.py | 44 ++++++++++++++++---
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index e472354..11c4ca4 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,7 +241,8 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
-                    failed = False
+                    # Also advance the other readers if the sample could not be read
+                    failed = groups[0] is None
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -264,6 +265,8 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
                             failed = True
+                        else:
+                            failed = failed or groups[idx] is None
                     if not failed:
                         yield tuple(groups)
 
diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 7e94f75..9540ed3 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -58,10 +58,16 @@ class SingleShardReader:
         self.shard_state = shard_state
         self.part_filter = part_filter
         self.handler = handler
+        self._ctx = contextlib.ExitStack()
+        self._open()
+
+    def _open(self) -> None:
+        """Opens the shard at the position given by the shard state."""
+        shard_state = self.shard_state
+        worker_config = self.worker_config
 
         if shard_state.offset == shard_state.shard.count:
             # Empty shard, return immediately
-            self._ctx = contextlib.ExitStack()
             return
 
         shard = shard_state.shard
@@ -97,7 +103,6 @@ class SingleShardReader:
                 }
             )
 
-        self._ctx = contextlib.ExitStack()
         if self.shard_state.byte_offset < shard.byte_size:
             # Non-empty shard (empty cannot be handled by the open_itar function)
             self._tar_file = self._ctx.enter_context(
@@ -113,17 +118,36 @@ class SingleShardReader:
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
+        self._close()
+
+    def _close(self) -> None:
         if self._stream and hasattr(self._stream, "close"):
             self._stream.close()
         self._ctx.close()
 
+    def _skip_failed_sample(self) -> None:
+        """Continues after the current sample, which could not be read. The position in the tar file
+        is unknown after an error, thus the shard is opened again at the next sample."""
+        self._close()
+        self._stream = self._EMPTY_ITER
+        self._cur_base_name = self._cur_ext = self._cur_key = self._cur_tarinfo = None
+        self._excluded_count = 0
+
+        shard = self.shard_state.shard
+        next_offset = self.shard_state.offset + 1
+        self.shard_state.byte_offset = (
+            get_itar_byte_offset(shard.path, shard.offset + next_offset) - shard.byte_offset
+        )
+        self.shard_state.offset = next_offset
+        self._open()
+
     def _next_tarinfo(self) -> None:
         """Internally loads the nest tar entry metadata. Or raises StopIteration."""
         excluded_key: Optional[str] = None
         while True:
             try:
                 self._cur_tarinfo = next(self._stream)
-            except StopIteration:
+            except BaseException:
                 self._cur_base_name = self._cur_ext = self._cur_key = self._cur_tarinfo = None
                 raise
             fname = self._cur_tarinfo.name
@@ -157,8 +181,9 @@ class SingleShardReader:
 
     def read_next(
         self, for_group_name: Optional[str] = None, must_match: bool = False
-    ) -> Tuple[str, FilteredSample]:
-        """Gets the next sample, or raises StopIteration if exhausted."""
+    ) -> Tuple[str, Optional[FilteredSample]]:
+        """Gets the next sample, or raises StopIteration if exhausted. The sample is None, if it
+        could not be read and the handler ignored the error."""
         if self._cur_tarinfo is None:
             self._next_tarinfo()
             self.shard_state.offset += self._pop_excluded_count()
@@ -220,12 +245,21 @@ class SingleShardReader:
                 raise FatalSampleError.from_sample_key(self._cur_key)
             except Exception as e:
                 self.handler(e, self._cur_key)
+                self._skip_failed_sample()
+                return group_name, None
 
             try:
                 self._next_tarinfo()
                 assert self._cur_tarinfo is not None
             except StopIteration:
                 break
+            except SYSTEM_EXCEPTIONS:
+                raise
+            except Exception as e:
+                # Neither the data nor the number of the remaining parts is known
+                self.handler(e, group["__key__"])
+                self._skip_failed_sample()
+                return group_name, None
 
         # shard_state.byte_offset = (absolute_tar_begin_offset - shard_info.byte_offset)
         # Next state
-- 
2.43.0


From f228d7fa1cb02558a70955c8cd75e0a691ec1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:49 +0000
Subject: [PATCH 78/79] fix: positional-only arguments left out of a list take
 their default

---
 src/megatron/energon/typed_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 3ff10e1..ac6baa7 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,6 +591,9 @@ def safe_call_function(
                     raise ValueError(
                         f"Missing required positional-only argument {key!r} at index {idx}"
                     )
+                if len(unused_args) == 0:
+                    # Use the default as it is
+                    continue
                 args.append(
                     raw_to_typed(
                         unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
-- 
2.43.0


From 0f5bd3d13df712aeedf6c019fdb7c9df1ee9b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:14 +0000
Subject: [PATCH 79/79] fix: cut shards into slices without losing the last
 sample to rounding

---
 src/megatron/energon/flavors/webdataset/sharder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..d0ebf0a 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,11 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
-            # idx+1 is used to access the end offset)
+            # idx+1 is used to access the end offset). Use integer arithmetic, to exactly end there.
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + slice * (end_offset - start_offset) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0

