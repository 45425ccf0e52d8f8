From ff21bc0e11ff032adba3b166534afef3c8a7a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 01/91] fix: sort_bin_shuffle seq ordering with empty bins
 resulted in float seq indices

---
 returnn/datasets/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..5272e88 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -604,7 +604,8 @@ class Dataset:
                 if seq_ordering_method.startswith("sort_bin_shuffle_x2"):
                     random_generator.shuffle(part)  # Shuffle within the bin.
                 out_index.append(part)
-            seq_index = numpy.concatenate(out_index)
+            # Explicit dtype because a bin can be empty (more bins than seqs), which would result in a float array.
+            seq_index = numpy.concatenate(out_index).astype("int64")
         elif seq_ordering_method.startswith("laplace"):
             assert get_seq_len
             tmp = seq_ordering_method.split(":")[1:]
-- 
2.43.0


From 1aa92d8dc0b0270c9634437276c40aaaea7e70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:37 +0000
Subject: [PATCH 02/91] fix: TextDictDataset with predefined seq_order, load
 data if not loaded yet

---
 returnn/datasets/text_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/text_dict.py b/returnn/datasets/text_dict.py
index 5799232..d3566bd 100644
--- a/returnn/datasets/text_dict.py
+++ b/returnn/datasets/text_dict.py
@@ -160,6 +160,7 @@ class TextDictDataset(CachedDataset2):
 
     def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         orig_seq_idx = self._seq_order[seq_idx]
+        self._load()
         seq_tag = self._seq_tags[orig_seq_idx]
         data = self._data_values[orig_seq_idx]
 
-- 
2.43.0


From b2b6a23d65a8596eb3d82379b0a543ee9c83bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 03/91] fix: StaticDataset pickling

---
 returnn/datasets/generating.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..6db487d 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1084,6 +1084,10 @@ class StaticDataset(CachedDataset2):
         """
         super(StaticDataset, self).__init__(**kwargs)
 
+        # Store the original args, needed for pickling, see Dataset.__reduce__.
+        self._input_dim = input_dim
+        self._output_dim = output_dim
+
         assert len(data) > 0
         self.data = data
         first_data = data[0]
-- 
2.43.0


From a1bc08e1f5df6b7fe59d12791d7ca1b965fd4629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 04/91] fix: raw_dict_split_batch with scalar entries (epoch,
 num_seqs, complete_frac)

---
 returnn/torch/data/extern_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..bb562a2 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if len(v.shape) == 0:  # e.g. epoch, num_seqs, complete_frac: not per seq, same for all
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
-- 
2.43.0


From 5f693513353201a5faf8492b47cd41461c1453a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 05/91] fix: raw_dict_split_batch, avoid empty splits

---
 returnn/torch/data/extern_data.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index bb562a2..3ab627a 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -149,13 +149,9 @@ def raw_dict_split_batch(
 
 def _make_split_seq_from_num_splits(num_splits: int, total: int) -> List[int]:
     assert num_splits <= total
-    remaining = total
-    split_size = -(-total // num_splits)  # ceildiv
-    res = []
-    for i in range(num_splits):
-        res.append(min(remaining, split_size))
-        remaining -= res[-1]
-    assert remaining == 0 and len(res) == num_splits and sum(res) == total
+    # Distribute as evenly as possible, such that no split is empty.
+    res = [total // num_splits + (1 if i < total % num_splits else 0) for i in range(num_splits)]
+    assert len(res) == num_splits and sum(res) == total and min(res) > 0
     return res
 
 
-- 
2.43.0


From 39ea9d4947293ac5c96a6680b807ff3fef06fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:22 +0000
Subject: [PATCH 06/91] fix: Dataset.get_complete_frac with unknown or only
 estimated num_seqs

---
 returnn/datasets/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 5272e88..65b8d18 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -972,6 +972,10 @@ class Dataset:
                 num_seqs = self.estimated_num_seqs
             except Exception:  # also not always available
                 num_seqs = None  # ignore
+            # The estimate is not necessarily exact, so the seq idx can be beyond it.
+            return self.generic_complete_frac(
+                sorted_seq_idx, num_seqs if num_seqs is not None and not math.isinf(num_seqs) else None
+            )
 
         if math.isinf(num_seqs):
             if allow_only_lr_suitable:
-- 
2.43.0


From 9ecefdb92d096509a286d4655cb723963414a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:30 +0000
Subject: [PATCH 07/91] fix: CachedDataset, race conditions of the preload
 threads, targets of repeated seqs

HDFDataset with cache_byte_size != 0 could silently deliver zeros or data of other sequences,
when multiple preload threads modified the alloc intervals concurrently,
or when the order changed while the preload was still running.
---
 returnn/datasets/cached.py | 69 +++++++++++++++++++++++++-------------
 returnn/datasets/hdf.py    |  2 +-
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/returnn/datasets/cached.py b/returnn/datasets/cached.py
index f095525..f6d9071 100644
--- a/returnn/datasets/cached.py
+++ b/returnn/datasets/cached.py
@@ -40,6 +40,9 @@ class CachedDataset(Dataset):
         self.preload_set = set([])
         self.preload_end = 0
         self.alloc_intervals = None  # type: typing.Optional[list]
+        # There is at most one preload thread at a time. It modifies alloc_intervals, targets, preload_set.
+        self._preload_thread = None  # type: typing.Optional[threading.Thread]
+        self._alloc_intervals_lock = threading.RLock()
         self._seq_start = []  # [numpy.array([0,0])]  # uses sorted seq idx, see set_batching()
         self._seq_index = []  # type: typing.List[int]  # Via init_seq_order(). seq_index idx -> hdf seq idx
         self._seq_index_inv = {}  # type: typing.Dict[int,int]  # Via init_seq_order(). hdf seq idx -> seq_index idx
@@ -94,6 +97,7 @@ class CachedDataset(Dataset):
                 epoch, self._num_seqs, lambda s: self._get_seq_length_by_real_idx(s)[0]
             )
 
+        self._wait_for_preload()  # it would still load data for the old order
         old_index_map = self._index_map[:]
         self._index_map = range(len(seq_index))  # sorted seq idx -> seq_index idx
 
@@ -163,6 +167,8 @@ class CachedDataset(Dataset):
         assert self.num_inputs > 0
         assert self.window > 0
         self.preload_set = set([])
+        # Will be allocated when loaded, with the total size for the current seq order.
+        self.targets = {k: None for k in self.targets}
         self.alloc_intervals = [
             (0, 0, numpy.zeros([1] + self.get_data_shape("data"), dtype=self.get_data_dtype("data"))),
             (
@@ -205,11 +211,7 @@ class CachedDataset(Dataset):
         self.num_seqs_cached_at_start = num_cached
         self.cached_bytes_at_start = cached_bytes
         if num_cached > 0:
-            self.preload_end = num_cached
-            if sys.version_info >= (3, 0):
-                threading.Thread(target=self._preload_seqs, args=(0, num_cached), daemon=True).start()
-            else:
-                threading.Thread(target=self._preload_seqs, args=(0, num_cached)).start()
+            self._start_preload(0, num_cached)
 
     def load_seqs(self, start, end):
         """
@@ -239,6 +241,10 @@ class CachedDataset(Dataset):
         raise NotImplementedError
 
     def _load_seqs_with_cache(self, start, end, clear=True):
+        # Another preload might not be ready yet.
+        self._wait_for_preload()
+        if self.is_cached(start, end):
+            return
         if not clear:
             # only remove as many frames as required
             num_needed_cache_frames = self.get_seq_start(end)[0] - self.get_seq_start(start)[0]
@@ -246,7 +252,7 @@ class CachedDataset(Dataset):
                 self.cache_num_frames_free += self.delete(num_needed_cache_frames - self.cache_num_frames_free)
                 gc.collect()
             self.cache_num_frames_free -= num_needed_cache_frames
-            threading.Thread(target=self._preload_seqs, args=(start, end)).start()
+            self._start_preload(start, end)
         else:
             # First, delete everything.
             self.cache_num_frames_free += self.delete(None)
@@ -258,8 +264,18 @@ class CachedDataset(Dataset):
                     break
                 self.cache_num_frames_free -= num_needed_cache_frames
                 end += 1
-            self.preload_end = end
-            threading.Thread(target=self._preload_seqs, args=(start, end)).start()
+            self._start_preload(start, end)
+
+    def _start_preload(self, start, end):
+        assert self._preload_thread is None
+        self.preload_end = end
+        self._preload_thread = threading.Thread(target=self._preload_seqs, args=(start, end), daemon=True)
+        self._preload_thread.start()
+
+    def _wait_for_preload(self):
+        if self._preload_thread:
+            self._preload_thread.join()
+            self._preload_thread = None
 
     def _preload_seqs(self, start, end):
         print("Preloading cache from", start, "to", end, file=log.v4)
@@ -301,14 +317,15 @@ class CachedDataset(Dataset):
         :param int idc: index of sorted seq idx
         :param numpy.ndarray data: raw data
         """
-        idi = self.alloc_interval_index(idc)
-        assert idi >= 0
-        o = self._seq_start[idc][0] - self._seq_start[self.alloc_intervals[idi][0]][0]
-        l = data.shape[0]
-        x = data
-        if self.window > 1:
-            x = self._sliding_window(x)
-        self.alloc_intervals[idi][2][o : o + l] = x
+        with self._alloc_intervals_lock:
+            idi = self.alloc_interval_index(idc)
+            assert idi >= 0
+            o = self._seq_start[idc][0] - self._seq_start[self.alloc_intervals[idi][0]][0]
+            l = data.shape[0]
+            x = data
+            if self.window > 1:
+                x = self._sliding_window(x)
+            self.alloc_intervals[idi][2][o : o + l] = x
 
     def alloc_interval_index(self, ids):
         """
@@ -508,10 +525,12 @@ class CachedDataset(Dataset):
         return selection
 
     def insert_alloc_interval(self, start, end=None):
-        return self._modify_alloc_intervals(start, end, True)
+        with self._alloc_intervals_lock:
+            return self._modify_alloc_intervals(start, end, True)
 
     def remove_alloc_interval(self, start, end=None):
-        return self._modify_alloc_intervals(start, end, False)
+        with self._alloc_intervals_lock:
+            return self._modify_alloc_intervals(start, end, False)
 
     def delete(self, nframes):
         """
@@ -554,10 +573,11 @@ class CachedDataset(Dataset):
         if start == end:
             return True  # Empty.
         assert start < end
-        if blocking and end <= self.preload_end:
+        if blocking:
             while not set(range(start, end)) <= self.preload_set:
-                time.sleep(0.2)
-            return True
+                if not self._preload_thread or not self._preload_thread.is_alive():
+                    break
+                self._preload_thread.join(timeout=0.2)
         return set(range(start, end)) <= self.preload_set
 
     def _get_seq_length_by_real_idx(self, real_seq_idx):
@@ -605,9 +625,10 @@ class CachedDataset(Dataset):
 
     def get_input_data(self, sorted_seq_idx):
         seq_idx = self._index_map[sorted_seq_idx]
-        idi = self.alloc_interval_index(seq_idx)
-        assert idi >= 0, "failed to get data for seq %i" % sorted_seq_idx
-        alloc_start_seq, alloc_end_seq, alloc_data = self.alloc_intervals[idi]
+        with self._alloc_intervals_lock:
+            idi = self.alloc_interval_index(seq_idx)
+            assert idi >= 0, "failed to get data for seq %i" % sorted_seq_idx
+            alloc_start_seq, alloc_end_seq, alloc_data = self.alloc_intervals[idi]
         o = self.get_seq_start(seq_idx)[0] - self.get_seq_start(alloc_start_seq)[0]
         assert o >= 0
         l = self.get_seq_length_nd(sorted_seq_idx)[0]
diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..6145bb6 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -274,7 +274,7 @@ class HDFDataset(CachedDataset):
                         if self.targets[k] is None:
                             self.targets[k] = (
                                 numpy.zeros(
-                                    (self._num_codesteps[self.target_keys.index(k)],) + targets[k].shape[1:],
+                                    (self._seq_start[-1][self.target_keys.index(k) + 1],) + targets[k].shape[1:],
                                     dtype=self.data_dtype[k],
                                 )
                                 - 1
-- 
2.43.0


From 850017708eab86b3c9827409048f341877f5511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:30 +0000
Subject: [PATCH 08/91] fix: HDFDataset.get_data without cache, use index map

---
 returnn/datasets/hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 6145bb6..ecd94da 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -298,7 +298,7 @@ class HDFDataset(CachedDataset):
             return super(HDFDataset, self).get_data(seq_idx, key)
 
         # Otherwise, directly read it from file now.
-        real_seq_idx = self._seq_index[seq_idx]
+        real_seq_idx = self._seq_index[self._index_map[seq_idx]]
         return self._get_data_by_real_seq_idx(real_seq_idx, key)
 
     def get_data_by_seq_tag(self, seq_tag, key):
-- 
2.43.0


From c487990b1aac3aa4fe01e02b6f1fc5d495d15137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:30 +0000
Subject: [PATCH 09/91] fix: SimpleHDFWriter extend_existing_file with extra
 data

---
 returnn/datasets/hdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ecd94da..1bc2614 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,11 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets/data" in self._file:
+            for data_key, dataset in self._file["targets/data"].items():
+                self._datasets[data_key] = dataset
+                self._extra_num_time_steps[data_key] = dataset.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
@@ -1185,7 +1190,7 @@ class SimpleHDFWriter:
         for data_key, (dim, ndim, dtype) in extra_type.items():
             assert data_key != "inputs"
             if data_key in self._prepared_extra:
-                return
+                continue
             if not self._prepared_extra and not self.extend_existing_file:
                 # For the first time, need to create the groups.
                 self._file.create_group("targets/data")
-- 
2.43.0


From 6e6180357898a8e5fd1758f9dc60f6d460483f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:30 +0000
Subject: [PATCH 10/91] fix: HDFDatasetWriter.dump_from_dataset with datasets
 without labels

---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 1bc2614..41b02b1 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1551,7 +1551,8 @@ class HDFDatasetWriter:
                     hdf_data_key_map[data_key], shape=shapes[data_key], dtype=dataset.get_data_dtype(data_key)
                 )
                 hdf_dataset["targets/size"].attrs[hdf_data_key_map[data_key]] = dataset.num_outputs[data_key]
-            if data_key in dataset.labels:
+            # Note: There might be no labels, or just a dummy label, e.g. via SimpleHDFWriter.
+            if dataset.labels.get(data_key) and list(dataset.labels[data_key]) != ["dummy-label"]:
                 labels = dataset.labels[data_key]
                 labels = [label.encode("utf8") for label in labels]
                 assert len(labels) == dataset.num_outputs[data_key][0]
-- 
2.43.0


From 83e6842368de8952aef68a7aff93bb9bbcdee3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 11/91] fix: MultiProcDataset, meta info and finish_epoch after
 unpickling or after freed resources

---
 returnn/datasets/multi_proc.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..9d7a2a9 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -310,7 +310,8 @@ class MultiProcDataset(CachedDataset2):
                     parent_conn.send(("num_outputs", dataset.num_outputs))
                     parent_conn.send(("labels", dataset.labels))
                 elif msg == "get_total_num_seqs":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch with free_resources
+                        dataset = init_dataset(dataset_dict)
                     try:
                         total_num_seqs = dataset.get_total_num_seqs()
                         assert isinstance(total_num_seqs, int)
@@ -318,7 +319,8 @@ class MultiProcDataset(CachedDataset2):
                         total_num_seqs = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("total_num_seqs", total_num_seqs))
                 elif msg == "get_all_tags":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch with free_resources
+                        dataset = init_dataset(dataset_dict)
                     try:
                         all_tags = dataset.get_all_tags()
                         assert isinstance(all_tags, list)
@@ -326,11 +328,13 @@ class MultiProcDataset(CachedDataset2):
                         all_tags = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("all_tags", all_tags))
                 elif msg == "get_data_keys":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch with free_resources
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_keys", data_keys))
                 elif msg == "get_data_dtypes":
-                    assert dataset
+                    if dataset is None:  # e.g. after finish_epoch with free_resources
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_dtypes", {k: dataset.get_data_dtype(k) for k in data_keys}))
                 elif msg == "init_seq_order":
@@ -470,6 +474,7 @@ class MultiProcDataset(CachedDataset2):
     def get_all_tags(self):
         """all tags"""
         if self._all_tags is None:
+            self._lazy_init()  # indempotent, will not run twice if not needed
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_all_tags", {}))
             msg, self._all_tags = worker.recv()
@@ -484,6 +489,8 @@ class MultiProcDataset(CachedDataset2):
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
         super().finish_epoch(free_resources=free_resources)
+        if not self._worker_procs:  # not yet initialized
+            return
         for worker_parent_conn in self._worker_parent_conns:
             worker_parent_conn.send(("finish_epoch", {"free_resources": free_resources}))
 
-- 
2.43.0


From 51e63a0df4c288032848bc3303a32f038deb1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 12/91] fix: MultiProcDataset with dedicated sharding and
 shards of different size

---
 returnn/datasets/multi_proc.py | 45 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9d7a2a9..7a6e705 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -3,7 +3,7 @@ Multi-processing dataset
 """
 
 from __future__ import annotations
-from typing import Optional, Any, Dict, List
+from typing import Optional, Any, Dict, List, Tuple
 import sys
 import gc
 import multiprocessing as mp
@@ -76,6 +76,9 @@ class MultiProcDataset(CachedDataset2):
         self._seq_order_proc = None  # type: Optional[mp.Process]
         self._worker_procs = None  # type: Optional[List[mp.Process]]
         self._cur_max_complete_frac: Optional[float] = None
+        # for sharding_method "dedicated": list of (worker idx, next seq idx in the worker), in round-robin order
+        self._dedicated_remaining_workers = []  # type: List[Tuple[int, int]]
+        self._dedicated_next_seq_idx = 0
 
         if _meta_info_cache:
             # This allows to skip the lazy init in self.initialize().
@@ -412,6 +415,8 @@ class MultiProcDataset(CachedDataset2):
         self._cur_max_complete_frac = 0.0
 
         if self._sharding_method == "dedicated":
+            self._dedicated_remaining_workers = [(i, 0) for i in range(self.num_workers)]
+            self._dedicated_next_seq_idx = 0
             for worker_conn in self._worker_parent_conns:
                 worker_conn.send(("init_seq_order", {"epoch": epoch, "seq_list": seq_list, "seq_order": seq_order}))
             num_child_seqs = []
@@ -440,26 +445,48 @@ class MultiProcDataset(CachedDataset2):
         return True
 
     def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
-        worker_idx = seq_idx % self.num_workers
-        worker = self._worker_parent_conns[worker_idx]
-        worker.send(("get_data_seq", {"seq_idx": seq_idx // self.num_workers}))
-        msg, data = worker.recv()
-        assert msg == "data_seq"
+        if self._sharding_method == "dedicated":
+            data = self._get_data_seq_from_dedicated_workers(seq_idx)
+        else:
+            data = self._get_data_seq_from_worker(seq_idx % self.num_workers, seq_idx // self.num_workers)
         if data is None:
             return None
         assert isinstance(data, DatasetSeq)
         # The complete_frac values from the subprocesses are not necessarily monotonic
         # due to rounding errors in the sharding and such.
         # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
-        max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
-        data.complete_frac = max_comp_frac
-        self._cur_max_complete_frac = max_comp_frac
+        if data.complete_frac is not None:  # None if not available, e.g. if num_seqs is unknown
+            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
+            data.complete_frac = max_comp_frac
+            self._cur_max_complete_frac = max_comp_frac
         data.seq_idx = seq_idx
         return data
 
+    def _get_data_seq_from_worker(self, worker_idx: int, worker_seq_idx: int) -> Optional[DatasetSeq]:
+        worker = self._worker_parent_conns[worker_idx]
+        worker.send(("get_data_seq", {"seq_idx": worker_seq_idx}))
+        msg, data = worker.recv()
+        assert msg == "data_seq"
+        return data
+
+    def _get_data_seq_from_dedicated_workers(self, seq_idx: int) -> Optional[DatasetSeq]:
+        # Round-robin over all workers which still have data.
+        # The shards are not necessarily of the same size, and their size might not be known.
+        while self._dedicated_remaining_workers:
+            worker_idx, worker_seq_idx = self._dedicated_remaining_workers.pop(0)
+            data = self._get_data_seq_from_worker(worker_idx, worker_seq_idx)
+            if data is None:
+                continue  # this worker is done
+            self._dedicated_remaining_workers.append((worker_idx, worker_seq_idx + 1))
+            self._dedicated_next_seq_idx += 1
+            if self._dedicated_next_seq_idx > seq_idx:
+                return data
+        return None
+
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
+            self._lazy_init()  # indempotent, will not run twice if not needed
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_total_num_seqs", {}))
             msg, self._total_num_seqs = worker.recv()
-- 
2.43.0


From e41dce382a4d229932fe53f509086bf1ef951c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 13/91] fix: DistributeFilesDataset, do not shard again in the
 sub dataset

---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..062542e 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -327,6 +327,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # The files are already sharded here, so the sub dataset must not apply the sharding again.
+        dataset_dict = {**dataset_dict, "_num_shards": 1, "_shard_index": 0}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From 48579e269f257720db5b2a264639c5bf21dadd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 14/91] fix: DistributeFilesDataset, init the same epoch again,
 finish_epoch

---
 returnn/datasets/distrib_files.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 062542e..808e6f7 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -300,7 +300,8 @@ class DistributeFilesDataset(CachedDataset2):
 
         # Cleanup and fill _workers.
         for k, worker in list(self._workers.items()):
-            if k < epoch:
+            # If the worker of this epoch was used already, we need to start again from the beginning.
+            if k < epoch or (k == epoch and worker.used):
                 worker.exit()
                 del self._workers[k]
         for ep_ in range(epoch, epoch + self.preload_next_n_sub_epochs + 1):
@@ -437,6 +438,7 @@ class DistributeFilesDataset(CachedDataset2):
 
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
+        epoch = self.epoch  # will be reset by the super call
         super().finish_epoch(free_resources=free_resources)
         if free_resources:
             for worker in self._workers.values():
@@ -444,8 +446,8 @@ class DistributeFilesDataset(CachedDataset2):
             self._workers.clear()
             self._files_order_cache.clear()
         else:
-            if self.epoch in self._workers:
-                worker = self._workers.pop(self.epoch)
+            if epoch in self._workers:
+                worker = self._workers.pop(epoch)
                 worker.exit()
 
     def get_data_keys(self) -> List[str]:
@@ -533,6 +535,7 @@ class _WorkerProcParent:
         self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
         self._has_num_seqs = False
         self._num_seqs: Optional[int] = None  # remains None if unknown
+        self.used = False  # whether any data was requested
 
     def _lazy_wait_for_init_seq_order(self):
         if self._has_num_seqs:
@@ -550,6 +553,7 @@ class _WorkerProcParent:
     def get_data_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         """get data seq"""
         self._lazy_wait_for_init_seq_order()
+        self.used = True
         self.parent_conn.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = self.parent_conn.recv()
         assert msg == "data_seq"
-- 
2.43.0


From f888d5a6743cf3feca0331f21e0b66bca1f7ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 15/91] fix: NativeCodeCompiler, race conditions with
 concurrent processes

---
 returnn/util/native_code_compiler.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 114bea3..811e6dc 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -194,9 +194,12 @@ class NativeCodeCompiler:
         return h.hexdigest()
 
     def _save_info(self):
+        # Other processes might read this concurrently, so make it atomic.
         filename = self._info_filename
-        with open(filename, "w") as f:
+        tmp_filename = "%s.tmp-%i" % (filename, os.getpid())
+        with open(tmp_filename, "w") as f:
             f.write("%s\n" % util.better_repr(self._info_dict))
+        os.replace(tmp_filename, filename)
 
     def _need_recompile(self):
         """
@@ -235,15 +238,15 @@ class NativeCodeCompiler:
             os.utime(self._info_filename, None)
             return
         lock = util.LockFile(self._mod_path)
-        if not self._need_recompile():  # check again
-            if self.verbose:
-                print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
-            os.utime(self._info_filename, None)
-            return
         if self._should_cleanup_old_mydir and not lock.is_locked():
             if os.path.exists(self._mod_path):
                 self._cleanup_old_path(self._mod_path, reason="need recompile")
         with lock:
+            if not self._need_recompile():  # check again, another process might have compiled it while we waited
+                if self.verbose:
+                    print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
+                os.utime(self._info_filename, None)
+                return
             self._maybe_compile_inner()
 
     def _get_compiler_bin(self):
@@ -299,7 +302,9 @@ class NativeCodeCompiler:
         common_opts += ["-D_GLIBCXX_USE_CXX11_ABI=%i" % (1 if self.use_cxx11_abi else 0)]
         common_opts += ["-D%s=%s" % item for item in sorted(self.c_macro_defines.items())]
         common_opts += ["-g"]
-        opts = common_opts + [self._c_filename, "-o", self._so_filename]
+        # Other processes might use the so file concurrently, so never write it directly, to make it atomic.
+        tmp_so_filename = "%s.tmp-%i" % (self._so_filename, os.getpid())
+        opts = common_opts + [self._c_filename, "-o", tmp_so_filename]
         opts += list(map(self._transform_ld_flag, self.ld_flags))
         cmd_bin = self._get_compiler_bin()
         cmd_args = [cmd_bin] + opts
@@ -321,6 +326,7 @@ class NativeCodeCompiler:
                 print("Your GCC version might be too new. This is a problem with some nvcc versions.")
                 print()
             raise CalledProcessError(returncode=proc.returncode, cmd=cmd_args)
+        os.replace(tmp_so_filename, self._so_filename)
         assert os.path.exists(self._so_filename)
         with open("%s/compile.log" % self._mod_path, "wb") as f:
             if self.verbose:
-- 
2.43.0


From cffa7ecc7bd199fec9a45ca5173def4b0a49fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 16/91] fix: NativeCodeCompiler, do not clean up a directory
 which another process just created

---
 returnn/util/native_code_compiler.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 811e6dc..d54a4ce 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -123,21 +123,29 @@ class NativeCodeCompiler:
             if lock.is_locked():
                 continue
             lock.maybe_remove_old_lockfile()
+            try:
+                dir_age = time.time() - os.path.getmtime(full_dir_path)
+            except OSError:
+                continue  # another process might have cleaned it up concurrently
             info_path = "%s/info.py" % full_dir_path
-            if not os.path.exists(info_path):
-                self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing info.py")
-                continue
             so_path = "%s/%s.so" % (full_dir_path, self.base_name)
-            if not os.path.exists(so_path):
-                self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing so")
+            if not os.path.exists(info_path) or not os.path.exists(so_path):
+                if dir_age < lock.lock_timeout:
+                    continue  # another process might be about to lock it and to compile there
+                self._cleanup_old_path(
+                    full_dir_path,
+                    reason="corrupt dir, missing %s" % ("so" if os.path.exists(info_path) else "info.py"),
+                )
                 continue
-            dt = time.time() - os.path.getmtime(so_path)
+            try:
+                dt = time.time() - os.path.getmtime(so_path)
+            except OSError:
+                continue  # another process might have cleaned it up concurrently
             if dt > cleanup_time_limit_secs:
                 self._cleanup_old_path(full_dir_path, reason="%s old" % util.hms(dt))
 
     def _cleanup_old_path(self, p, reason):
         print("%s delete old, %s: %s" % (self.__class__.__name__, reason, p))
-        assert os.path.exists(p)
         import shutil
 
         try:
-- 
2.43.0


From 92fafd2ef065ddfaeb36ed322744bc032c021ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:42 +0000
Subject: [PATCH 17/91] fix: PyTorch engine, default_float_dtype, do not lose
 precision when loading a checkpoint

---
 returnn/torch/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index b0b1940..3c4071a 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -878,6 +878,9 @@ class Engine(EngineBase):
             epoch = self._start_epoch or 1
 
         self._create_model(epoch=epoch, step=step)
+        if self._default_float_dtype:
+            # Before we load any checkpoint, such that we do not lose precision.
+            self._pt_model.to(dtype=self._default_float_dtype)
 
         non_critical_for_restore_set = set()
         if isinstance(self._orig_model, rf.Module):
@@ -1047,8 +1050,6 @@ class Engine(EngineBase):
                 )
             )
 
-        if self._default_float_dtype:
-            self._pt_model.to(dtype=self._default_float_dtype)
         self._pt_model.to(self._device)
 
         if model_epoch_filename and is_training:
-- 
2.43.0


From 5d1e4595673abd59252a38d08e7e81dc074980fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:25 +0000
Subject: [PATCH 18/91] fix: LearningRateControl.calc_relative_error, handle
 zero error

---
 returnn/learning_rate_control.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/returnn/learning_rate_control.py b/returnn/learning_rate_control.py
index 3d59e3e..09d12e0 100644
--- a/returnn/learning_rate_control.py
+++ b/returnn/learning_rate_control.py
@@ -338,10 +338,14 @@ class LearningRateControl:
             return None
         if old_key != new_key:
             return None
-        if self.relative_error_div_by_old:
-            relative_error = (new_error - old_error) / abs(old_error)
+        error_diff = new_error - old_error
+        error_norm = abs(old_error) if self.relative_error_div_by_old else abs(new_error)
+        if error_diff == 0:
+            relative_error = 0.0
+        elif error_norm == 0:  # e.g. error rate of zero
+            relative_error = float("inf") if error_diff > 0 else float("-inf")
         else:
-            relative_error = (new_error - old_error) / abs(new_error)
+            relative_error = error_diff / error_norm
         if self.relative_error_also_relative_to_learning_rate:
             learning_rate = self.get_most_recent_learning_rate(new_epoch, exclude_current=False)
             if learning_rate > 0:
-- 
2.43.0


From 05a2b42078fadb5aa7809c9508623184c1076057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:12 +0000
Subject: [PATCH 19/91] fix: PyTorch checkpoints, notice all write errors

torch.save with a filename ignores an error in the final flush/close,
e.g. when the disk is full,
so a truncated checkpoint could end up under the final name.
---
 returnn/torch/engine.py  | 23 +++++++++++++----------
 returnn/torch/updater.py | 29 ++++++++++++++++-------------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index 3c4071a..1be5e1a 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -1138,16 +1138,19 @@ class Engine(EngineBase):
             # via util_module.convert_parameters_to_buffers before.
             remaining = set(state_dict.keys()).intersection(self._ignore_param_set)
             assert not remaining, f"_save_model: found remaining params in state_dict to ignore: {remaining}"
-        torch.save(
-            {
-                "model": state_dict,
-                "epoch": self.epoch,
-                "step": self.global_train_step,
-                "effective_learning_rate": self._updater.get_effective_learning_rate() if self._updater else None,
-                "returnn_version": returnn.__long_version__,
-            },
-            tmp_filename,
-        )
+        # Note: Open the file ourselves. torch.save given a filename does not notice an error in the final flush/close
+        # (e.g. disk full).
+        with open(tmp_filename, "wb") as f:
+            torch.save(
+                {
+                    "model": state_dict,
+                    "epoch": self.epoch,
+                    "step": self.global_train_step,
+                    "effective_learning_rate": self._updater.get_effective_learning_rate() if self._updater else None,
+                    "returnn_version": returnn.__long_version__,
+                },
+                f,
+            )
         os.rename(tmp_filename, filename)
 
     def get_pt_optimizer(self) -> Optional[torch.optim.Optimizer]:
diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..3f0914d 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -366,19 +366,22 @@ class Updater:
         tmp_filename = filename + ".tmp_write"
         if os.path.exists(tmp_filename):
             os.unlink(tmp_filename)
-        torch.save(
-            {
-                "optimizer": self.optimizer.state_dict(),
-                "optimizer_class_name": self.optimizer.__class__.__name__,
-                "optimizer_opts": self._optimizer_opts,
-                "param_names": param_names,
-                "epoch": self._current_epoch,
-                "step": self._current_train_step,
-                "effective_learning_rate": self.get_effective_learning_rate(),
-                "returnn_version": returnn.__long_version__,
-            },
-            tmp_filename,
-        )
+        # Note: Open the file ourselves. torch.save given a filename does not notice an error in the final flush/close
+        # (e.g. disk full).
+        with open(tmp_filename, "wb") as f:
+            torch.save(
+                {
+                    "optimizer": self.optimizer.state_dict(),
+                    "optimizer_class_name": self.optimizer.__class__.__name__,
+                    "optimizer_opts": self._optimizer_opts,
+                    "param_names": param_names,
+                    "epoch": self._current_epoch,
+                    "step": self._current_train_step,
+                    "effective_learning_rate": self.get_effective_learning_rate(),
+                    "returnn_version": returnn.__long_version__,
+                },
+                f,
+            )
         os.rename(tmp_filename, filename)
 
     def get_optimizer(self):
-- 
2.43.0


From 445f75edd6c0b3c6bf9b62c91d305a7bddbc155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:42 +0000
Subject: [PATCH 20/91] fix: Torch Updater, weight_decay_custom_include_check,
 pass the full param name

---
 returnn/torch/updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 3f0914d..2f05c37 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -540,7 +540,7 @@ class Updater:
                 custom_include = None
                 if custom_include_check:
                     custom_include = custom_include_check(
-                        module=module, rf_module=rf_module, full_param_name=param_name, param=param
+                        module=module, rf_module=rf_module, full_param_name=full_param_name, param=param
                     )
                 if custom_include is not None:
                     assert isinstance(custom_include, bool), "weight_decay_custom_include_check did not return bool"
-- 
2.43.0


From d22ef4235129b145f940fbe7a0e6993a0c627e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:42 +0000
Subject: [PATCH 21/91] fix: Torch Updater, learning_rate_multiplier was lost
 on the first learning rate update

---
 returnn/torch/updater.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 2f05c37..80eeda6 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -106,6 +106,7 @@ class Updater:
         self.config = config
         self.learning_rate = float(initial_learning_rate)
         self._effective_learning_rate = self.learning_rate
+        self._learning_rate_multiplier = 1.0  # via optimizer opts
         self.network = network
         self._device = device
         # Just set the very first step as initial values here.
@@ -187,7 +188,7 @@ class Updater:
             self._effective_learning_rate = float(lr)
         if self.optimizer:
             for param_group in self.optimizer.param_groups:
-                param_group["lr"] = self._effective_learning_rate
+                param_group["lr"] = self._effective_learning_rate * self._learning_rate_multiplier
 
     def set_current_train_step(self, *, global_train_step: int, epoch: int, epoch_continuous: Optional[float] = None):
         """
@@ -428,8 +429,8 @@ class Updater:
             opt_kwargs["eps"] = opt_kwargs.pop("epsilon")
         if "learning_rate" in opt_kwargs or "lr" in opt_kwargs:
             raise ValueError("'learning_rate' should be set outside of the 'optimizer' dict.")
-        lr = lr * opt_kwargs.pop("learning_rate_multiplier", 1.0)
-        opt_kwargs["lr"] = lr
+        self._learning_rate_multiplier = opt_kwargs.pop("learning_rate_multiplier", 1.0)
+        opt_kwargs["lr"] = lr * self._learning_rate_multiplier
 
         params_or_param_groups = self._get_optimizer_param_groups(optim_class, opt_kwargs)
         optimizer = optim_class(params_or_param_groups, **opt_kwargs)
-- 
2.43.0


From d4b06706a2454636fe2c495a9f7ac3430bffa19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 22/91] fix: RF native ops, Tensor version 1 with default
 feature dim

The result of a native op on such tensor (e.g. extern data) had an invalid feature dim axis,
and then e.g. copy_compatible_to_dims failed with SystemError.
---
 returnn/frontend/_native/tensor_ops.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/_native/tensor_ops.cpp b/returnn/frontend/_native/tensor_ops.cpp
index 78ab360..ca09aab 100644
--- a/returnn/frontend/_native/tensor_ops.cpp
+++ b/returnn/frontend/_native/tensor_ops.cpp
@@ -170,6 +170,11 @@ PyObject* tensorCopyTemplateSimple(
     {
         PyObjectScopedRef feature_dim_axis = PyObject_GetAttrString(tensor, "_feature_dim_axis");
         if(!feature_dim_axis) return NULL;
+        if(feature_dim_axis == modState->notSpecified()) {
+            // tensor.version == 1 with default logic. The result here has version 2, which does not have such defaults.
+            feature_dim_axis = PyObject_GetAttrString(tensor, "feature_dim_axis");
+            if(!feature_dim_axis) return NULL;
+        }
         if(feature_dim_axis != Py_None)
             if(PyObject_SetAttrString(res, "_feature_dim_axis", feature_dim_axis) < 0)
                 return NULL;
@@ -775,12 +780,12 @@ static long _getAxis(const char* funcName, PyObject* tensor, const char* axisNam
     if(axis == Py_None) return -1;
     if(!PyLong_Check(axis)) {
         PyErr_Format(PyExc_TypeError, "%s: expected tensor.%s to be int or None, got %R", funcName, axisName, axis.get());
-        return -1;
+        return -2;
     }
     long axis_ = PyLong_AsLong(axis);
     if(axis_ < 0) {
         PyErr_Format(PyExc_ValueError, "%s: expected tensor.%s to be >= 0, got %R", funcName, axisName, axis.get());
-        return -1;
+        return -2;
     }
     return axis_;
 }
-- 
2.43.0


From eb69f9b5b2d53187653e17502a3c6f953e647f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:52 +0000
Subject: [PATCH 23/91] fix: RF native ops, dims which occur multiple times
 only in the second operand

The loop over b.dims was bound by the number of occurrences of the dim instead of the number of dims,
which resulted in a SystemError.
---
 returnn/frontend/_native/tensor_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/_native/tensor_ops.cpp b/returnn/frontend/_native/tensor_ops.cpp
index ca09aab..6181d6d 100644
--- a/returnn/frontend/_native/tensor_ops.cpp
+++ b/returnn/frontend/_native/tensor_ops.cpp
@@ -1233,7 +1233,7 @@ static PyObject* compareOrCombine(
                 continue;
             }
             int c = 0;
-            for(int j = 0; j < (aDimsCount >= bDimsCount ? aDimsSeq.size() : bDimsCount); ++j) {
+            for(int j = 0; j < (aDimsCount >= bDimsCount ? aDimsSeq.size() : bDimsSeq.size()); ++j) {
                 PyObject* dim_ = PyTuple_GET_ITEM(
                     aDimsCount >= bDimsCount ? aDims.get() : bDims.get(), j);
                 if(dim_ != dim) {
-- 
2.43.0


From ad6ba1b42b93a3d8fa218272b708b5ffc8fb55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:40 +0000
Subject: [PATCH 24/91] fix: RF native ops, compare and maximum/minimum with a
 scalar as first operand

The raw ops allow a scalar only as the second arg, so this resulted in a TypeError.
---
 returnn/frontend/_native/tensor_ops.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/_native/tensor_ops.cpp b/returnn/frontend/_native/tensor_ops.cpp
index 6181d6d..a7496e1 100644
--- a/returnn/frontend/_native/tensor_ops.cpp
+++ b/returnn/frontend/_native/tensor_ops.cpp
@@ -1373,6 +1373,8 @@ static PyObject* compareOrCombineViaCached(
         case TOp_FloorDiv:
         case TOp_Mod:
         case TOp_Pow:
+            needConvertToTensor = false;
+            break;
         case TOp_Maximum:
         case TOp_Minimum:
         case TOp_Eq:
@@ -1380,8 +1382,13 @@ static PyObject* compareOrCombineViaCached(
         case TOp_Lt:
         case TOp_Le:
         case TOp_Gt:
-        case TOp_Ge:
-            needConvertToTensor = false;
+        case TOp_Ge: {
+            // These raw ops allow a scalar only as the second arg.
+            int aIsTensor = PyObject_IsInstance(a, modState->tensorType());
+            if(aIsTensor < 0) return NULL;
+            needConvertToTensor = !aIsTensor;
+            break;
+        }
         default:
             break;
         }
-- 
2.43.0


From ff644a6df2a720c871e85d3569292b44a39b5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:39 +0000
Subject: [PATCH 25/91] fix: RF combine, wrong shortcuts for neutral scalars

0 - x gave x, x ** -1 gave -x, x | True gave x, x // 1 gave x also for float.
(Not used with the native ops.)
---
 returnn/frontend/math_.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/returnn/frontend/math_.py b/returnn/frontend/math_.py
index 8292824..8be52fc 100644
--- a/returnn/frontend/math_.py
+++ b/returnn/frontend/math_.py
@@ -186,22 +186,22 @@ def combine(
     kind = _CombineMap.get(kind, kind)
 
     if isinstance(b, (int, float, bool, numpy.number)):
-        if b == 1 and kind in {"truediv", "floordiv", "pow", "mul"}:
+        if b == 1 and kind in {"truediv", "pow", "mul"}:
             return a
-        if b == -1 and kind in {"truediv", "floordiv", "pow", "mul"}:
+        if b == -1 and kind in {"truediv", "mul"}:
             return -a
         if b == 0 and kind in {"add", "sub"}:
             return a
-        if b and kind in {"logical_and", "logical_or"}:
+        if b and kind == "logical_and":
             return a
     if isinstance(a, (int, float, bool, numpy.number)):
         if a == 1 and kind == "pow":
             return a
         if a == 1 and kind == "mul":
             return b
-        if a == 0 and kind in {"add", "sub"}:
+        if a == 0 and kind == "add":
             return b
-        if a and kind in {"logical_and", "logical_or"}:
+        if a and kind == "logical_and":
             return b
     # Truediv checks for int/int division
     if kind in {"truediv", "/"}:
-- 
2.43.0


From 5ffc6816219c0ba312121715abc52dbb2acb3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:13 +0000
Subject: [PATCH 26/91] fix: FileCache, remove the temp copy file when the copy
 failed

Otherwise the next attempt (e.g. the retry on ENOSPC) failed with an AssertionError
as it expects such a file only from a crashed process, i.e. to be old.
---
 returnn/util/file_cache.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..e48797a 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -354,8 +354,16 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
-                os.rename(dst_tmp_filename, dst_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                    os.rename(dst_tmp_filename, dst_filename)
+                except BaseException:
+                    # Do not leave it behind. Also, the next copy attempt would not expect such a recent file.
+                    try:
+                        os.remove(dst_tmp_filename)
+                    except FileNotFoundError:
+                        pass
+                    raise
 
     @staticmethod
     def _check_existing_copied_file_maybe_cleanup(src_filename: str, dst_filename: str) -> bool:
-- 
2.43.0


From 98bbe96fb98b6618bbb394ac7e3173b20b6efe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:13 +0000
Subject: [PATCH 27/91] fix: FileCache, a successful retry after ENOSPC still
 raised the earlier error

---
 returnn/util/file_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index e48797a..accb13a 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
-- 
2.43.0


From ded8ffc7a04969a56508034cce0921df81c2f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:13 +0000
Subject: [PATCH 28/91] fix: FileCache, keep touch thread alive when some file
 was removed

The lock file is released concurrently to the touch thread.
When the thread dies, all the used files look unused after a while to the cleanup of other processes.
---
 returnn/util/file_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index accb13a..dbad4ae 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -488,8 +488,9 @@ class _TouchFilesThread(Thread):
                 try:
                     os.utime(filename, None)
                 except Exception as exc:
+                    # E.g. the file was released and removed in the meantime (lock files, or by some other cleanup).
+                    # Keep the thread alive in any case, as all the other files must still be kept alive.
                     print(f"FileCache: failed updating mtime of {filename}: {exc}")
-                    raise
             if self.stop.wait(self.interval):
                 return
 
-- 
2.43.0


From b1eece87b26ba89f2bdba93207aee742c81cf1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 29/91] fix: MetaDataset, same epoch again after predefined seq
 order or after loading gave the old order or crashed

---
 returnn/datasets/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..e2e633c 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -290,6 +290,7 @@ class MetaDataset(CachedDataset2):
         self.num_outputs = self.data_dims
 
         self.orig_seq_order_is_initialized = False
+        self._seq_order_is_predefined = False  # whether seq_list_ordered is via given seq_list or seq_order
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
@@ -397,8 +398,11 @@ class MetaDataset(CachedDataset2):
             or self.seq_list_ordered is None
             or seq_list is not None
             or seq_order is not None
+            or self._seq_order_is_predefined
             or self.expected_load_seq_start > 0
+            or self.added_data
         )
+        self._seq_order_is_predefined = seq_list is not None or seq_order is not None
         super(MetaDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         if epoch is None:
             # This is called via initialize() with epoch=None, just to init some other things.
-- 
2.43.0


From 0ff8459903ced75825a96949ab233707415b0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 30/91] fix: ConcatDataset, same epoch again did not reset
 sub-datasets, and loading over the end of a sub-dataset failed

---
 returnn/datasets/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index e2e633c..d07db36 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -786,11 +786,8 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
-        if not need_reinit:
-            return False
 
         if seq_order is not None:
             raise NotImplementedError("Predefined order via sequence indices for ConcatDataset")
@@ -798,7 +795,7 @@ class ConcatDataset(CachedDataset2):
             seq_lists = []
             for dataset in self.datasets:
                 # This depends on the num_seqs of our childs.
-                seq_lists += seq_list[: dataset.num_seqs]
+                seq_lists.append(seq_list[: dataset.num_seqs])
                 seq_list = seq_list[dataset.num_seqs :]
             assert len(seq_list) == 0  # we have consumed all
         else:
@@ -836,11 +833,14 @@ class ConcatDataset(CachedDataset2):
             dataset = self.datasets[dataset_idx]
             dataset_seq_idx_start = sub_start + self.dataset_seq_idx_offsets[dataset_idx]
             dataset_seq_idx_end = end + self.dataset_seq_idx_offsets[dataset_idx]
-            dataset.load_seqs(dataset_seq_idx_start, dataset_seq_idx_end)
             if dataset.is_less_than_num_seqs(dataset_seq_idx_end):
                 # We are still inside this dataset and have loaded everything.
                 # Thus we can stop now.
+                dataset.load_seqs(dataset_seq_idx_start, dataset_seq_idx_end)
                 break
+            # Not all datasets allow to load more than there is.
+            dataset_seq_idx_end = min(dataset_seq_idx_end, dataset.num_seqs)
+            dataset.load_seqs(min(dataset_seq_idx_start, dataset_seq_idx_end), dataset_seq_idx_end)
             # We have reached the end of the dataset.
             if dataset_idx + 1 == len(self.datasets):
                 # We are at the last dataset.
-- 
2.43.0


From f4f26b28210254a53ea21955cc4032a37eb0ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 31/91] fix: CombinedDataset, same epoch again did not reset
 sub-datasets, sampling_sizes failed when initializing with empty sub-datasets

---
 returnn/datasets/meta.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index d07db36..4df0c19 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1037,7 +1037,9 @@ class CombinedDataset(CachedDataset2):
         """
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+        )
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
             epoch=epoch, seq_list=seq_list, seq_order=seq_order
@@ -1063,7 +1065,7 @@ class CombinedDataset(CachedDataset2):
         if total_num_seqs is not None:
             self.dataset_seq_idx_boundaries = self._create_dataset_seq_idx_boundaries()
 
-            if self.sampling_sizes:
+            if self.sampling_sizes and epoch is not None:
                 seq_order = self._get_sampling_seq_order()
             elif self.seq_ordering == "random_dataset":
                 seq_order = self._get_random_dataset_seq_order(total_num_seqs)
-- 
2.43.0


From 9289c83e480c30b477761444b94779916f275b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 32/91] fix: ChunkShuffleDataset, endless recursion in
 get_data_keys, and same epoch again was empty

---
 returnn/datasets/meta.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 4df0c19..65dceac 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1714,13 +1714,10 @@ class ChunkShuffleDataset(CachedDataset2):
         :param list[str]|None seq_list:
         :param list[int]|None seq_order:
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
         super(ChunkShuffleDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.load_seqs_end = 0
         self.dataset_last_load_seq_end = 0
         self.rng.seed(epoch or 1)
-        if not need_reinit:
-            return False
 
         if seq_list is not None or seq_order is not None:
             raise NotImplementedError("predefined order seq_list")
@@ -1851,6 +1848,12 @@ class ChunkShuffleDataset(CachedDataset2):
         """
         assert False, "should not be called"
 
+    def get_data_keys(self):
+        """
+        :rtype: list[str]
+        """
+        return self.dataset.get_data_keys()
+
     def get_target_list(self):
         """
         :rtype: list[str]
-- 
2.43.0


From 238743a19667c02fa8314633969257686a15b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 33/91] fix: rf.pad without value on a dynamic axis: pad with
 zero behind the sequence ends

---
 returnn/torch/frontend/_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 82f2108..9711893 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -529,7 +529,11 @@ class TorchBackend(Backend[torch.Tensor]):
                             out.raw_tensor = torch.where(
                                 mask.copy_compatible_to_dims_raw(out.dims),
                                 out.raw_tensor,
-                                value.copy_compatible_to_dims_raw(out.dims) if isinstance(value, Tensor) else value,
+                                (
+                                    value.copy_compatible_to_dims_raw(out.dims)
+                                    if isinstance(value, Tensor)
+                                    else (0 if value is None else value)
+                                ),
                             )
         return out
 
-- 
2.43.0


From c1a136d054e1e517a8dcee96fb9f14c454d7bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 34/91] fix: torch cross_entropy with logits: bring the logits
 into the dim order of the targets (was the inverse permutation)

---
 returnn/torch/frontend/_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 9711893..615b54e 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -646,8 +646,7 @@ class TorchBackend(Backend[torch.Tensor]):
             logits_dim_order = targets.dims
 
         # We need same order of axes as in target.
-        logits_axes_permutation = [logits_dim_order.index(dim) for dim in logits.dims]
-        logits = logits.copy_transpose(logits_axes_permutation)
+        logits = logits.copy_transpose(logits_dim_order)
 
         raw_cross_entropy = torch.nn.functional.cross_entropy(
             input=logits.raw_tensor, target=targets.raw_tensor, reduction="none"
-- 
2.43.0


From a30088fa9996b2052373e91659a6d1db88e58c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 35/91] fix: torch rf.slice: respect step and negative
 start/end

---
 returnn/torch/frontend/_backend.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 615b54e..ef62c45 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1178,7 +1178,15 @@ class TorchBackend(Backend[torch.Tensor]):
                 end = end.raw_tensor
             if end is None:
                 end = axis.get_dim_value()
-            out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            if isinstance(end, int) and end < 0:
+                end += axis.get_dim_value()
+            if isinstance(start, int) and start < 0:
+                start += axis.get_dim_value()
+            out_raw = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            if step is not None:
+                step = step.raw_tensor if isinstance(step, Tensor) else step
+                out_raw = out_raw[(slice(None),) * axis_int + (slice(None, None, step),)]
+            out.raw_tensor = out_raw
         return out
 
     @staticmethod
-- 
2.43.0


From d9d1d3e4c6584907ab23984e75f6e1cf108dcc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 36/91] fix: torch rf.matmul over dynamic dims which need no
 masking

---
 returnn/torch/frontend/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index ef62c45..0d49692 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1353,7 +1353,7 @@ class TorchBackend(Backend[torch.Tensor]):
         if isinstance(reduce, Dim):
             reduce = [reduce]
 
-        if use_mask and any(dim.dyn_size_ext for dim in reduce):
+        if use_mask and any(dim.need_masking() for dim in reduce):
             raise NotImplementedError("masking in matmul reduce not yet implemented")
 
         a_dims = a.dims
-- 
2.43.0


From ae64358b90b7ae18fbbc62b0250c0997b7edd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 37/91] fix: torch reduce_max/reduce_min over multiple axes,
 reduce_logmeanexp over static axes

---
 returnn/frontend/reduce.py         | 5 ++++-
 returnn/torch/frontend/_backend.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/reduce.py b/returnn/frontend/reduce.py
index 94fdca5..6057e8d 100644
--- a/returnn/frontend/reduce.py
+++ b/returnn/frontend/reduce.py
@@ -117,7 +117,10 @@ def reduce_logmeanexp(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use
     :return: tensor with axis removed
     """
     s = reduce_logsumexp(source, axis=axis, use_mask=use_mask)
-    return s - rf.safe_log(rf.cast(rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device), s.dtype))
+    n = rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device)
+    if not isinstance(n, Tensor):
+        n = rf.constant(n, dims=(), dtype=s.dtype, device=s.device)
+    return s - rf.safe_log(rf.cast(n, s.dtype))
 
 
 def reduce_any(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use_mask: bool = True) -> Tensor[T]:
diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 0d49692..4a472f0 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1508,6 +1508,8 @@ class TorchBackend(Backend[torch.Tensor]):
                     mask = source.get_sequence_mask_broadcast(dim)
                     source.raw_tensor = torch.where(mask, source.raw_tensor, mask_value)
         func = getattr(torch, mode)
+        if mode in ("max", "min") and len(raw_dims) > 1:
+            func = getattr(torch, "a" + mode)  # torch.max/min do not support multiple dims
         if not res_dims and mode != "logsumexp":  # logsumexp requires dim arg
             raw_result = func(source.raw_tensor)
         elif len(raw_dims) == 1:
-- 
2.43.0


From fd6172ab86fae66891cbff4ead382d4e44fcf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 38/91] fix: rf.moments: use_mask also for the mean

---
 returnn/frontend/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/normalization.py b/returnn/frontend/normalization.py
index 16bb70a..8df9836 100644
--- a/returnn/frontend/normalization.py
+++ b/returnn/frontend/normalization.py
@@ -33,7 +33,7 @@ def moments(
         while in most other frameworks, the default is ``correction=0``, which is the biased variance estimation.
     :return: tuple (mean, variance). it has the same shape as the input with the axis removed
     """
-    mean = rf.reduce_mean(x, axis=axis)
+    mean = rf.reduce_mean(x, axis=axis, use_mask=use_mask)
     # stop_gradient does not change the gradient here
     variance = rf.reduce_mean(rf.squared_difference(x, rf.stop_gradient(mean)), axis=axis, use_mask=use_mask)
     if isinstance(correction, Tensor) or correction != 0:
-- 
2.43.0


From 3fe8513faaecc4385dbef61573a3e7080f90fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 39/91] fix: rf.pack_padded/pad_packed when not all dims are
 part of the sequence mask

---
 returnn/frontend/array_.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 32f0a68..ce7f106 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -721,7 +721,7 @@ def pack_padded(
     :return: packed tensor, new packed dim
     """
     assert not enforce_sorted  # not implemented yet...
-    mask = rf.sequence_mask(dims, device=source.device)
+    mask = _sequence_mask_all_dims(dims, device=source.device)
     # Note: We could already calculate out_dim here, as follows:
     #   out_dim = Dim(rf.num_elements_of_shape(dims), name="packed")
     # This could trigger a more efficient calculation path in masked_select,
@@ -738,10 +738,18 @@ def pad_packed(source: Tensor, *, in_dim: Dim, dims: Sequence[Dim]) -> Tensor:
     """
     Inverse of :func:`pack_padded`, i.e. unpack the sequence, i.e. pad it back to the original length.
     """
-    mask = rf.sequence_mask(dims, device=source.device)
+    mask = _sequence_mask_all_dims(dims, device=source.device)
     return rf.masked_scatter(source, mask=mask, in_dim=in_dim, dims=dims)
 
 
+def _sequence_mask_all_dims(dims: Sequence[Dim], *, device: Optional[str] = None) -> Tensor:
+    """
+    :return: like :func:`sequence_mask`, but always with all the given dims, even if there are no padded frames
+    """
+    mask = rf.sequence_mask(dims, device=device)
+    return rf.expand_dims(mask, [d for d in dims if d not in mask.dims])
+
+
 # noinspection PyUnusedLocal
 def gather(
     source: Tensor,
-- 
2.43.0


From 4d54a6d44ae745a30226041a315b9461703ac6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 40/91] fix: rf.scatter: padded frames must not change the
 result for a custom fill_value, int max/min, argmax

---
 returnn/frontend/array_.py | 49 +++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index ce7f106..3023c7d 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -834,40 +834,55 @@ def scatter(
             source, indices=indices, indices_dim=indices_dim, fill_value=fill_value, out_dim=out_dim
         )
     if mode == "argmax":
-        return scatter_argmax(source, indices=indices, indices_dim=indices_dim, invalid_idx=fill_value, out_dim=out_dim)
+        return scatter_argmax(
+            source,
+            indices=indices,
+            indices_dim=indices_dim,
+            invalid_idx=-1 if fill_value is None else fill_value,
+            out_dim=out_dim,
+        )
     if not out_dim:
         assert isinstance(indices, Tensor) and indices.sparse_dim
         out_dim = indices.sparse_dim
-    if fill_value is None:
-        if mode == "sum":
-            fill_value = 0
-        elif mode == "max":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).min
-            else:
-                fill_value = float("-inf")
-        elif mode == "min":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).max
-            else:
-                fill_value = float("inf")
+    if mode == "sum":
+        neutral_value = 0
+    elif mode == "max":
+        if "int" in source.dtype:
+            neutral_value = numpy.iinfo(source.dtype).min
         else:
-            raise ValueError(f"scatter: invalid mode {mode!r}")
+            neutral_value = float("-inf")
+    elif mode == "min":
+        if "int" in source.dtype:
+            neutral_value = numpy.iinfo(source.dtype).max
+        else:
+            neutral_value = float("inf")
+    else:
+        raise ValueError(f"scatter: invalid mode {mode!r}")
+    if fill_value is None:
+        fill_value = neutral_value
     indices_dim = indices_dim if isinstance(indices_dim, (list, tuple)) else [indices_dim]
     if any(dim.need_masking() for dim in indices_dim):
         if use_mask is None:
             use_mask = rf.use_mask_default(default=True, default_false_for_behavior_version_up_to=22)
         if use_mask:
-            source = source.copy_masked(fill_value, dims=indices_dim)
+            source = source.copy_masked(neutral_value, dims=indices_dim)
     else:
         use_mask = False
     # noinspection PyProtectedMember
     out = source._raw_backend.scatter(
         source, indices=indices, indices_dim=indices_dim, mode=mode, fill_value=fill_value, out_dim=out_dim
     )
+    if use_mask and fill_value != neutral_value:
+        # Entries which only got padded frames must still get the fill value.
+        valid = rf.cast(rf.sequence_mask(indices_dim, device=source.device), "int32")
+        valid = rf.expand_dims(valid, [d for d in indices.dims if d not in valid.dims])
+        num_valid = source._raw_backend.scatter(
+            valid, indices=indices, indices_dim=indices_dim, mode="sum", fill_value=0, out_dim=out_dim
+        )
+        out = rf.where(num_valid > 0, out, fill_value)
     if use_mask and mode != "sum":
         # Make sure we don't leave any infinities in the output.
-        out = out.copy_masked(0, dims=[out_dim])
+        out = out.copy_masked(0, dims=[out_dim] if isinstance(out_dim, Dim) else out_dim)
     return out
 
 
-- 
2.43.0


From af572b0564ed99c238ab40fc772c1d88319fb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:45 +0000
Subject: [PATCH 41/91] fix: rf.pool avg with padding, do not count masked
 frames of shorter seqs

---
 returnn/frontend/conv.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/returnn/frontend/conv.py b/returnn/frontend/conv.py
index a81cb05..6b6e9c5 100644
--- a/returnn/frontend/conv.py
+++ b/returnn/frontend/conv.py
@@ -518,17 +518,29 @@ def pool(
             pad_value={"max": float("-inf"), "avg": 0}[mode],
         )
 
-    # noinspection PyProtectedMember
-    out, out_spatial_dims = source._raw_backend.pool(
-        source=source,
+    opts = dict(
         mode=mode,
         pool_size=pool_size,
         padding=padding,
         dilation_rate=dilation_rate,
         strides=strides,
         in_spatial_dims=in_spatial_dims,
-        out_spatial_dims=out_spatial_dims,
     )
+    # noinspection PyProtectedMember
+    out, out_spatial_dims = source._raw_backend.pool(source=source, out_spatial_dims=out_spatial_dims, **opts)
+    if use_mask and mode == "avg" and any(
+        p not in ("valid", 0) for p in ([padding] if isinstance(padding, (str, int)) else padding)
+    ):
+        # The padding is not counted for the average,
+        # so also do not count the masked frames, which are the padding for the shorter seqs.
+        frames = rf.ones([d for d in source.dims if _is_mask_dim(d, in_spatial_dims)], dtype=source.dtype)
+        frames = frames.copy_masked(0, dims=in_spatial_dims)
+        # noinspection PyProtectedMember
+        avg_frames, _ = frames._raw_backend.pool(source=frames, out_spatial_dims=out_spatial_dims, **opts)
+        # Any windows completely outside are also outside of the seq.
+        feature_dim = out.feature_dim
+        out = out / rf.where(avg_frames > 0, avg_frames, 1)
+        out.feature_dim = feature_dim
     if use_mask and mode == "max":
         # We masked with -inf for max-pooling to get correct pooling at the boundaries.
         # However, the resulting tensor might have -inf in it, and it is better to mask it out.
@@ -868,6 +880,15 @@ def _consistent_same_padding(
     return source, in_spatial_dims, 0
 
 
+def _is_mask_dim(dim: Dim, spatial_dims: Sequence[Dim]) -> bool:
+    """
+    :return: whether dim is part of the mask for the spatial dims
+    """
+    return dim in spatial_dims or any(
+        d.dyn_size_ext is not None and dim in d.dyn_size_ext.dims for d in spatial_dims
+    )
+
+
 def _make_sequence(value: Union[int, Sequence[int]], *, nd: int) -> Sequence[int]:
     if isinstance(value, int):
         return [value] * nd
-- 
2.43.0


From 4300ea484c93c4e76491fedbe8fc7a401de16440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:45 +0000
Subject: [PATCH 42/91] fix: rf.stft with window_use_frame_length=False, out
 seq lens

---
 returnn/frontend/signal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/signal.py b/returnn/frontend/signal.py
index a4f4bb7..69f937c 100644
--- a/returnn/frontend/signal.py
+++ b/returnn/frontend/signal.py
@@ -82,7 +82,10 @@ def stft(
         from .conv import make_conv_out_spatial_dims
 
         (out_spatial_dim,) = make_conv_out_spatial_dims(
-            [in_spatial_dim], filter_size=frame_length, strides=frame_step, padding="valid"
+            [in_spatial_dim],
+            filter_size=frame_length if window_use_frame_length else fft_length,
+            strides=frame_step,
+            padding="valid",
         )
     # noinspection PyProtectedMember
     return (
-- 
2.43.0


From dfca66b178abb27dc288342a6fc3b1e290de7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:00 +0000
Subject: [PATCH 43/91] fix: Torch conv with padding=same and dilation,
 consider dilation for the amount of padding

---
 returnn/torch/frontend/_backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 4a472f0..ecde919 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1923,10 +1923,13 @@ class TorchBackend(Backend[torch.Tensor]):
             )
         use_striding = strides and (strides > 1 if isinstance(strides, int) else any(s > 1 for s in strides))
         if padding == "same" and not use_striding and all(d.dimension % 2 == 1 for d in filter_size):
-            if all(filter_size[0].dimension == d.dimension for d in filter_size):  # all same
-                padding = (filter_size[0].dimension - 1) // 2
+            if isinstance(dilation_rate, (list, tuple)):
+                dilation_rates = dilation_rate
             else:
-                padding = tuple(d.dimension // 2 for d in filter_size)
+                dilation_rates = [dilation_rate or 1] * len(filter_size)
+            padding = tuple(d.dimension // 2 * r for d, r in zip(filter_size, dilation_rates))
+            if all(padding[0] == p for p in padding):  # all same
+                padding = padding[0]
         if padding == "same" and (use_striding or torch.onnx.is_in_onnx_export()):
             # padding='same' is not supported for strided convolutions.
             # Moreover, padding specified as a string isn't supported for ONNX exporting as of 2023/05/19.
-- 
2.43.0


From 3f7dd0b1e2617d5d02cb81f659e7feea9160465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:50 +0000
Subject: [PATCH 44/91] fix: relative_positional_encoding for single_step_dim
 with different history lens per seq

---
 returnn/frontend/attention.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/returnn/frontend/attention.py b/returnn/frontend/attention.py
index b0d4991..9e1e707 100644
--- a/returnn/frontend/attention.py
+++ b/returnn/frontend/attention.py
@@ -941,10 +941,8 @@ def relative_positional_encoding(
         arg, feat_dim_ = rf.concat((arg_sin, feat2_dim), (arg_cos, feat2_dim))
         arg, feat_dim_ = rf.replace_dim(arg, in_dim=feat_dim_, out_dim=feat_dim)
         emb = rf.sin(arg)
-        emb.verify_out_shape(
-            {out_spatial_dim, feat_dim} if out_spatial_dim != single_step_dim else {feat_dim},
-            allow_missing_implicit_dims=True,
-        )
+        # For single_step_dim, the offset can be different per seq, so indices might have further (batch) dims.
+        emb.verify_out_shape(indices.dims_set | {feat_dim}, allow_missing_implicit_dims=True)
         emb.feature_dim = feat_dim
         _relative_positional_encoding_cache.set(cache_key, (emb, out_spatial_dim))
         return emb, out_spatial_dim
-- 
2.43.0


From 836596cc08b2061718d269fda824ba0ec9b8378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:14 +0000
Subject: [PATCH 45/91] fix: rf Cache, cached entry where some dim of the key
 is not alive anymore

---
 returnn/frontend/_cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index a6b0075..5065643 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -60,7 +60,11 @@ class Cache:
                 assert isinstance(key_item, DimWrapper)
                 dim_orig = key_item_orig.dim_ref()
                 dim = key_item.dim_ref()
-                assert isinstance(dim_orig, Dim) and isinstance(dim, Dim)
+                assert isinstance(dim, Dim)
+                if dim_orig is None:
+                    # Dim is not alive anymore, thus it also cannot be part of the cached value.
+                    continue
+                assert isinstance(dim_orig, Dim)
                 dim_map[dim_orig] = dim
 
         # noinspection PyShadowingNames
-- 
2.43.0


From 0997872b6aac73a83a3d5561cd8c6f4be4276f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:50 +0000
Subject: [PATCH 46/91] fix: rf Cache, single_step_dim is not the same as some
 other dim of size 1

---
 returnn/frontend/_cache.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index 5065643..86e6019 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -10,7 +10,7 @@ from typing import Optional, Union, Any, Type, Callable, Tuple, Dict
 from weakref import ref
 import tree
 from returnn.util.lru_cache import lru_cache
-from returnn.tensor import Tensor, Dim
+from returnn.tensor import Tensor, Dim, single_step_dim
 import returnn.frontend as rf
 from returnn.frontend._backend import global_backend, get_backend_by_raw_tensor_type, Backend
 
@@ -192,7 +192,11 @@ class DimWrapper:
         if isinstance(other, DimWrapper):
             if self.dim_value is not None:
                 return self.dim_value == other.dim_value
-            return self.dim_ref() == other.dim_ref() and self.dyn_size_ref() is other.dyn_size_ref()
+            return (
+                other.dim_value is None
+                and self.dim_ref() == other.dim_ref()
+                and (self.dyn_size_ref and self.dyn_size_ref()) is (other.dyn_size_ref and other.dyn_size_ref())
+            )
         return False
 
     def __hash__(self):
@@ -200,6 +204,8 @@ class DimWrapper:
 
 
 def _dim_value_for_key(dim: Dim) -> Optional[int]:
+    if dim == single_step_dim:
+        return None  # has a special meaning, not the same as any other dim of size 1
     if dim.size is not None:
         return dim.size
     if dim.dyn_size_ext is not None and not dim.dyn_size_ext.dims:
-- 
2.43.0


From fb4ce2f8dcadfdd1a2b79fd1eb2e2d4894dc94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:50 +0000
Subject: [PATCH 47/91] fix: Dim math cache, static op dynamic dim kept the
 sizes of an earlier batch

---
 returnn/tensor/_dim_extra.py | 58 +++++++++++++-----------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 793e875..a072cdf 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2080,9 +2080,7 @@ class _DimMixin:
         :return: self + other. note that this is not commutative, i.e. different from other + self.
         :rtype: Dim
         """
-        cache_key = ("add", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("add", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2098,9 +2096,7 @@ class _DimMixin:
         :return: other + self
         :rtype: Dim
         """
-        cache_key = ("add_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("add_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2123,9 +2119,7 @@ class _DimMixin:
         :return: self - other
         :rtype: Dim
         """
-        cache_key = ("sub", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("sub", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2141,9 +2135,7 @@ class _DimMixin:
         :return: (-other) + self
         :rtype: Dim
         """
-        cache_key = ("sub_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("sub_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2158,9 +2150,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("mul", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2175,9 +2165,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("mul_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2192,9 +2180,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("floordiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("floordiv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2216,9 +2202,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("truediv_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2233,9 +2217,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("truediv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2250,9 +2232,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("ceildiv_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2267,9 +2247,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("ceildiv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2294,12 +2272,16 @@ class _DimMixin:
     def _cache_dim_math_get(
         self: Dim, op_kind: str, operand: Union[Dim, int]
     ) -> Tuple[_CacheDimMath, Tuple[str, Union[Dim, int]], Optional[Dim]]:
-        same_base = self.get_same_base()
+        owner = self
+        if isinstance(operand, _d.Dim):
+            if operand.is_constant_static_dim():
+                operand = operand.dimension
+            elif self.dimension is not None and operand.dimension is None:
+                # The result depends on the sizes of the operand, so it must become invalid when those are reset
+                # (reset_raw), which does not affect our own cache.
+                owner, operand, op_kind = operand, self, "rev_" + op_kind
         # noinspection PyProtectedMember
-        extra = same_base._make_extra()
-        if isinstance(operand, _d.Dim) and operand.is_constant_static_dim():
-            operand = operand.dimension
-        cache = extra.cache_dim_math
+        cache = owner.get_same_base()._make_extra().cache_dim_math
         cache_key = (op_kind, operand)
         return cache, cache_key, cache.get(cache_key, None)
 
-- 
2.43.0


From 70e4c40732613871ff8c14f1a6aa27cc76226037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:12 +0000
Subject: [PATCH 48/91] fix: Dim math, partial sums were clipped to be
 non-negative

---
 returnn/tensor/_dim_extra.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index a072cdf..52741b1 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1242,9 +1242,9 @@ class _DimMixin:
                     res.raw_tensor = _bin_op_tf(a.raw_tensor, b.raw_tensor if isinstance(b, _t.Tensor) else b)
                 return res
             if kind == "add":
-                return _relu(rf.combine_bc(a, "add", b))
+                return rf.combine_bc(a, "add", b)
             elif kind == "sub":
-                return _relu(rf.combine_bc(a, "sub", b))
+                return rf.combine_bc(a, "sub", b)
             elif kind == "mul":
                 return rf.combine_bc(a, "mul", b)
             elif kind in ("floordiv", "truediv"):  # truediv assumes there is no remainder
@@ -1254,17 +1254,21 @@ class _DimMixin:
             else:
                 raise ValueError("unknown op kind %r" % op.kind)
 
-        def _relu(a):
-            if isinstance(a, _t.Tensor):
-                return rf.relu(a)
-            elif isinstance(a, int):
-                return max(a, 0)
-            else:
-                raise TypeError(f"complete_dyn_size: _relu: unexpected type {type(a)}")
+        def _flat_inputs(op_: Op) -> List[Dim]:
+            # a + b + c is (a + b) + c. The partial sums can be negative, and must not be clipped then.
+            # E.g. a - (b - 1) is (a - b) + 1.
+            res_ = []
+            for x_dim_ in op_.inputs:
+                x_op = x_dim_.derived_from_op
+                if op_.kind == "add" and x_op and x_op.kind == "add" and not tf:
+                    res_ += _flat_inputs(x_op)
+                else:
+                    res_.append(x_dim_)
+            return res_
 
         y: Optional[_t.Tensor] = None  # resulting dyn size
         y_max_value: Optional[_t.Tensor] = None  # resulting dyn size max value
-        inputs = list(op.inputs)
+        inputs = _flat_inputs(op)
         assert inputs
         for x_dim in inputs:
             x_dim: Dim
@@ -1276,6 +1280,10 @@ class _DimMixin:
             y = _bin_op(y, x_dim.dimension if x_dim.dimension is not None else x_dim.dyn_size_ext)
             if not template_only and y.raw_tensor is not None:
                 y_max_value = _bin_op(y_max_value, x_dim.get_dim_value_tensor())
+        if not template_only and backend and not tf and kind in ("add", "sub"):
+            y = rf.relu(y)
+            if y_max_value is not None:
+                y_max_value = rf.relu(y_max_value)
         assert y is not None, f"op {op}?"
         if self.dyn_size_ext is not None:
             assert self.dyn_size_ext.dim_tags == y.dim_tags
-- 
2.43.0


From 03246e7e3b7b8a2c0bbe75b3ac43b421391198be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:38 +0000
Subject: [PATCH 49/91] fix: Dim math, max size when the second operand of sub
 or div is dynamic

---
 returnn/tensor/_dim_extra.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 52741b1..c4fcd26 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1266,6 +1266,19 @@ class _DimMixin:
                     res_.append(x_dim_)
             return res_
 
+        def _is_monotonic() -> bool:
+            # E.g. not a - b or a // b for dynamic b.
+            if kind == "sub" or kind.endswith("div"):
+                if any(x_dim_.dimension is None for x_dim_ in inputs[1:]):
+                    return False
+            return not any(_is_negative_dim(x_dim_) for x_dim_ in inputs if kind == "mul" or x_dim_.dimension is None)
+
+        def _is_negative_dim(x_dim_: Dim) -> bool:
+            if x_dim_.dimension is not None:
+                return x_dim_.dimension < 0
+            x_op = x_dim_.derived_from_op
+            return bool(x_op and x_op.kind == "mul" and any(map(_is_negative_dim, x_op.inputs)))
+
         y: Optional[_t.Tensor] = None  # resulting dyn size
         y_max_value: Optional[_t.Tensor] = None  # resulting dyn size max value
         inputs = _flat_inputs(op)
@@ -1284,6 +1297,9 @@ class _DimMixin:
             y = rf.relu(y)
             if y_max_value is not None:
                 y_max_value = rf.relu(y_max_value)
+        if y_max_value is not None and y.dims and not tf and not _is_monotonic():
+            # The op on the max values of the inputs is not an upper bound for the sizes.
+            y_max_value = rf.reduce_max(y, axis=y.dims, use_mask=False)
         assert y is not None, f"op {op}?"
         if self.dyn_size_ext is not None:
             assert self.dyn_size_ext.dim_tags == y.dim_tags
-- 
2.43.0


From 4bf357d71102faf8f6f66cfe0c004ec5d8600afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:25 +0000
Subject: [PATCH 50/91] fix: Dim math, wrong simplification of d * (a // b) //
 c

---
 returnn/tensor/_dim_extra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index c4fcd26..80b5bcb 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2577,7 +2577,8 @@ class _OpMultTerm:
         if kind.endswith("div") and other == term:
             return i
         op_kind = kind + "_" + ("right" if right else "left")
-        if term.derived_from_op and term.derived_from_op.kind == op_kind:
+        # (a // b) // c == a // (b * c), but not with further factors: d * (a // b) // c != d * (a // (b * c)).
+        if len(self.terms) == 1 and term.derived_from_op and term.derived_from_op.kind == op_kind:
             return i
         return None
 
-- 
2.43.0


From 097932b9bfbf516fd36cee03927b0b38545b14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 51/91] fix: Dim pickling, reset of an unpickled static dim
 failed

---
 returnn/tensor/_dim_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 80b5bcb..f2fade0 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -127,7 +127,7 @@ class _DimExtra:
         d["same_for_batch_ctx"] = {}
         d["cache_dyn_size_ext_dev"] = {}
         d["cache_seq_mask"] = {}
-        d["cache_dim_math"] = {}
+        d["cache_dim_math"] = _CacheDimMath()
         d["kind"] = self.kind.name if self.kind else None
         return d
 
-- 
2.43.0


From 19bd4202ad0aebbd68a6c81e77635ee9ab9ef197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:55 +0000
Subject: [PATCH 52/91] fix: Dim math, terms with negative factor were merged
 to a negative dim

---
 returnn/tensor/_dim_extra.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index f2fade0..aa98314 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2491,6 +2491,10 @@ class _OpMultTerm:
             return True
         return all(term.is_constant_static_dim() for term in self.terms)
 
+    def is_negative(self) -> bool:
+        """has a negative constant factor, i.e. stands for some subtraction"""
+        return bool(self.terms) and self.terms[0].is_constant_static_dim() and self.terms[0].dimension < 0
+
     def copy(self) -> _OpMultTerm:
         """copy"""
         return _OpMultTerm(list(self.terms))
@@ -2802,14 +2806,18 @@ class _OpLinearTerm:
                 # Merge terms
                 a = _OpMultTerm.from_dim_factors(most_recent_term.terms[:-1]).as_dim()
                 b = _OpMultTerm.from_dim_factors(term.terms[:-1]).as_dim()
-                if a.is_constant_static_dim() and not b.is_constant_static_dim():
-                    a = a.dimension
-                elif b.is_constant_static_dim() and not a.is_constant_static_dim():
-                    b = b.dimension
-                res = _OpMultTerm.from_dim((a + b) if right else (b + a))
-                res.extend_mul_div_(term.terms[-1], kind="mul", right=True)
-                self.terms[-1 if right else 0] = res
-                return
+                # Not for e.g. -(c * d) + d, as 1 - c might be negative, which is not possible as a dim.
+                if (a.is_constant_static_dim() and b.is_constant_static_dim()) or not (
+                    most_recent_term.is_negative() or term.is_negative()
+                ):
+                    if a.is_constant_static_dim() and not b.is_constant_static_dim():
+                        a = a.dimension
+                    elif b.is_constant_static_dim() and not a.is_constant_static_dim():
+                        b = b.dimension
+                    res = _OpMultTerm.from_dim((a + b) if right else (b + a))
+                    res.extend_mul_div_(term.terms[-1], kind="mul", right=True)
+                    self.terms[-1 if right else 0] = res
+                    return
         if right:
             self.terms.append(term)
         else:
-- 
2.43.0


From faa760d8425656fbb2a4f89390e2140b5fe573f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:14 +0000
Subject: [PATCH 53/91] fix: rf.pool avg with mask, also for the TF layers
 backend (float constants)

---
 returnn/frontend/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/conv.py b/returnn/frontend/conv.py
index 6b6e9c5..3373b85 100644
--- a/returnn/frontend/conv.py
+++ b/returnn/frontend/conv.py
@@ -539,7 +539,7 @@ def pool(
         avg_frames, _ = frames._raw_backend.pool(source=frames, out_spatial_dims=out_spatial_dims, **opts)
         # Any windows completely outside are also outside of the seq.
         feature_dim = out.feature_dim
-        out = out / rf.where(avg_frames > 0, avg_frames, 1)
+        out = out / rf.where(avg_frames > 0.0, avg_frames, 1.0)
         out.feature_dim = feature_dim
     if use_mask and mode == "max":
         # We masked with -inf for max-pooling to get correct pooling at the boundaries.
-- 
2.43.0


From 89ea93ec86a56cff3f1b1e931a7ab28fc4f9317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:33 +0000
Subject: [PATCH 54/91] fix: rf.scan over a given spatial_dim, xs can be None

---
 returnn/frontend/loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/loop.py b/returnn/frontend/loop.py
index d290f85..8a37649 100644
--- a/returnn/frontend/loop.py
+++ b/returnn/frontend/loop.py
@@ -190,7 +190,7 @@ def scan(
         assert cond is None, f"scan: spatial_dim {spatial_dim} is known, cannot use `cond` {cond}"
         assert max_seq_len is None, f"scan: spatial_dim {spatial_dim} is known, cannot use `max_seq_len` {max_seq_len}"
 
-        xs = tree.map_structure(lambda x: TensorArray.unstack(x, axis=spatial_dim), xs)
+        xs = tree.map_structure(lambda x: TensorArray.unstack(x, axis=spatial_dim) if x is not None else None, xs)
 
         def _cond(_s: Tuple[Tensor, S, Y]) -> Tensor:
             i, *_ = _s
@@ -198,7 +198,7 @@ def scan(
 
         def _body(_s: Tuple[Tensor, S, Y]) -> Tuple[Tensor, S, Y]:
             i, s, ys_ = _s
-            y, s_ = body(tree.map_structure(lambda x: x[i], xs), s)
+            y, s_ = body(tree.map_structure(lambda x: x[i] if x is not None else None, xs), s)
             tree.assert_same_structure(ys_, y)
             ys_ = tree.map_structure(lambda ys__, y_: ys__.push_back(y_) if ys__ is not None else None, ys_, y)
             s_ = rf.nested.mask_nested(
-- 
2.43.0


From e0b77907fba7dff851f2c46f0bd14ffbf5bc4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:33 +0000
Subject: [PATCH 55/91] fix: TensorArray.push_back, eager backends modified the
 original array

---
 returnn/frontend/_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/frontend/_backend.py b/returnn/frontend/_backend.py
index 8161d76..38a71e8 100644
--- a/returnn/frontend/_backend.py
+++ b/returnn/frontend/_backend.py
@@ -1352,8 +1352,7 @@ class Backend(Generic[T]):
         :return: tensor_array
         """
         if cls.executing_eagerly():
-            tensor_array.append(value)
-            return tensor_array
+            return tensor_array + [value]  # new list, TensorArray has a functional API
         raise NotImplementedError
 
     @classmethod
-- 
2.43.0


From 6f27c91dde1a6684b53abb91ad3af4ad3f86628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:19 +0000
Subject: [PATCH 56/91] hook: torch distributed on CPU, guarded by env
 RETURNN_VERIF_DIST_CPU

---
 returnn/torch/engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index 1be5e1a..34fb011 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -107,8 +107,11 @@ class Engine(EngineBase):
             self._torch_distributed_ctx = dist_get_ctx(config=config)
             local_rank = self._torch_distributed_ctx.local_rank()
             print(f"Start running torch distributed training on local rank {local_rank}.", file=log.v2)
-            assert self._device == "cuda", f"torch distributed: unexpected device {self._device!r}"
-            self._device = f"cuda:{local_rank}"
+            if self._device == "cpu" and os.environ.get("RETURNN_VERIF_DIST_CPU"):
+                pass  # verification hook: allow to run the distributed logic on CPU
+            else:
+                assert self._device == "cuda", f"torch distributed: unexpected device {self._device!r}"
+                self._device = f"cuda:{local_rank}"
 
         if self._device == "cuda" or self._device.startswith("cuda:"):
             # Theano and TensorFlow print sth like: Using gpu device 2: GeForce GTX 980 (...)
-- 
2.43.0


From 456e19c3c6602e290a757e88fbad209ede911b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:09 +0000
Subject: [PATCH 57/91] fix: torch_avg_checkpoints, wrong average of shared
 (tied) params

---
 tools/torch_avg_checkpoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/torch_avg_checkpoints.py b/tools/torch_avg_checkpoints.py
index 4afe2f2..b63f2e5 100755
--- a/tools/torch_avg_checkpoints.py
+++ b/tools/torch_avg_checkpoints.py
@@ -80,7 +80,8 @@ def merge_checkpoints(in_ckpts: Sequence[str], out_ckpt: str, extra_state: Optio
             k: str
             v: torch.Tensor
             if k in out_model_state:
-                out_model_state[k] += v
+                # Not inplace: different keys can share the same storage (e.g. shared params).
+                out_model_state[k] = out_model_state[k] + v
             else:
                 out_model_state[k] = v
             out_model_state_num[k] += 1
-- 
2.43.0


From 8b638b73a6b1a17a7f2abe64b7816bf4c033cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 58/91] fix: LmDataset, last line of a txt corpus without
 newline at the end was dropped

---
 returnn/datasets/lm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 74f8d1c..352d688 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -383,7 +383,9 @@ class LmDataset(CachedDataset2):
                 while True:
                     next_new_line = file_mmap.find(b"\n", pos)
                     if next_new_line == -1:
-                        break
+                        if pos >= len(file_mmap):
+                            break
+                        next_new_line = len(file_mmap)  # last line without newline at the end
                     line_len = next_new_line - pos
                     if line_len or not self._skip_empty_lines:
                         orths.append((file_index, pos, line_len))
-- 
2.43.0


From 653a0191d9c2bd5810d95c788d983bd2e72b7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 59/91] fix: LmDataset, num seqs with skipped invalid seqs

---
 returnn/datasets/lm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 352d688..a986f9e 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -502,7 +502,10 @@ class LmDataset(CachedDataset2):
                 num_seqs=len(self._orths_offsets_and_lens),
                 get_seq_len=lambda i: self._orths_offsets_and_lens[i][2],
             )
-        self._num_seqs = len(self.seq_order)
+        if len(self.seq_order) > 0 and self.orth_vocab is None and not self.error_on_invalid_seq:
+            self._num_seqs = None  # not known in advance, as we might skip some invalid seqs
+        else:
+            self._num_seqs = len(self.seq_order)
         self.next_orth_idx = 0
         self.next_seq_idx = 0
         self.num_skipped = 0
-- 
2.43.0


From 00e53a2fab303073e3eb857800ecb4067dba26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 60/91] fix: LmDataset auto_replace_unknown_symbol, do not
 apply orth_replace_map again

---
 returnn/datasets/lm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index a986f9e..5ee718e 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -588,8 +588,8 @@ class LmDataset(CachedDataset2):
 
             elif self.orth_symbols is not None:
                 orth_syms = parse_orthography(orth, **self.parse_orth_opts)
+                orth_syms = sum([self.orth_replace_map.get(s, [s]) for s in orth_syms], [])
                 while True:
-                    orth_syms = sum([self.orth_replace_map.get(s, [s]) for s in orth_syms], [])
                     i = 0
                     # For the character-based case, spaces have been replaced by word_end_symbol.
                     space_symbol = self.word_end_symbol if self.word_end_symbol and not self.word_based else " "
@@ -616,10 +616,10 @@ class LmDataset(CachedDataset2):
                                     file=log.v3,
                                 )
                                 self._reduce_log_auto_replace_unknown_symbols()
-                            self.orth_replace_map[orth_sym] = (
-                                [self.unknown_symbol] if self.unknown_symbol is not None else []
-                            )
-                            continue  # try this seq again with updated orth_replace_map
+                            replace_syms = [self.unknown_symbol] if self.unknown_symbol is not None else []
+                            self.orth_replace_map.setdefault(orth_sym, replace_syms)
+                            orth_syms = sum([replace_syms if s == orth_sym else [s] for s in orth_syms], [])
+                            continue  # try this seq again with replaced symbol
                     break
                 self.num_unknown += orth_syms.count(self.unknown_symbol)
                 if self.word_based:
-- 
2.43.0


From 8a43325ede137720a61893d0eb43e226a511cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 61/91] fix: TranslationDataset.get_data_dim, was the source
 dim for all keys

---
 returnn/datasets/lm.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 5ee718e..be9e4a8 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1722,12 +1722,6 @@ class TranslationDataset(CachedDataset2):
         """
         return True  # all is sparse
 
-    def get_data_dim(self, _key: str) -> int:
-        """
-        :return: the data dim of data entry `_key`
-        """
-        return self.num_inputs  # same dim for all keys
-
     def get_data_dtype(self, key):
         """
         :param str key:
-- 
2.43.0


From 050aff7d4002236eb6bf606b112e0de2b648f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 62/91] fix: TranslationDataset.get_all_tags was incomplete
 while the data is being read

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index be9e4a8..1771b9e 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1704,7 +1704,7 @@ class TranslationDataset(CachedDataset2):
         """
         :rtype: list[str]
         """
-        return [self._tag_prefix + str(line_nr) for line_nr in range(len(self._data[self.main_source_data_key]))]
+        return [self._tag_prefix + str(line_nr) for line_nr in range(self._get_data_len())]
 
     def get_corpus_seq_idx(self, seq_idx):
         """
-- 
2.43.0


From 852d803180212677f0fd40587599222fb566ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 63/91] fix: TranslationDataset seq_list_file, line numbers
 were handled as seq tags

---
 returnn/datasets/lm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 1771b9e..9fd0a23 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1742,12 +1742,12 @@ class TranslationDataset(CachedDataset2):
         """
         super(TranslationDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
 
-        if seq_list is None and self.seq_list:
-            seq_list = self.seq_list
         if seq_order is not None:
             self._seq_order = seq_order
         elif seq_list is not None:
             self._seq_order = [int(s[len(self._tag_prefix) :]) for s in seq_list]
+        elif self.seq_list:
+            self._seq_order = self.seq_list
         else:
             num_seqs = self._get_data_len()
             self._seq_order = self.get_seq_order_for_epoch(
-- 
2.43.0


From 20d647f062058c308c7c7cb61f3e04062480b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 64/91] fix: ConfusionNetworkDataset, race between init and
 reader thread

---
 returnn/datasets/lm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 9fd0a23..7e19bec 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1960,8 +1960,8 @@ class ConfusionNetworkDataset(TranslationDataset):
         """
         self.density = max_density
         super(ConfusionNetworkDataset, self).__init__(**kwargs)
-        if "sparse_weights" not in self._data.keys():
-            self._data["sparse_weights"] = []
+        with self._lock:  # the reader thread is already running
+            self._data.setdefault("sparse_weights", [])
 
     def get_data_keys(self):
         """
@@ -2061,7 +2061,7 @@ class ConfusionNetworkDataset(TranslationDataset):
                 conf_data.append(words_confs)
             with self._lock:
                 self._data[key].extend(idx_data)
-                self._data["sparse_weights"].extend(conf_data)
+                self._data.setdefault("sparse_weights", []).extend(conf_data)
         else:  # the classes
             key = self.main_target_data_key
             data = [
-- 
2.43.0


From d7171556ebe8f3e151faed87984f738dcc926309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 65/91] fix: ConfusionNetworkDataset, empty source_postfix
 added an unknown label

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 7e19bec..de494d0 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -2037,7 +2037,7 @@ class ConfusionNetworkDataset(TranslationDataset):
             words.pop(0)
             return self._load_single_confusion_net(words, vocab, postfix, data_key)
 
-        if postfix is not None:
+        if postfix:
             words.append(postfix.strip())
         unknown_label_id = vocab[self._unknown_label[data_key]]
         words_idxs = numpy.array([vocab.get(w, unknown_label_id) for w in words], dtype=numpy.int32)
-- 
2.43.0


From eff69ffdc62286ef64c4025fb5c16ee110e4145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:18 +0000
Subject: [PATCH 66/91] fix: literal_py_to_pickle, ints beyond 32 bit were
 wrong, invalid numbers aborted the process

---
 returnn/util/py-to-pickle.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index 04e9847..cceb997 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -15,6 +15,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 
 const int protocol = 3;
@@ -503,7 +504,9 @@ public:
 		}
 
 		if(is_float) {
-			double val = std::stod(buf);
+			char* end;
+			double val = strtod(buf.c_str(), &end);
+			if(end == buf.c_str() || *end) { parse_error("float", first); return c; }
 			char pdata[9];
 			pdata[0] = BINFLOAT;
 			_PyFloat_Pack8(val, (unsigned char *)&pdata[1], 0);
@@ -511,7 +514,17 @@ public:
 		}
 		else {
 			int len;
-			long val = std::stol(buf);
+			char* end;
+			errno = 0;
+			long val = strtol(buf.c_str(), &end, 10);
+			if(end == buf.c_str() || *end) { parse_error("int", first); return c; }
+			if(errno == ERANGE || val < INT32_MIN || val > INT32_MAX) {
+				// Does not fit into BININT.
+				write_char(LONG);
+				write_data(buf.data(), buf.length());
+				write_data("L\n", 2);
+				return c;
+			}
 			char pdata[8];
 			pdata[1] = (unsigned char)(val & 0xff);
 			pdata[2] = (unsigned char)((val >> 8) & 0xff);
-- 
2.43.0


From ed6ff162fa87cc19212c8134acc4f8bcca289bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:18 +0000
Subject: [PATCH 67/91] fix: literal_py_to_pickle, whatever followed the value
 was ignored, e.g. 1e5 gave 1

---
 returnn/util/py-to-pickle.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index cceb997..e5243cf 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -335,6 +335,18 @@ public:
 			parse_error("root", res.first);
 			return;
 		}
+		// Nothing else must follow, except of comments.
+		int c = res.first;
+		while(c >= 0 && (isspace(c) || c == '#')) {
+			if(c == '#')
+				while(c >= 0 && c != '\n') c = read_next_char();
+			else
+				c = read_next_char();
+		}
+		if(c >= 0) {
+			parse_error("root, unexpected char after the value", c);
+			return;
+		}
 		end();
 	}
 
@@ -494,8 +506,8 @@ public:
 			c = read_next_char();
 			if(c < 0) break;
 
-			if((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.') {
-				if(c == '.')
+			if((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E') {
+				if(c == '.' || c == 'e' || c == 'E')
 					is_float = true;
 				buf.push_back(c);
 			}
-- 
2.43.0


From 05b60f32e9dbf66c1175d2de910ac336f2fe1f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:18 +0000
Subject: [PATCH 68/91] fix: literal_py_to_pickle, escaped line break in a
 string is a line continuation

---
 returnn/util/py-to-pickle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index e5243cf..27526fc 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -445,14 +445,15 @@ public:
 					escape_hex = 0;
 				}
 				else {
+					escape_mode = Direct;
+					if(c == '\n') continue;  // line continuation
 					char c_;
 					if(c == 'r') c_ = '\r';
 					else if(c == 't') c_ = '\t';
 					else if(c == 'n') c_ = '\n';
-					else if(c == '\\' || c == '"' || c == '\'' || c == '\n') c_ = char(c);
+					else if(c == '\\' || c == '"' || c == '\'') c_ = char(c);
 					else { parse_error("str escaped", c); return; }
 					buf.push_back(c_);
-					escape_mode = Direct;
 				}
 			}
 			else if(escape_mode == EscapeHex) {
-- 
2.43.0


From c3a5063d73d26b5f34cd4c698a8143db68ab5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:18 +0000
Subject: [PATCH 69/91] fix: literal_py_to_pickle, output buffer was too small
 for many short floats or negative ints

---
 returnn/util/literal_py_to_pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/util/literal_py_to_pickle.py b/returnn/util/literal_py_to_pickle.py
index 3837064..53f3db0 100644
--- a/returnn/util/literal_py_to_pickle.py
+++ b/returnn/util/literal_py_to_pickle.py
@@ -42,7 +42,7 @@ def py_to_pickle(s):
         in_bytes = s.encode("utf8")
     in_ = ctypes.create_string_buffer(in_bytes)
     in_len = len(in_bytes)
-    out_len = in_len + 1000  # should always be enough (some buffer len + len of literal Python code)
+    out_len = in_len * 3 + 1000  # should always be enough (worst case are short floats, "1.," -> 9 bytes)
     out_ = ctypes.create_string_buffer(out_len)
 
     global _lib
-- 
2.43.0


From 31b64729b94b02168bac2d080090319a963a4848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 70/91] fix: literal_py_to_pickle, floats like .5

---
 returnn/util/py-to-pickle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index 27526fc..f06966d 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -500,7 +500,7 @@ public:
 	int parse_num(char first) {
 		int c;
 		std::string buf;
-		bool is_float = false;
+		bool is_float = (first == '.');
 		buf.push_back(first);
 
 		while(true) {
-- 
2.43.0


From 156774ba059474835d5b9ffb75a59a9b0edd8979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 71/91] fix: task_system.Pickler (config pickling), functions
 lost their keyword-only defaults

---
 returnn/util/task_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/util/task_system.py b/returnn/util/task_system.py
index e5a6e67..fe805b0 100644
--- a/returnn/util/task_system.py
+++ b/returnn/util/task_system.py
@@ -751,6 +751,8 @@ class Pickler(_BasePickler):
         # to resolve recursive references.
         self.save(assign_obj_attribs)
         d = getNormalDict(obj.__dict__)
+        if isinstance(obj, types.FunctionType) and obj.__kwdefaults__:
+            d["__kwdefaults__"] = obj.__kwdefaults__  # not covered by get_func_tuple
         if obj.__module__:
             d["__module__"] = obj.__module__
         self.save((obj, d))
-- 
2.43.0


From 2dc5b32f58966d7002c0d266477775d930c58464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 72/91] fix: Sprint archive, array.tostring does not exist
 anymore (compressed entries not readable)

---
 returnn/sprint/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/returnn/sprint/cache.py b/returnn/sprint/cache.py
index 103e4db..a225190 100644
--- a/returnn/sprint/cache.py
+++ b/returnn/sprint/cache.py
@@ -450,7 +450,7 @@ class FileArchive:
             a = array.array("b")
             a.fromfile(self.f, comp)
             # unpack
-            b = zlib.decompress(a.tostring(), 15 + 32)
+            b = zlib.decompress(a.tobytes(), 15 + 32)
             # substitute self.f by an anonymous memmap file object
             # restore original file handle after we're done
             backup_f = self.f
@@ -837,7 +837,7 @@ class MixtureSet:
         """
         a = array.array("b")
         a.fromfile(self.f, length)
-        return a.tostring().decode(encoding)
+        return a.tobytes().decode(encoding)
 
     def read_f32(self):
         """
@@ -1005,7 +1005,7 @@ class WordBoundaries:
         """
         a = array.array("b")
         a.fromfile(self.f, length)
-        return a.tostring().decode(encoding)
+        return a.tobytes().decode(encoding)
 
     def __init__(self, filename):
         """
-- 
2.43.0


From db4a271cccd0628b9aaf3040b0d23660cac308b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 73/91] fix: Sprint archive, weighted alignments, wrong number
 of items, and align_raw was ignored

---
 returnn/sprint/cache.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/sprint/cache.py b/returnn/sprint/cache.py
index a225190..2195ff0 100644
--- a/returnn/sprint/cache.py
+++ b/returnn/sprint/cache.py
@@ -395,10 +395,11 @@ class FileArchive:
                         num_items = self.read_packed_U32()
                         if num_items & 1:
                             t = self.read_packed_U32()
-                        num_items /= 2
+                        num_items //= 2
                         while num_items > 0:
-                            emission = self.read_packed_U32()
-                            mix, state = self.get_state(emission)
+                            mix, state = self.read_packed_U32(), None
+                            if typ != "align_raw":
+                                mix, state = self.get_state(mix)
 
                             if version == 1:
                                 weight = self.read_S16() / 65535  # not tested yet
-- 
2.43.0


From e64d2e93fa88e91bfdbf2a11fc361f20057054ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 74/91] fix: Sprint archive, scan_archive did not find any
 entries

---
 returnn/sprint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/sprint/cache.py b/returnn/sprint/cache.py
index 2195ff0..c5863d1 100644
--- a/returnn/sprint/cache.py
+++ b/returnn/sprint/cache.py
@@ -291,7 +291,7 @@ class FileArchive:
         i = 0
         self.f.seek(0, 2)
         end = self.f.tell()
-        self.f.seek(0)
+        self.f.seek(len(self.SprintCacheHeader) + 1)  # skip header and file info table flag
         while self.f.tell() < end:
             if self.read_U32() != self.start_recovery_tag:
                 continue
-- 
2.43.0


From ab9838fdd489e878ccf42b902cfd284780a376ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 75/91] fix: Sprint archive, finalize did not flush

---
 returnn/sprint/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/sprint/cache.py b/returnn/sprint/cache.py
index c5863d1..335e618 100644
--- a/returnn/sprint/cache.py
+++ b/returnn/sprint/cache.py
@@ -247,6 +247,7 @@ class FileArchive:
         Finalize.
         """
         self.write_file_info_table()
+        self.f.flush()
 
     def read_file_info_table(self):
         """
-- 
2.43.0


From 18fed51c6d53ca06109f2651c3a5ec77888e1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 76/91] fix: Sprint archive bundle, ambiguous short segment
 names gave the wrong entry

---
 returnn/sprint/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/sprint/cache.py b/returnn/sprint/cache.py
index 335e618..8fe68fc 100644
--- a/returnn/sprint/cache.py
+++ b/returnn/sprint/cache.py
@@ -607,8 +607,10 @@ class FileArchiveBundle:
         self.archives[filename] = a = FileArchive(filename, must_exists=True, encoding=encoding)
         for f in a.ft.keys():
             self.files[f] = a
-        # noinspection PyProtectedMember
-        self._short_seg_names.update(a._short_seg_names)
+        self._short_seg_names = {os.path.basename(n): n for n in self.files.keys()}
+        if len(self._short_seg_names) < len(self.files):
+            # We don't have a unique mapping, so we cannot use this.
+            self._short_seg_names.clear()
 
     def add_bundle_or_archive(self, filename, encoding="ascii"):
         """
-- 
2.43.0


From 0f87eadc5b1fc32c86e8b175d3fe2c25835eba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 77/91] fix: SprintCacheDataset, sorted seq ordering with a
 bundle file

---
 returnn/datasets/sprint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/sprint.py b/returnn/datasets/sprint.py
index 346a800..e1f5122 100644
--- a/returnn/datasets/sprint.py
+++ b/returnn/datasets/sprint.py
@@ -1207,13 +1207,18 @@ class SprintCacheDataset(CachedDataset2):
             return False
         data0 = self.data["data"]
         assert isinstance(data0, self.SprintCacheReader)
+        from returnn.sprint.cache import FileArchiveBundle
 
         def get_seq_size(s):
             """
             :param int s:
             :rtype: int
             """
-            return data0.sprint_cache.ft[self.seq_list_original[s]].size
+            name = self.seq_list_original[s]
+            archive = data0.sprint_cache
+            if isinstance(archive, FileArchiveBundle):
+                archive = archive.files[name]
+            return archive.ft[name].size
 
         seq_index = self.get_seq_order_for_epoch(epoch, num_seqs=len(self.seq_list_original), get_seq_len=get_seq_size)
         self.seq_list_ordered = [self.seq_list_original[s] for s in seq_index]
-- 
2.43.0


From 8da0cd402678c5be2992537c2ce5901cd7ec673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:08 +0000
Subject: [PATCH 78/91] fix: tensor_array_stack, rec layer in search where all
 hypotheses are empty

---
 returnn/tf/util/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/tf/util/basic.py b/returnn/tf/util/basic.py
index 766ec88..4d696d2 100644
--- a/returnn/tf/util/basic.py
+++ b/returnn/tf/util/basic.py
@@ -6231,7 +6231,10 @@ def tensor_array_stack(ta, start=0, stop=None, name="TensorArrayStack"):
         with tf.name_scope(name):
             if stop is None:
                 stop = ta.size()
-            return ta.gather(tf.range(start, stop), name=name)
+            # Stacking zero entries needs a fully defined static element shape,
+            # so always gather at least one entry if there is any.
+            stop_ = tf.maximum(stop, tf.minimum(start + 1, ta.size()))
+            return ta.gather(tf.range(start, stop_), name=name)[: stop - start]
 
 
 def _tensor_array_select_src_beams(ta, src_beams):
-- 
2.43.0


From 56f7ec39076adf6ecae9c9d2c76c7ad9059ff6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:45 +0000
Subject: [PATCH 79/91] fix: Dim, src_data in boolean context (shift_axis with
 adjust_size_info)

---
 returnn/tensor/_dim_extra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index aa98314..8a86f28 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1712,7 +1712,7 @@ class _DimMixin:
                     )
         # If we have a defined source, and this is a dynamic spatial axis, and it was undefined before,
         # maybe we can overtake the size_placeholder now.
-        if other_same_base.dyn_size is not None and self._extra and self._extra.src_data:
+        if other_same_base.dyn_size is not None and self._extra and self._extra.src_data is not None:
             assert isinstance(self._extra.src_axis, int)
             # Maybe it changed in the meanwhile, so check.
             tag = self._extra.src_data.get_dim_tag(self._extra.src_axis)
@@ -1987,7 +1987,7 @@ class _DimMixin:
             return self._dyn_size_max_value
         if (
             self._extra
-            and self._extra.src_data
+            and self._extra.src_data is not None
             and self._extra.src_axis is not None
             and self._extra.src_data.placeholder is not None
         ):
@@ -2021,7 +2021,7 @@ class _DimMixin:
             return res
         if self.is_batch_dim():
             res = None
-            if self._extra and self._extra.src_data:
+            if self._extra and self._extra.src_data is not None:
                 res = self._extra.src_data.get_batch_dim()
             elif self.batch:
                 res = self.batch.dim
-- 
2.43.0


From 3a7bb157ee9b0ac517cebb284531c6e6e3f9ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:08 +0000
Subject: [PATCH 80/91] fix: PoolLayer, mode avg with use_time_mask

---
 returnn/tf/layers/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 5067abd..1f4713c 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -7135,7 +7135,7 @@ class PoolLayer(_ConcatInputLayer):
             in_dim=in_dim,
             in_spatial_dims=in_spatial_dims,
             use_time_mask=use_time_mask,
-            mask_value={"MAX": float("-inf"), "AVG": 0}[mode],
+            mask_value={"MAX": float("-inf"), "AVG": 0.0}[mode],
         )
         # We want to prepare the input data such that the batch-dim(s) is the very first,
         # the feature-dim is the very last ("NHWC" format) or right after batch-dim ("NCHW"),
-- 
2.43.0


From 997c730fce9096ef67650b4860dbf6025818bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:08 +0000
Subject: [PATCH 81/91] fix: PadLayer, right padding of a dynamic dim

---
 returnn/tf/layers/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 1f4713c..a2fba1c 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -4246,6 +4246,7 @@ class PadLayer(_ConcatInputLayer):
                             f"pad: mode {mode} not implemented with dynamic dims and handle_dynamic_dims=True"
                         )
                     if isinstance(right, Dim) or right > 0:
+                        out_dim.complete_dyn_size()
                         mask = rf.compare_bc(
                             rf.range_over_dim(out_dim),
                             "<",
-- 
2.43.0


From f9061b08c908024cac0fd8a1286c7b600abc269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:08 +0000
Subject: [PATCH 82/91] fix: RemoveLayer, define the dynamic size of the new
 dim

---
 returnn/tf/layers/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index a2fba1c..d1328e6 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -9573,11 +9573,13 @@ class RemoveLayer(LayerBase):
         if not out_dim:
             out_dim = Dim(
                 kind=in_dim.kind,
-                description="%s_removed_items",
+                description="%s_removed_items" % name,
                 dimension=None,
                 derived_from_tag=in_dim,
                 auto_generated=True,
             )
+        if in_dim.dyn_size_ext is not None and out_dim.dyn_size_ext is None:
+            out_dim.dyn_size_ext = in_dim.dyn_size_ext.copy_template()
         return out.copy_template_replace_dim_tag(axis=axis, new_dim_tag=out_dim)
 
 
-- 
2.43.0


From 4a2f9179fdbece6ced58cc7f677ea0b95ce809c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:22 +0000
Subject: [PATCH 83/91] fix: gradient_checkpoint_scope, inplace modification
 after the scope

---
 returnn/torch/util/gradient_checkpoint.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 901a1ce..204595f 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -155,6 +155,7 @@ class gradient_checkpoint_scope:
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.exit_args = (exc_type, exc_val, exc_tb)
         self.record_graph_scope.__exit__(exc_type, exc_val, exc_tb)
+        self.record_graph_scope.graph.store_raw_tensor_versions()
         if self.record_graph_scope.graph.is_any_recorded_tensor_alive():
             # Do not exit saved_tensors_hooks_scope here
             # because we still want to pack any tensors which were captured in our graph
@@ -212,6 +213,9 @@ class gradient_checkpoint_scope:
         # _RecordGraph.__torch_dispatch__ should have recorded all newly created tensors.
         x_ = self.record_graph_scope.graph.graph_tensor_from_weak_raw_tensor.get(x, x)
         if isinstance(x_, _GraphTensor):
+            if x_.raw_tensor_version is not None and x_.raw_tensor_version != x._version:
+                # Modified inplace outside of our scope. We cannot recompute this.
+                return x
             x._RETURNN_grad_ckpt_del_hook = _DelHook(_WeakMethod(self._tensor_del_hook))
         return x_
 
@@ -300,6 +304,15 @@ class _Graph:
                 tensor_ = _GraphTensor(op=op, out_flat_idx=i)
                 self.graph_tensor_from_weak_raw_tensor[out_flat_elem] = tensor_
 
+    def store_raw_tensor_versions(self):
+        """
+        Store the current version of all recorded tensors which are still alive, once we have left the scope.
+        Any later inplace modification is not recorded, and thus would be lost in the recomputation.
+        """
+        for raw_tensor, tensor_ in self.graph_tensor_from_weak_raw_tensor.items():
+            if not raw_tensor.is_inference():  # inference tensors do not track the version
+                tensor_.raw_tensor_version = raw_tensor._version
+
     def maybe_store_rng_state(self, arg: Any):
         """
         Store RNG state if not yet stored for this device.
@@ -393,6 +406,7 @@ class _GraphOp:
 class _GraphTensor:
     op: _GraphOp
     out_flat_idx: int
+    raw_tensor_version: Optional[int] = None  # at the exit of the scope
 
     def get_recomputed(self) -> torch.Tensor:
         """assuming it was recomputed, return the raw tensor."""
-- 
2.43.0


From efa5dff4c711ef40e41d401305e766191fd3d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:18 +0000
Subject: [PATCH 84/91] fix: gradient_checkpoint_scope, other
 saved_tensors_hooks via with statement, or in other threads

---
 returnn/torch/util/gradient_checkpoint.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 204595f..5940c1a 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -580,6 +580,9 @@ def _unregister_custom_saved_tensors_hooks():
 
 
 def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_hooks):
+    if not getattr(_custom_saved_tensors_hooks_tls_ctx, "active", False):
+        # Some other thread has registered itself, but not this thread.
+        return _orig_saved_tensors_hooks_enter(self)
     _custom_saved_tensors_hooks_call_callbacks()
     # The callbacks might have unregistered us. Only add to the stack if we are still active.
     if _custom_saved_tensors_hooks_tls_ctx.active:
@@ -590,13 +593,13 @@ def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_h
 def _custom_saved_tensors_hooks_exit(
     self: torch.autograd.graph.saved_tensors_hooks, exc_type=None, exc_val=None, exc_tb=None
 ):
+    if not getattr(_custom_saved_tensors_hooks_tls_ctx, "active", False):
+        # The `with` statement looks up __exit__ before it calls __enter__.
+        # We get here when __enter__ has unregistered us, or when another thread has registered itself.
+        return _orig_saved_tensors_hooks_exit(self, exc_type, exc_val, exc_tb)
     if self not in _custom_saved_tensors_hooks_tls_ctx.stack:
-        raise Exception(
-            f"saved_tensors_hooks __exit__ mismatch."
-            f" stack {_custom_saved_tensors_hooks_tls_ctx.stack},"
-            f" queued_exits {_custom_saved_tensors_hooks_tls_ctx.queued_exits},"
-            f" got self {self}"
-        )
+        # Entered before we were registered, i.e. below everything on our stack.
+        _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, self)
     _custom_saved_tensors_hooks_tls_ctx.queued_exits.append(self)
     _custom_saved_tensors_hooks_call_callbacks()
     while _custom_saved_tensors_hooks_tls_ctx.stack:
-- 
2.43.0


From 288452e94f40004f8d454569fff87289ec6cf7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:18 +0000
Subject: [PATCH 85/91] fix: gradient_checkpoint_scope, do not exit
 saved_tensors_hooks inside backward

---
 returnn/torch/util/gradient_checkpoint.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 5940c1a..fd8a4d4 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -174,6 +174,8 @@ class gradient_checkpoint_scope:
             return
         if not self.exit_args:
             return
+        if _is_inside_backward():
+            return
         # If we are in the right thread, maybe we can do the cleanup now.
         if self.entered_thread_ref() is threading.current_thread():
             if not self.record_graph_scope.graph.is_any_recorded_tensor_alive():
@@ -238,7 +240,7 @@ class gradient_checkpoint_scope:
     def _custom_saved_tensors_hooks_callback(self) -> bool:
         assert self.entered_thread_ref() is threading.current_thread()
         assert self.exit_args
-        if self.record_graph_scope.graph.is_any_recorded_tensor_alive():
+        if self.record_graph_scope.graph.is_any_recorded_tensor_alive() or _is_inside_backward():
             return True  # keep callback alive
         else:
             self.exit_saved_tensors_hooks_scope()
@@ -523,6 +525,18 @@ def _can_exit_saved_tensors_hooks_inside_hooks() -> bool:
     return False
 
 
+def _is_inside_backward() -> bool:
+    """
+    Inside the backward pass (e.g. when some tensor is deleted because of our recomputation),
+    the autograd engine has its own copy of the thread local state, including the saved_tensors_hooks stack.
+    If we would exit some saved_tensors_hooks here, the hooks would be freed,
+    but the engine restores the previous stack afterward, i.e. it would have dangling pointers to the hooks.
+    So we must delay this.
+    """
+    # noinspection PyProtectedMember
+    return torch._C._current_graph_task_id() != -1
+
+
 _orig_saved_tensors_hooks_enter = torch.autograd.graph.saved_tensors_hooks.__enter__
 _orig_saved_tensors_hooks_exit = torch.autograd.graph.saved_tensors_hooks.__exit__
 _custom_saved_tensors_hooks_tls_ctx = threading.local()
-- 
2.43.0


From 58673efa0479a9505b5b7de1c36a66525c7b30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:27 +0000
Subject: [PATCH 86/91] fix: gradient_checkpoint_scope, ops which return their
 input kept the scope alive

---
 returnn/torch/util/gradient_checkpoint.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index fd8a4d4..71bfd4e 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -299,10 +299,15 @@ class _Graph:
             out_flat_num=len(out_flat),
         )
         self.ops_to_be_recomputed.append(op)
+        inputs_flat, _ = pytree.tree_flatten((args, kwargs))
         for i, out_flat_elem in enumerate(out_flat):
             if isinstance(out_flat_elem, torch.Tensor):
                 if out_flat_elem in self.graph_tensor_from_weak_raw_tensor:
                     continue
+                if any(out_flat_elem is arg for arg in inputs_flat):
+                    # Not created by this op (e.g. lift_fresh). The recomputation would return this same tensor again,
+                    # and then it would keep itself (and our scope) alive forever.
+                    continue
                 tensor_ = _GraphTensor(op=op, out_flat_idx=i)
                 self.graph_tensor_from_weak_raw_tensor[out_flat_elem] = tensor_
 
-- 
2.43.0


From 2ff91ea1f2b1366ed7a245c3a80edc80134f095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:04 +0000
Subject: [PATCH 87/91] fix: gradient_checkpoint_scope, nested scopes

---
 returnn/torch/util/gradient_checkpoint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 71bfd4e..dd74f17 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -562,6 +562,9 @@ def _register_custom_saved_tensors_hooks(*, existing_scope: torch.autograd.graph
     thread = threading.current_thread()
     with _custom_saved_tensors_hooks_lock:
         if thread in _custom_saved_tensors_hooks_registered_threads:
+            if existing_scope not in _custom_saved_tensors_hooks_tls_ctx.stack:
+                # Entered before we were registered (by some nested scope), i.e. below everything on our stack.
+                _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, existing_scope)
             return
         if getattr(_custom_saved_tensors_hooks_tls_ctx, "stack", None) is None:
             _custom_saved_tensors_hooks_tls_ctx.stack = []
-- 
2.43.0


From 7172f14a326430d504676c79a7a216726da25407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:43 +0000
Subject: [PATCH 88/91] fix: rf.scaled_gradient, scaled_gradient_ext, torch
 backend, scale or shift as Tensor

---
 returnn/torch/frontend/_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index ecde919..d8b6a97 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -223,6 +223,8 @@ class TorchBackend(Backend[torch.Tensor]):
         from returnn.torch.util.scaled_gradient import scaled_gradient
 
         out = tensor.copy()
+        if isinstance(scale, Tensor):
+            scale = scale.copy_compatible_to_dims_raw(tensor.dims)
         out.raw_tensor = scaled_gradient(out.raw_tensor, scale=scale)
         return out
 
@@ -240,8 +242,8 @@ class TorchBackend(Backend[torch.Tensor]):
         out = x.copy()
         out.raw_tensor = scaled_gradient_ext(
             out.raw_tensor,
-            scale=scale.raw_tensor if isinstance(scale, Tensor) else scale,
-            shift=shift.raw_tensor if isinstance(shift, Tensor) else shift,
+            scale=scale.copy_compatible_to_dims_raw(x.dims) if isinstance(scale, Tensor) else scale,
+            shift=shift.copy_compatible_to_dims_raw(x.dims) if isinstance(shift, Tensor) else shift,
             scale_shift_by_sum_over_axis=(
                 x.get_axis_from_description(scale_shift_by_sum_over_axis, allow_int=False)
                 if scale_shift_by_sum_over_axis is not None
-- 
2.43.0


From 8dff4975d9e0819459cb247c9c2618c74cb58ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:37 +0000
Subject: [PATCH 89/91] fix: LstmLowMem native op, gradient in backward
 direction with padding

---
 returnn/native_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/native_op.py b/returnn/native_op.py
index 0bb384b..1e262a4 100644
--- a/returnn/native_op.py
+++ b/returnn/native_op.py
@@ -620,7 +620,7 @@ class LstmLowMem(NativeOpGenBase):
           int cell_idx = idx % n_cells;
           int intern_offset = batch_idx * 4 * n_cells + cell_idx;
           float mask_b = mask[batch_idx];
-          float d_y_b = d_y[idx] * mask_b + d_h[idx];
+          float d_y_b = (d_y[idx] + d_h[idx]) * mask_b;
           float d_c_b = d_c[idx] * mask_b;
           float prev_c_b = prev_c[idx];
 
-- 
2.43.0


From 1238e4822afc28e78a0a9bfd866d81e126f9f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 90/91] fix: rf.pad (Torch), non-scalar value tensor, left
 padding and padding by more than one

---
 returnn/torch/frontend/_backend.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index d8b6a97..4510d26 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -496,11 +496,16 @@ class TorchBackend(Backend[torch.Tensor]):
             assert isinstance(value, Tensor) and value.dims  # non-scalar
             assert all(dim in source.dims and dim not in axes for dim in value.dims)
             assert len(axes) == 1  # not implemented otherwise currently...
-            ext_dim = Dim(1, name="ext")
-            value_ext = rf.expand_dim(value, ext_dim)
-            out = TorchBackend.concat(
-                (source, axes[0]), (value_ext, ext_dim), allow_broadcast=True, out_dim=out_dims[0]
+            axis_int = source.dims.index(axes[0])
+            out = source.copy_template_new_dim_tags(
+                [out_dims[0] if dim == axes[0] else dim for dim in source.dim_tags], keep_special_axes=True
             )
+            value_raw = value.copy_compatible_to_dims_raw(source.dims)
+            shape = list(source.raw_tensor.shape)
+            left_raw, right_raw = [
+                value_raw.expand(*shape[:axis_int], int(size), *shape[axis_int + 1 :]) for size in raw_pad[-2:]
+            ]
+            out.raw_tensor = torch.cat([left_raw, source.raw_tensor, right_raw], dim=axis_int)
         if any(dim.need_masking() for dim in out_dims) and handle_dynamic_dims:
             if all(right == 0 for right in raw_pad[1::2]) and mode != "circular":
                 pass  # no masking needed
-- 
2.43.0


From cc3ed44f7ea03731009543a3eb023c6fc24b419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:02 +0000
Subject: [PATCH 91/91] fix: rf.gather (Torch), indices of shape (1, N) with
 transposed strides

torch.gather takes such indices as expanded indices, and then uses the first index for all.
---
 returnn/torch/frontend/_backend.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 4510d26..6dd43bc 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1029,12 +1029,13 @@ class TorchBackend(Backend[torch.Tensor]):
             index_ext_dims = list(source.dims)
             index_ext_dims[axis_int] = index_own_dims_flat
             assert indices.dims == tuple(index_ext_dims)
-            out_raw = torch.gather(
-                source.raw_tensor,
-                dim=axis_int,
-                # torch.gather wants indices as int64, and the indices should be the same device as the source.
-                index=indices.raw_tensor.type(torch.int64).to(source.raw_tensor.device),
-            )
+            # torch.gather wants indices as int64, and the indices should be the same device as the source.
+            indices_raw = indices.raw_tensor.type(torch.int64).to(source.raw_tensor.device)
+            if indices_raw.shape[0] == 1:
+                # torch.gather wrongly takes indices with strides like (1, 1) as expanded indices,
+                # which happens for a transposed tensor of shape e.g. (1, N). So make sure to have standard strides.
+                indices_raw = indices_raw.clone(memory_format=torch.contiguous_format)
+            out_raw = torch.gather(source.raw_tensor, dim=axis_int, index=indices_raw)
             if len(index_own_dims) == 1:
                 pass  # nothing to do
             elif len(index_own_dims) == 0:
-- 
2.43.0

