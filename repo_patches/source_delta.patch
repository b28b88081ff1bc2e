From 5baaf1ab11576bcd4ec153a4a6ac7c52d4689029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 01/50] fix: open a chunk only once it is complete, tolerating
 its removal by another worker sharing the cache

---
 src/litdata/streaming/item_loader.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ea7dcb8..7073f25 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -180,18 +180,18 @@ class PyTreeLoader(BaseItemLoader):
 
         if chunk_filepath != self._chunk_filepath:
             start_time = time()
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+            handle = self._open_chunk(chunk_filepath, filesize_bytes)
             requested_force_download = False
 
-            while not exists:
+            while handle is None:
                 sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+                handle = self._open_chunk(chunk_filepath, filesize_bytes)
 
                 if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
                     self.force_download(chunk_index)
                     requested_force_download = True
 
-                if (time() - start_time) > _MAX_WAIT_TIME:
+                if handle is None and (time() - start_time) > _MAX_WAIT_TIME:
                     raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
 
             self._chunk_filepath = chunk_filepath
@@ -199,7 +199,7 @@ class PyTreeLoader(BaseItemLoader):
             if self._open_handle is not None:
                 self._open_handle.close()
 
-            self._open_handle = open(chunk_filepath, "rb", 0)  # noqa: SIM115
+            self._open_handle = handle
 
         if self._config.get("encryption"):
             data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
@@ -220,6 +220,16 @@ class PyTreeLoader(BaseItemLoader):
 
         return item_data
 
+    @staticmethod
+    def _open_chunk(chunk_filepath: str, filesize_bytes: int) -> Optional[FileIO]:
+        """Open the chunk once it is complete. Another worker sharing the cache can remove it at any time."""
+        try:
+            if os.stat(chunk_filepath).st_size >= filesize_bytes:
+                return open(chunk_filepath, "rb", 0)
+        except FileNotFoundError:
+            pass
+        return None
+
     def _load_encrypted_data(
         self, chunk_filepath: str, chunk_index: int, offset: int, encryption: Optional[Encryption]
     ) -> bytes:
-- 
2.43.0


From 3378ad73f9fa10ccd517a0af71e2c2cb892b4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 02/50] fix: decompress chunks atomically when several workers
 share the cache

---
 src/litdata/streaming/config.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 3740c9b..239f14a 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -13,7 +13,9 @@
 
 import logging
 import os
+import uuid
 from collections import defaultdict
+from contextlib import suppress
 from typing import Any, Dict, List, Optional, Tuple
 
 from litdata.constants import _INDEX_FILENAME
@@ -155,17 +157,25 @@ class ChunksConfig:
         if os.path.exists(target_local_chunkpath):
             return
 
-        with open(local_chunkpath, "rb") as f:
-            data = f.read()
-
-        # delete the files only if they were downloaded
-        if self._downloader is not None:
-            os.remove(local_chunkpath)
+        try:
+            with open(local_chunkpath, "rb") as f:
+                data = f.read()
+        except FileNotFoundError:
+            # another worker sharing the cache is still downloading the chunk or has just decompressed it
+            return
 
         data = self._compressor.decompress(data)
 
-        with open(target_local_chunkpath, "wb") as f:
+        # make the decompressed chunk visible to the other workers only once it is complete
+        temp_chunkpath = f"{target_local_chunkpath}.{uuid.uuid4().hex}.tmp"
+        with open(temp_chunkpath, "wb") as f:
             f.write(data)
+        os.replace(temp_chunkpath, target_local_chunkpath)
+
+        # delete the files only if they were downloaded
+        if self._downloader is not None:
+            with suppress(FileNotFoundError):
+                os.remove(local_chunkpath)
 
     @property
     def intervals(self) -> List[Interval]:
-- 
2.43.0


From c37492280b106cbe75d31b2a7c25bee057236519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 03/50] fix: wait for another process downloading the index
 instead of giving up after one second

---
 src/litdata/streaming/downloader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 3f10499..3d6945e 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -36,6 +36,9 @@ from litdata.streaming.client import S3Client
 
 logger = logging.getLogger("litdata.streaming.downloader")
 
+# How long to wait for another process sharing the cache to download the index. Nothing can be read without it.
+_INDEX_LOCK_TIMEOUT = 120
+
 
 class Downloader(ABC):
     def __init__(
@@ -95,7 +98,7 @@ class S3Downloader(Downloader):
             return
 
         with suppress(Timeout), FileLock(
-            local_filepath + ".lock", timeout=1 if obj.path.endswith(_INDEX_FILENAME) else 0
+            local_filepath + ".lock", timeout=_INDEX_LOCK_TIMEOUT if obj.path.endswith(_INDEX_FILENAME) else 0
         ):
             if self._s5cmd_available and not _DISABLE_S5CMD:
                 env = None
@@ -175,7 +178,7 @@ class GCPDownloader(Downloader):
             return
 
         with suppress(Timeout), FileLock(
-            local_filepath + ".lock", timeout=1 if obj.path.endswith(_INDEX_FILENAME) else 0
+            local_filepath + ".lock", timeout=_INDEX_LOCK_TIMEOUT if obj.path.endswith(_INDEX_FILENAME) else 0
         ):
             if os.path.exists(local_filepath):
                 return
@@ -215,7 +218,7 @@ class AzureDownloader(Downloader):
             return
 
         with suppress(Timeout), FileLock(
-            local_filepath + ".lock", timeout=1 if obj.path.endswith(_INDEX_FILENAME) else 0
+            local_filepath + ".lock", timeout=_INDEX_LOCK_TIMEOUT if obj.path.endswith(_INDEX_FILENAME) else 0
         ):
             if os.path.exists(local_filepath):
                 return
@@ -233,7 +236,7 @@ class LocalDownloader(Downloader):
             raise FileNotFoundError(f"The provided remote_path doesn't exist: {remote_filepath}")
 
         with suppress(Timeout), FileLock(
-            local_filepath + ".lock", timeout=1 if remote_filepath.endswith(_INDEX_FILENAME) else 0
+            local_filepath + ".lock", timeout=_INDEX_LOCK_TIMEOUT if remote_filepath.endswith(_INDEX_FILENAME) else 0
         ):
             if remote_filepath == local_filepath or os.path.exists(local_filepath):
                 return
-- 
2.43.0


From dd7c938e8a4a2d412a0f72afc05019d37098fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 04/50] fix: check the readers of a chunk and delete it in one
 step

---
 src/litdata/streaming/reader.py | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 99c5f70..e8ad932 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -135,28 +135,31 @@ class PrepareChunksThread(Thread):
         can_delete_chunk = self._config.can_delete(chunk_index)
         chunk_filepath, _, _ = self._config[ChunkedIndex(index=-1, chunk_index=chunk_index)]
 
-        remaining_locks = self._remaining_locks(chunk_filepath)
-        if remaining_locks > 0:  # Can't delete this, something has it
-            if _DEBUG:
-                print(f"Skip delete {chunk_filepath} by {self._rank or 0}, current lock count: {remaining_locks}")
-            return
+        # A reader increments the count before it looks for the chunk. Check the count and remove the chunk in one step,
+        # so that the chunk isn't removed under a reader that has just decided it doesn't need to be downloaded.
+        with suppress(Timeout), FileLock(chunk_filepath + ".cnt.lock", timeout=3):
+            remaining_locks = self._remaining_locks(chunk_filepath)
+            if remaining_locks > 0:  # Can't delete this, something has it
+                if _DEBUG:
+                    print(f"Skip delete {chunk_filepath} by {self._rank or 0}, current lock count: {remaining_locks}")
+                return
 
-        if _DEBUG:
-            with open(chunk_filepath + ".tmb", "w+") as tombstone_file:
-                tombstone_file.write(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
+            if _DEBUG:
+                with open(chunk_filepath + ".tmb", "w+") as tombstone_file:
+                    tombstone_file.write(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
 
-        self._item_loader.delete(chunk_index, chunk_filepath)
+            self._item_loader.delete(chunk_index, chunk_filepath)
 
-        if _DEBUG:
-            print(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
+            if _DEBUG:
+                print(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
 
-        for lock_extension in [".lock", ".cnt.lock"]:
-            try:
-                locak_chunk_path = chunk_filepath + lock_extension
-                if os.path.exists(locak_chunk_path):
-                    os.remove(locak_chunk_path)
-            except FileNotFoundError:
-                pass
+            for lock_extension in [".lock", ".cnt.lock"]:
+                try:
+                    locak_chunk_path = chunk_filepath + lock_extension
+                    if os.path.exists(locak_chunk_path):
+                        os.remove(locak_chunk_path)
+                except FileNotFoundError:
+                    pass
 
     def stop(self) -> None:
         """Receive the list of the chunk indices to download for the current epoch."""
-- 
2.43.0


From e42afa0b72e8fb6a327e194bf17d1b5d9c434f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 05/50] fix: count a chunk as requested before looking for it
 in the cache

---
 src/litdata/streaming/config.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 239f14a..2af2121 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -129,21 +129,19 @@ class ChunksConfig:
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
+        if self._downloader is not None and not skip_lock:
+            # Mark the chunk as having been requested by something before looking for it,
+            # so that another worker doesn't delete it in between.
+            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+
         if os.path.exists(local_chunkpath):
+            # We don't want to redownload the base
             self.try_decompress(local_chunkpath)
-            if self._downloader is not None and not skip_lock:
-                # We don't want to redownload the base, but we should mark
-                # it as having been requested by something
-                self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
-                pass
             return
 
         if self._downloader is None:
             return
 
-        if not skip_lock:
-            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
-
         self._downloader.download_chunk_from_index(chunk_index)
 
         self.try_decompress(local_chunkpath)
-- 
2.43.0


From f83ac676027f4edcf1e456e8279f27e6a52860d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 06/50] fix: resume when a worker had consumed all of its
 chunks

---
 src/litdata/streaming/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 63b682a..70b8446 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -368,6 +368,12 @@ class StreamingDataset(IterableDataset):
         self.worker_chunks = workers_chunks[worker_rank]
         self.worker_intervals = workers_intervals[worker_rank]
 
+        # this worker had already consumed all of its chunks when the state was saved
+        if self.worker_next_chunk_index >= self.num_chunks:
+            self.upcoming_indexes = []
+            self.global_index = self.stop_length
+            return
+
         # replay the indexes for the current chunks
         interval = self.worker_intervals[self.worker_next_chunk_index]
         current_indexes = np.arange(interval[1], interval[2])
-- 
2.43.0


From dfcf4b65c39f785db0bb7fb4a134443a9d832812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 07/50] fix: do not modify a saved state when the resumed
 dataset is saved again

---
 src/litdata/streaming/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 70b8446..a51f01f 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -483,8 +483,8 @@ class StreamingDataset(IterableDataset):
             raise RuntimeError("The method `state_dict` should only be called in the main process.")
 
         if self._state_dict is not None:
-            self._state_dict["num_samples_yielded"] = num_samples_yielded
-            return self._state_dict
+            # return a copy, a state saved earlier must not change when more samples are yielded
+            return {**self._state_dict, "num_samples_yielded": num_samples_yielded}
 
         return {
             "num_samples_yielded": num_samples_yielded,
-- 
2.43.0


From 6ace0d30db55323425fa8e4b977db780d0ed918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 08/50] fix: start the next epoch afresh when a resumed epoch
 was left early

---
 src/litdata/streaming/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index c510f46..68a73d3 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -645,6 +645,7 @@ class StreamingDataLoader(DataLoader):
         if isinstance(self.dataset, StreamingDataset):
             assert self.batch_size
             for batch in super().__iter__():
+                self.restore = False  # resumed, the next epoch starts afresh even if this one is left early
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 self._num_samples_yielded_streaming += self.batch_size
                 yield batch
@@ -653,6 +654,7 @@ class StreamingDataLoader(DataLoader):
             assert self.batch_size
             # TODO: Inject a custom collate function to avoid collating the __NUM_SAMPLES_YIELDED__ key
             for batch in super().__iter__():
+                self.restore = False  # resumed, the next epoch starts afresh even if this one is left early
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
                     self._num_samples_yielded_combined[self._latest_worker_idx] = [
-- 
2.43.0


From 32add8b352b7d8790cc8da27548839f236975e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 09/50] fix: start new persistent workers after an epoch was
 left early

---
 src/litdata/streaming/dataloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 68a73d3..780e171 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -619,6 +619,7 @@ class StreamingDataLoader(DataLoader):
         self._worker_idx_iter: Optional[Any] = None
         self._latest_worker_idx = 0
         self.restore = False
+        self._is_epoch_done = True
         super().__init__(
             dataset,
             *args,
@@ -642,6 +643,12 @@ class StreamingDataLoader(DataLoader):
         self.dataset.set_epoch(self.current_epoch)
         logger.debug(_get_log_msg({"name": "iterating_dataloader", "ph": "B"}))
 
+        # Persistent workers which didn't finish their epoch, or which don't know the state to resume from, hold
+        # an outdated dataset: start new ones.
+        if self._iterator is not None and (self.restore or not self._is_epoch_done):
+            self._iterator = None
+        self._is_epoch_done = False
+
         if isinstance(self.dataset, StreamingDataset):
             assert self.batch_size
             for batch in super().__iter__():
@@ -667,6 +674,7 @@ class StreamingDataLoader(DataLoader):
                     yield batch
         logger.debug(_get_log_msg({"name": "iterating_dataloader", "ph": "E"}))
         self.restore = False
+        self._is_epoch_done = True
 
     def __len__(self) -> int:
         if self._dataset_kind == _DatasetKind.Iterable:
-- 
2.43.0


From b259a023a36c892986cfdd19de72571e54324f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:58 +0000
Subject: [PATCH 10/50] fix: resume every worker of a combined dataset at its
 own position, repeating the choices it had made

---
 src/litdata/streaming/combined.py | 59 +++++++++++++++++++++----------
 src/litdata/streaming/dataset.py  |  7 ++++
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index ee5f999..805e10a 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -113,7 +113,7 @@ class CombinedStreamingDataset(IterableDataset):
         return None
 
     def __len__(self) -> Optional[int]:
-        return self.get_len(1, 1)
+        return self.get_len(self.num_workers, self.batch_size or 1)
 
     # total length of the datasets
     def _get_total_length(self) -> int:
@@ -147,6 +147,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def set_num_workers(self, num_workers: int) -> None:
         """Set the current number of workers to the datasets."""
+        self.num_workers = num_workers or 1
         for dataset in self._datasets:
             dataset.set_num_workers(num_workers)
 
@@ -157,6 +158,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         """Reset the state of the dataset."""
+        self._num_samples_yielded = None
         for dataset in self._datasets:
             dataset.reset_state_dict()
 
@@ -175,8 +177,14 @@ class CombinedStreamingDataset(IterableDataset):
 
         num_samples_yielded = None
 
-        if self._num_samples_yielded is not None and worker_env.rank in self._num_samples_yielded:
-            num_samples_yielded = self._num_samples_yielded.get(worker_env.rank, 0)
+        if self._num_samples_yielded is not None:
+            # the number of samples this worker had yielded from each dataset, applies to the resumed epoch only
+            num_samples_yielded = self._num_samples_yielded.get(worker_env.rank, [0 for _ in self._datasets])
+            self._num_samples_yielded = None
+
+        for dataset_idx, dataset in enumerate(self._datasets):
+            if isinstance(dataset, StreamingDataset):
+                dataset._set_num_samples_yielded_by_worker(num_samples_yielded and num_samples_yielded[dataset_idx])
 
         self._iterator = _CombinedDatasetIterator(
             self._datasets,
@@ -249,13 +257,6 @@ class _CombinedDatasetIterator(Iterator):
         self._batch_size = batch_size
         self._is_done = False
 
-        if num_samples_yielded is not None:
-            self._num_samples_yielded = num_samples_yielded
-            for _ in range(sum(num_samples_yielded)):
-                choice_indexes: List[int] = [index for index in self._dataset_indexes if index is not None]
-                choice_weights: List[float] = [w for w in self._weights if w is not None]
-                self._rng.choices(choice_indexes, weights=choice_weights, k=1)
-
         self._use_streaming_dataloader = use_streaming_dataloader
         self._is_done = False
 
@@ -265,19 +266,44 @@ class _CombinedDatasetIterator(Iterator):
         self._samples_yielded_in_batch = 0
         self._cur_dataset_index = -1
 
+        if num_samples_yielded is not None:
+            self._replay_sampling(sum(num_samples_yielded))
+
         logger.debug(
             _get_log_msg({"name": "iterating_combined_dataset", "ph": "B", "cname": ChromeTraceColors.LIGHT_BLUE})
         )
 
+    def _replay_sampling(self, num_samples: int) -> None:
+        """Repeats the choices made for the samples yielded before the state was saved."""
+        counts = [0 for _ in self._datasets]
+        sizes = [getattr(dataset, "stop_length", None) for dataset in self._datasets]
+        for _ in range(num_samples):
+            while True:
+                dataset_index = self._choose_dataset_index()
+                size = sizes[dataset_index]
+                if not self._iterate_over_all or size is None or counts[dataset_index] < size:
+                    break
+                self._remove_dataset(dataset_index)
+            counts[dataset_index] += 1
+
+    def _choose_dataset_index(self) -> int:
+        indexes_left = [index for index in self._dataset_indexes if index is not None]
+        if self._iterate_over_all and len(indexes_left) == 1:
+            return indexes_left[0]
+        return self._get_dataset_index()
+
+    def _remove_dataset(self, dataset_index: int) -> None:
+        self._dataset_indexes[dataset_index] = None
+        self._weights[dataset_index] = None  # type: ignore
+        new_sum = sum([w for w in self._weights if w is not None])
+        self._weights = [None if w is None else w / new_sum for w in self._weights]
+
     def __next__(self) -> Any:
         if self._iterate_over_all:
             while True:
                 try:
                     indexes_left = [index for index in self._dataset_indexes if index is not None]
-                    if len(indexes_left) > 1:
-                        dataset_index = self._get_dataset_index()
-                    elif len(indexes_left) == 1:
-                        dataset_index = indexes_left[0]
+                    dataset_index = self._choose_dataset_index()
                     return self._get_sample(dataset_index)
                 except StopIteration as e:
                     if len(indexes_left) == 1:
@@ -290,10 +316,7 @@ class _CombinedDatasetIterator(Iterator):
                         )
                         raise e
 
-                    self._dataset_indexes[dataset_index] = None
-                    self._weights[dataset_index] = None  # type: ignore
-                    new_sum = sum([w for w in self._weights if w is not None])
-                    self._weights = [None if w is None else w / new_sum for w in self._weights]
+                    self._remove_dataset(dataset_index)
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index a51f01f..1ef8acb 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -184,6 +184,7 @@ class StreamingDataset(IterableDataset):
         self.shuffler: Optional[Shuffle] = None
         self.serializers = serializers
         self._state_dict: Optional[Dict[str, Any]] = None
+        self._num_samples_yielded_by_worker: Optional[int] = None
         self._force_override_state_dict = force_override_state_dict
         # Has slightly different meaning in the context of the dataset
         # We consider `num_workers = 0` from `torch.utils.DataLoader` still as 1 worker (the main process)
@@ -354,6 +355,8 @@ class StreamingDataset(IterableDataset):
 
         # replay sampling from each worker / chunks using the batch size
         indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers)
+        if self._num_samples_yielded_by_worker is not None:
+            indexes[self.worker_env.rank] = self._num_samples_yielded_by_worker
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
@@ -508,6 +511,10 @@ class StreamingDataset(IterableDataset):
             # the state is restored within the workers
             self._state_dict = state_dict
 
+    def _set_num_samples_yielded_by_worker(self, num_samples_yielded: Optional[int]) -> None:
+        # The workers of a combined dataset take different numbers of samples from its datasets
+        self._num_samples_yielded_by_worker = num_samples_yielded
+
     def reset_state_dict(self) -> None:
         self._state_dict = None
 
-- 
2.43.0


From 221a148c3ca3849db616e8935c9ed9824d89d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:52 +0000
Subject: [PATCH 11/50] fix: resume on the right worker and sample once some of
 the workers are exhausted

---
 src/litdata/streaming/dataloader.py | 15 +++++++++++++--
 src/litdata/streaming/dataset.py    | 25 ++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 780e171..915b397 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -494,6 +494,12 @@ class _StreamingMultiProcessingDataLoaderIter(_MultiProcessingDataLoaderIter):
         else:
             super()._try_put_index()
 
+    def _process_data(self, data: Any, *worker_idx: int) -> Any:
+        # Keep track of the worker which loaded the batch, they don't alternate anymore once one of them is exhausted.
+        if worker_idx:
+            self._loader._yielding_worker_idx = worker_idx[0]
+        return super()._process_data(data, *worker_idx)
+
 
 class StreamingDataLoaderCollateFn:
     def __init__(self, collate_fn: Optional[Callable] = None) -> None:
@@ -620,6 +626,7 @@ class StreamingDataLoader(DataLoader):
         self._latest_worker_idx = 0
         self.restore = False
         self._is_epoch_done = True
+        self._yielding_worker_idx: Optional[int] = None
         super().__init__(
             dataset,
             *args,
@@ -653,7 +660,7 @@ class StreamingDataLoader(DataLoader):
             assert self.batch_size
             for batch in super().__iter__():
                 self.restore = False  # resumed, the next epoch starts afresh even if this one is left early
-                self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
+                self._latest_worker_idx = self._next_worker_idx()
                 self._num_samples_yielded_streaming += self.batch_size
                 yield batch
         else:
@@ -662,7 +669,7 @@ class StreamingDataLoader(DataLoader):
             # TODO: Inject a custom collate function to avoid collating the __NUM_SAMPLES_YIELDED__ key
             for batch in super().__iter__():
                 self.restore = False  # resumed, the next epoch starts afresh even if this one is left early
-                self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
+                self._latest_worker_idx = self._next_worker_idx()
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
                     self._num_samples_yielded_combined[self._latest_worker_idx] = [
                         sample[-1].item() if self.batch_size > 1 else sample.item()
@@ -676,6 +683,10 @@ class StreamingDataLoader(DataLoader):
         self.restore = False
         self._is_epoch_done = True
 
+    def _next_worker_idx(self) -> int:
+        worker_idx = next(self._worker_idx_iter)  # type: ignore
+        return worker_idx if self._yielding_worker_idx is None else self._yielding_worker_idx
+
     def __len__(self) -> int:
         if self._dataset_kind == _DatasetKind.Iterable:
             length = self._IterableDataset_len_called = self.dataset.get_len(self.num_workers, self.batch_size)
diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 1ef8acb..d96c4f2 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -354,7 +354,11 @@ class StreamingDataset(IterableDataset):
         worker_end = worker_start + num_workers
 
         # replay sampling from each worker / chunks using the batch size
-        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers)
+        sizes = [
+            sum(interval[2] - interval[1] for interval in intervals)
+            for intervals in workers_intervals[worker_start:worker_end]
+        ]
+        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers, sizes)
         if self._num_samples_yielded_by_worker is not None:
             indexes[self.worker_env.rank] = self._num_samples_yielded_by_worker
         chunks_index, indexes = _replay_chunks_sampling(
@@ -666,8 +670,23 @@ def is_integer(value: str) -> bool:
         return False
 
 
-def _replay_sampling(num_samples_yielded: int, batch_size: int, num_workers: int) -> Dict[int, int]:
-    """This function replays the sampling from the dataloader."""
+def _replay_sampling(
+    num_samples_yielded: int, batch_size: int, num_workers: int, sizes: Optional[List[int]] = None
+) -> Dict[int, int]:
+    """This function replays the sampling from the dataloader.
+
+    The workers yield their batches in turn, those which have yielded all of their samples (`sizes`) are skipped.
+    """
+    if sizes is not None and sum(sizes) > 0:
+        indexes = dict.fromkeys(range(num_workers), 0)
+        while num_samples_yielded > 0 and any(indexes[idx] < sizes[idx] for idx in indexes):
+            for worker_idx in indexes:
+                if num_samples_yielded > 0 and indexes[worker_idx] < sizes[worker_idx]:
+                    num_samples = min(batch_size, num_samples_yielded)
+                    indexes[worker_idx] = min(indexes[worker_idx] + num_samples, sizes[worker_idx])
+                    num_samples_yielded -= batch_size
+        return indexes
+
     divisible_num_batches_yielded = num_samples_yielded // (num_workers * batch_size)
 
     indexes = {}
-- 
2.43.0


From fa481c6e7a01d4b389b118c137c3bcc76e6a2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 12/50] fix: keep to the cache size when chunks are consumed as
 fast as they are downloaded

---
 src/litdata/streaming/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index e8ad932..66bf824 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -191,8 +191,9 @@ class PrepareChunksThread(Thread):
         return
 
     def _can_delete_chunk(self) -> bool:
-        if self._delete_chunks_when_processed:
-            return self._pre_download_counter >= self._max_pre_download - 1
+        if self._delete_chunks_when_processed and self._pre_download_counter >= self._max_pre_download - 1:
+            return True
+        # The counter stays low when the chunks are consumed as fast as they are downloaded.
         return (
             self._max_cache_size is not None
             and _get_folder_size(self._config._cache_dir, self._config) >= self._max_cache_size
-- 
2.43.0


From 590ba64a8e01506a6b001e79dc1fdf89c2815023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 13/50] fix: do not download a chunk again that is already
 decompressed in the cache

---
 src/litdata/streaming/config.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 2af2121..a50acbe 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -142,6 +142,12 @@ class ChunksConfig:
         if self._downloader is None:
             return
 
+        if self._compressor is not None and os.path.exists(
+            local_chunkpath.replace(f".{self._compressor_name}", "")
+        ):
+            # The chunk has already been downloaded and decompressed
+            return
+
         self._downloader.download_chunk_from_index(chunk_index)
 
         self.try_decompress(local_chunkpath)
@@ -153,6 +159,8 @@ class ChunksConfig:
         target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
 
         if os.path.exists(target_local_chunkpath):
+            # another worker may have decompressed the chunk while it was downloaded again
+            self._remove_compressed(local_chunkpath)
             return
 
         try:
@@ -170,6 +178,9 @@ class ChunksConfig:
             f.write(data)
         os.replace(temp_chunkpath, target_local_chunkpath)
 
+        self._remove_compressed(local_chunkpath)
+
+    def _remove_compressed(self, local_chunkpath: str) -> None:
         # delete the files only if they were downloaded
         if self._downloader is not None:
             with suppress(FileNotFoundError):
-- 
2.43.0


From e59e2a0875adc93ba8a56537ab88bce85f1f4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 14/50] fix: read a chunk again after the epoch that ended with
 it

---
 src/litdata/streaming/item_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 7073f25..3ec9cbb 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -311,6 +311,8 @@ class PyTreeLoader(BaseItemLoader):
         if self._open_handle is not None:
             self._open_handle.close()
             self._open_handle = None
+        # the chunk needs to be opened again before it is read again
+        self._chunk_filepath = None
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         logger.debug(
-- 
2.43.0


From c6c73be3e00adcf94ae055741ac81a8c52e87ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 15/50] fix: clear a cache of an earlier version while other
 processes start

---
 src/litdata/utilities/dataset_utilities.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index ec3bb73..3bd2a32 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -5,6 +5,7 @@ import os
 import shutil
 import tempfile
 import time
+from contextlib import suppress
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -172,15 +173,22 @@ def _read_updated_at(
 def _clear_cache_dir_if_updated(input_dir_hash_filepath: str, updated_at_hash: str) -> None:
     """Clear cache dir if it is updated.
 
-    If last_updated has changed and /cache/chunks/{HASH(input_dir.url)} isn't empty, we remove all the files and then
-    create the cache.
+    If last_updated has changed and /cache/chunks/{HASH(input_dir.url)} isn't empty, we remove all the files of the other
+    versions and then create the cache.
 
     """
     if os.path.exists(input_dir_hash_filepath):
-        # check if it only contains one directory with updated_at_hash
-        dir_list = os.listdir(input_dir_hash_filepath)
-        if not (len(dir_list) == 1 and dir_list[0] == updated_at_hash):
-            shutil.rmtree(input_dir_hash_filepath)
+        # Remove everything but the directory with updated_at_hash.
+        # Several processes can do so at the same time, some of them may already be filling their cache.
+        for name in os.listdir(input_dir_hash_filepath):
+            if name == updated_at_hash:
+                continue
+            path = os.path.join(input_dir_hash_filepath, name)
+            if os.path.isdir(path):
+                shutil.rmtree(path, ignore_errors=True)
+            else:
+                with suppress(FileNotFoundError):
+                    os.remove(path)
 
 
 def _try_create_cache_dir(
-- 
2.43.0


From 861fa51fc66c5d0fd2c871fa4cad966570efb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 16/50] fix: shuffle the items of a worker without converting
 them to an array

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1cade64..18973d3 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -359,7 +359,11 @@ def _map_items_to_workers_weighted(
         else:
             print(f"Worker {worker_id} gets ({len(worker_items[worker_id])}) items for a total weight of {size}.")
 
-    return [np.random.permutation(worker_items[worker_id]).tolist() for worker_id in worker_ids_this_node]
+    # permute the positions, as converting the items to an array would alter or reject some of them
+    return [
+        [worker_items[worker_id][i] for i in np.random.permutation(len(worker_items[worker_id]))]
+        for worker_id in worker_ids_this_node
+    ]
 
 
 def _get_num_bytes(item: Any, base_path: str) -> int:
-- 
2.43.0


From 75fb2ef7440cd948d485ce3620cdeb2058a84927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 17/50] fix: multi-node optimize merges each node's index once,
 when it is complete

---
 src/litdata/processing/data_processor.py | 35 ++++++++++++++++++++----
 src/litdata/streaming/writer.py          |  3 +-
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 18973d3..94f74c6 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -116,6 +116,18 @@ def _wait_for_disk_usage_higher_than_threshold(input_dir: str, threshold_in_gb:
     return
 
 
+def _copy_file(source: str, destination: str) -> None:
+    """Copy a file such that the destination never exists with only a part of its content."""
+    temporary = f"{destination}.{os.getpid()}.tmp"
+    try:
+        shutil.copy(source, temporary)
+        os.replace(temporary, destination)
+    except BaseException:
+        with suppress(FileNotFoundError):
+            os.remove(temporary)
+        raise
+
+
 #
 # `_download_data_target` function accepts two queues:
 # 1. `queue_in`: A queue that receives the (index, paths) from where the data is to be downloaded.
@@ -284,7 +296,7 @@ def _upload_fn(
             output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
-            shutil.copy(local_filepath, output_filepath)
+            _copy_file(local_filepath, output_filepath)
         else:
             raise ValueError(f"The provided {output_dir.path} isn't supported.")
 
@@ -908,7 +920,9 @@ class DataChunkRecipe(DataRecipe):
 
         merge_cache = Cache(cache_dir, chunk_bytes=1)
         node_rank = _get_node_rank()
-        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, getattr(self, "existing_index", None))
+        # the chunks to append to must be listed once, by the first node
+        existing_index = getattr(self, "existing_index", None) if node_rank == 0 else None
+        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, existing_index)
 
         self._upload_index(output_dir, cache_dir, num_nodes, node_rank)
 
@@ -957,8 +971,9 @@ class DataChunkRecipe(DataRecipe):
                 local_filepath,
                 os.path.join(output_dir.url, os.path.basename(local_filepath)),
             )
-        elif output_dir.path and os.path.isdir(output_dir.path):
-            shutil.copyfile(local_filepath, os.path.join(output_dir.path, os.path.basename(local_filepath)))
+        elif output_dir.path:
+            os.makedirs(output_dir.path, exist_ok=True)
+            _copy_file(local_filepath, os.path.join(output_dir.path, os.path.basename(local_filepath)))
 
         if num_nodes == 1 or node_rank is None:
             return
@@ -977,13 +992,23 @@ class DataChunkRecipe(DataRecipe):
                     _wait_for_file_to_exist(remote_filepath, storage_options=self.storage_options)
                     fs_provider = _get_fs_provider(remote_filepath, self.storage_options)
                     fs_provider.download_file(remote_filepath, node_index_filepath)
-                elif output_dir.path and os.path.isdir(output_dir.path):
+                elif output_dir.path:
+                    while not os.path.exists(remote_filepath):
+                        sleep(2)
                     shutil.copyfile(remote_filepath, node_index_filepath)
 
             merge_cache = Cache(cache_dir, chunk_bytes=1)
             merge_cache._merge_no_wait()
             self._upload_index(output_dir, cache_dir, 1, None)
 
+            # The indexes of the nodes aren't needed anymore and a later run shouldn't take them for its own.
+            for node_rank in range(num_nodes):
+                node_index_filename = f"{node_rank}-{_INDEX_FILENAME}"
+                if obj.scheme in _SUPPORTED_PROVIDERS:
+                    fs_provider.delete_file_or_directory(os.path.join(output_dir.url, node_index_filename))
+                else:
+                    os.remove(os.path.join(output_dir.path, node_index_filename))
+
 
 class MapRecipe(DataRecipe):
     @abstractmethod
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2771106..a83380a 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -498,7 +498,8 @@ class BinaryWriter:
                 if config is None:
                     config = data["config"]
 
-                elif config != data["config"]:
+                # a node without any sample doesn't have a config
+                elif data["config"] is not None and config != data["config"]:
                     raise Exception(
                         "The config isn't consistent between chunks. This shouldn't have happened."
                         f"Found {config}; {data['config']}."
-- 
2.43.0


From e640ca3e597100ec5d971ded18057e1e191573e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 18/50] fix: clear only the output location, once, completely
 and its index first

---
 src/litdata/streaming/fs_provider.py | 49 +++++++++++++++-------------
 src/litdata/streaming/resolver.py    | 18 +++++-----
 2 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c85ccb8..b70d202 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -15,7 +15,7 @@ from abc import ABC, abstractmethod
 from typing import Any, Dict, List, Optional, Tuple
 from urllib import parse
 
-from litdata.constants import _GOOGLE_STORAGE_AVAILABLE, _SUPPORTED_PROVIDERS
+from litdata.constants import _GOOGLE_STORAGE_AVAILABLE, _INDEX_FILENAME, _SUPPORTED_PROVIDERS
 from litdata.streaming.client import S3Client
 
 
@@ -114,7 +114,8 @@ class GCPFsProvider(FsProvider):
         bucket = self.client.bucket(bucket_name)
         # if it's a single file, only one will match the prefix
         blobs = bucket.list_blobs(prefix=blob_path)
-        for blob in blobs:
+        # the index first: it should never list chunks which are already gone
+        for blob in sorted(blobs, key=lambda blob: not blob.name.endswith(_INDEX_FILENAME)):
             blob.delete()
 
     def exists(self, path: str) -> bool:
@@ -127,7 +128,7 @@ class GCPFsProvider(FsProvider):
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
         bucket = self.client.bucket(bucket_name)
         # List blobs with the given prefix
-        blobs = bucket.list_blobs(prefix=blob_path)
+        blobs = bucket.list_blobs(prefix=blob_path.rstrip("/") + "/")
         # If no blobs are found, it's considered empty
         return not any(blobs)
 
@@ -146,6 +147,17 @@ class S3FsProvider(FsProvider):
         with open(local_path, "wb") as f:
             self.client.client.download_fileobj(bucket_name, blob_path, f)
 
+    def _list_keys(self, bucket_name: str, prefix: str) -> List[str]:
+        """List all the objects under the given prefix. A single request doesn't return more than 1000 of them."""
+        keys: List[str] = []
+        page: Dict[str, Any] = {}
+        while True:
+            objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=prefix, **page)
+            keys.extend(obj["Key"] for obj in objects.get("Contents", []))
+            if not objects.get("IsTruncated"):
+                return keys
+            page = {"ContinuationToken": objects["NextContinuationToken"]}
+
     def download_directory(self, remote_path: str, local_directory_name: str) -> str:
         """Download all objects under a given S3 prefix (directory) using the existing client."""
         bucket_name, remote_directory_name = get_bucket_and_path(remote_path, "s3")
@@ -156,21 +168,16 @@ class S3FsProvider(FsProvider):
 
         saved_file_dir = "."
 
-        # List objects under the given prefix
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=remote_directory_name)
+        for key in self._list_keys(bucket_name, remote_directory_name):
+            local_filename = os.path.join(local_directory_name, key)
 
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                local_filename = os.path.join(local_directory_name, obj["Key"])
+            # Ensure parent directories exist
+            os.makedirs(os.path.dirname(local_filename), exist_ok=True)
 
-                # Ensure parent directories exist
-                os.makedirs(os.path.dirname(local_filename), exist_ok=True)
-
-                # Download each file
-                with open(local_filename, "wb") as f:
-                    self.client.client.download_fileobj(bucket_name, obj["Key"], f)
-                    saved_file_dir = os.path.dirname(local_filename)
+            # Download each file
+            with open(local_filename, "wb") as f:
+                self.client.client.download_fileobj(bucket_name, key, f)
+                saved_file_dir = os.path.dirname(local_filename)
 
         return saved_file_dir
 
@@ -190,13 +197,9 @@ class S3FsProvider(FsProvider):
         """Delete the file or the directory."""
         bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
-        # List objects under the given path
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
-
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+        # the index first: it should never list chunks which are already gone
+        for key in sorted(self._list_keys(bucket_name, blob_path), key=lambda key: not key.endswith(_INDEX_FILENAME)):
+            self.client.client.delete_object(Bucket=bucket_name, Key=key)
 
     def exists(self, path: str) -> bool:
         import botocore
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 6233f60..d33e943 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -272,6 +272,9 @@ def _assert_dir_has_index_file(
     if not isinstance(output_dir, Dir):
         raise ValueError("The provided output_dir isn't a Dir Object.")
 
+    # The first node clears the folder before it shares its `output_dir`, so before any other node stores something.
+    is_first_node = int(os.getenv("DATA_OPTIMIZER_NODE_RANK", 0)) == 0
+
     if output_dir.url is None:
         # this is a local directory
         assert output_dir.path
@@ -286,6 +289,9 @@ def _assert_dir_has_index_file(
                     "\n HINT: If you want to append/overwrite to the existing dataset, use `mode='append | overwrite'`."
                 )
 
+            if not is_first_node:
+                return
+
             # delete index.json file and chunks
             if os.path.exists(os.path.join(output_dir.path, "index.json")):
                 # only possible if mode = "overwrite"
@@ -293,7 +299,7 @@ def _assert_dir_has_index_file(
 
             if mode == "overwrite" or (mode is None and not use_checkpoint):
                 for file in os.listdir(output_dir.path):
-                    if file.endswith(".bin"):
+                    if file.endswith((".bin", "-index.json")):
                         os.remove(os.path.join(output_dir.path, file))
 
                 # delete checkpoints
@@ -318,11 +324,7 @@ def _assert_dir_has_index_file(
         return
 
     # Check the index file exists
-    try:
-        fs_provider.exists(os.path.join(prefix, "index.json"))
-        has_index_file = True
-    except Exception:
-        has_index_file = False
+    has_index_file = fs_provider.exists(os.path.join(prefix, "index.json"))
 
     if has_index_file and mode is None:
         raise RuntimeError(
@@ -332,8 +334,8 @@ def _assert_dir_has_index_file(
         )
 
     # delete all the files (including the index file in overwrite mode)
-    if mode == "overwrite" or (mode is None and not use_checkpoint):
-        fs_provider.delete_file_or_directory(output_dir.url)
+    if is_first_node and (mode == "overwrite" or (mode is None and not use_checkpoint)):
+        fs_provider.delete_file_or_directory(prefix)
 
 
 def _get_lightning_cloud_url() -> str:
-- 
2.43.0


From 6b98c05aa6d5bce7a5e0c574f6ac6ef33d6fe07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 19/50] fix: a failed download isn't a missing index

---
 src/litdata/processing/utilities.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/litdata/processing/utilities.py b/src/litdata/processing/utilities.py
index 8788fd6..7fae6dd 100644
--- a/src/litdata/processing/utilities.py
+++ b/src/litdata/processing/utilities.py
@@ -225,21 +225,18 @@ def read_index_file_content(output_dir: Dir, storage_options: Dict[str, Any] = {
 
         prefix = output_dir.url.rstrip("/") + "/"
 
+        index_file_path = os.path.join(prefix, _INDEX_FILENAME)
+
         # Check the index file exists
-        try:
-            # Create a temporary file
-            with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as temp_file:
-                temp_file_name = temp_file.name
-                fs_provider.download_file(os.path.join(prefix, _INDEX_FILENAME), temp_file_name)
-            # Read data from the temporary file
-            with open(temp_file_name) as temp_file:
-                data = json.load(temp_file)
-            # Delete the temporary file
-            os.remove(temp_file_name)
-            return data
-        except Exception:
+        if not fs_provider.exists(index_file_path):
             return None
 
+        with tempfile.TemporaryDirectory() as temp_dir:
+            temp_file_name = os.path.join(temp_dir, _INDEX_FILENAME)
+            fs_provider.download_file(index_file_path, temp_file_name)
+            with open(temp_file_name) as f:
+                return json.load(f)
+
 
 def extract_rank_and_index_from_filename(chunk_filename: str) -> Tuple[int, int]:
     """Extract the rank and index from the filename.
-- 
2.43.0


From 2cf3c63eae119c9a571700abba238f316cce5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 20/50] fix: number the chunks of appending workers after those
 of the same worker on every node

---
 src/litdata/processing/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index cac29eb..aa3db2f 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -30,7 +30,7 @@ import torch
 from litdata import __version__
 from litdata.constants import _INDEX_FILENAME, _IS_IN_STUDIO, _SUPPORTED_PROVIDERS
 from litdata.helpers import _check_version_and_prompt_upgrade
-from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe
+from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank
 from litdata.processing.readers import BaseReader
 from litdata.processing.utilities import (
     _get_work_dir,
@@ -482,8 +482,9 @@ def optimize(
         if existing_index_file_content is not None:
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
+                rank -= _get_node_rank() * num_workers  # the workers are numbered over all the nodes
 
-                if rank < num_workers and state_dict[rank] <= index:
+                if 0 <= rank < num_workers and state_dict[rank] <= index:
                     state_dict[rank] = index + 1  # +1 because we want to start from the next index
 
         data_processor = DataProcessor(
-- 
2.43.0


From f650fecfa77b199c7c95439d067bac2c95359645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 21/50] fix: a failed upload ends the processing and user files
 aren't taken for checkpoints

---
 src/litdata/processing/data_processor.py | 37 +++++++++++++-----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 94f74c6..49d6d5d 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -258,42 +258,45 @@ def _upload_fn(
         if local_filepath is None:
             return
 
+        # The checkpoints of the writers, not the files of the user
+        is_checkpoint = tmpdir is None and os.path.basename(os.path.dirname(local_filepath)) == ".checkpoints"
+
         # Upload the file to the target cloud storage
         if not local_filepath.startswith(cache_dir):
             local_filepath = os.path.join(cache_dir, local_filepath)
 
         if obj.scheme in _SUPPORTED_PROVIDERS:
-            try:
-                output_filepath = output_dir.url
+            output_filepath = output_dir.url
 
-                if local_filepath.__contains__(".checkpoints"):
-                    output_filepath = os.path.join(output_filepath, ".checkpoints")
-                if tmpdir is None:
-                    output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
-                else:
-                    output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
+            if is_checkpoint:
+                output_filepath = os.path.join(output_filepath, ".checkpoints")
+            if tmpdir is None:
+                output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
+            else:
+                output_filepath = os.path.join(output_filepath, os.path.relpath(local_filepath, tmpdir))
 
+            if is_checkpoint:
                 output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
-                fs_provider.upload_file(
-                    local_filepath,
-                    output_filepath,
-                )
-            except Exception as e:
-                print(e)
+            # Note: a failure ends this process, which the worker detects.
+            fs_provider.upload_file(
+                local_filepath,
+                output_filepath,
+            )
 
         elif output_dir.path:
             output_filepath = output_dir.path
 
-            if local_filepath.__contains__(".checkpoints"):
+            if is_checkpoint:
                 output_filepath = os.path.join(output_filepath, ".checkpoints")
 
             if tmpdir is None:
                 output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
             else:
-                output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
+                output_filepath = os.path.join(output_filepath, os.path.relpath(local_filepath, tmpdir))
 
-            output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+            if is_checkpoint:
+                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
             _copy_file(local_filepath, output_filepath)
-- 
2.43.0


From 7b1f7b6b54858b04a1daacc2de2ff10af5839402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 22/50] fix: fetch inputs atomically and never remove files of
 other folders

---
 src/litdata/processing/data_processor.py | 29 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 49d6d5d..5fcccd4 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -116,6 +116,11 @@ def _wait_for_disk_usage_higher_than_threshold(input_dir: str, threshold_in_gb:
     return
 
 
+def _replace_prefix(path: str, prefix: str, replacement: str) -> str:
+    """Replace the prefix of the path, when it has it."""
+    return replacement + path[len(prefix) :] if path.startswith(prefix) else path
+
+
 def _copy_file(source: str, destination: str) -> None:
     """Copy a file such that the destination never exists with only a part of its content."""
     temporary = f"{destination}.{os.getpid()}.tmp"
@@ -153,7 +158,7 @@ def _download_data_target(
 
         # 5. Check whether all the files are already downloaded
         if input_dir.path and all(
-            os.path.exists(p.replace(input_dir.path, cache_dir) if input_dir else p) for p in paths
+            os.path.exists(_replace_prefix(p, input_dir.path, cache_dir) if input_dir else p) for p in paths
         ):
             queue_out.put(index)
             continue
@@ -166,10 +171,14 @@ def _download_data_target(
             # 7. Download all the required paths to unblock the current index
             for path in paths:
                 if input_dir.path:
-                    local_path = path.replace(input_dir.path, cache_dir)
+                    local_path = _replace_prefix(path, input_dir.path, cache_dir)
+
+                    # a file of another folder is used where it is
+                    if local_path == path:
+                        continue
 
                 if input_dir.url and input_dir.path:
-                    path = path.replace(input_dir.path, input_dir.url)
+                    path = _replace_prefix(path, input_dir.path, input_dir.url)
 
                 obj = parse.urlparse(path)
 
@@ -178,12 +187,15 @@ def _download_data_target(
                     os.makedirs(dirpath, exist_ok=True)
                     if fs_provider is None:
                         fs_provider = _get_fs_provider(input_dir.url, storage_options)
-                    fs_provider.download_file(path, local_path)
+                    # only complete files should be visible under their name
+                    temporary_path = f"{local_path}.{os.getpid()}.tmp"
+                    fs_provider.download_file(path, temporary_path)
+                    os.replace(temporary_path, local_path)
 
                 elif os.path.isfile(path):
                     if not path.startswith("/teamspace/studios/this_studio"):
                         os.makedirs(os.path.dirname(local_path), exist_ok=True)
-                        shutil.copyfile(path, local_path)
+                        _copy_file(path, local_path)
                 else:
                     raise ValueError(f"The provided {input_dir.url} isn't supported.")
 
@@ -208,7 +220,7 @@ def _remove_target(input_dir: Dir, cache_dir: str, queue_in: Queue) -> None:
         for path in paths:
             if input_dir:
                 if not path.startswith(cache_dir) and input_dir.path is not None:
-                    path = path.replace(input_dir.path, cache_dir)
+                    path = _replace_prefix(path, input_dir.path, cache_dir)
 
                 if os.path.exists(path):
                     os.remove(path)
@@ -608,7 +620,8 @@ class BaseWorker:
                 self._last_time = time()
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
-                self.remove_queue.put(self.paths[index])
+                # the files of other folders weren't copied into the cache
+                self.remove_queue.put([path for path in self.paths[index] if path.startswith(self.input_dir.path)])
 
             try:
                 self.stop_queue.get(timeout=0.0001)
@@ -698,7 +711,7 @@ class BaseWorker:
                     and isinstance(self.input_dir.path, str)
                     and not self.input_dir.path.startswith("/teamspace/studios/this_studio")
                 ):
-                    path = path.replace(self.input_dir.path, self.cache_data_dir)
+                    path = _replace_prefix(path, self.input_dir.path, self.cache_data_dir)
                 flattened_item[index] = path
 
             self.paths.append(paths)
-- 
2.43.0


From cd55e32d63ef2892a0299c5b2d52a26e93f9b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 23/50] fix: end the processing when a worker, downloader or
 uploader died

---
 src/litdata/processing/data_processor.py | 25 +++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 5fcccd4..88b0ec3 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -578,7 +578,7 @@ class BaseWorker:
         num_downloader_finished = 0
 
         while True:
-            index = self.ready_to_process_queue.get()
+            index = self._get_next_index()
 
             if index is None:
                 num_downloader_finished += 1
@@ -596,6 +596,7 @@ class BaseWorker:
                         # Wait for them all to be finished
                         for uploader in self.uploaders:
                             uploader.join()
+                        self._raise_on_failed_process(self.uploaders, "uploader")
 
                     if self.remove:
                         assert self.remover
@@ -629,6 +630,22 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_next_index(self) -> Optional[int]:
+        """Get the index of the next item to process, or None when a downloader is done."""
+        if isinstance(self.ready_to_process_queue, FakeQueue):
+            return self.ready_to_process_queue.get()
+
+        while True:
+            try:
+                return self.ready_to_process_queue.get(timeout=1)
+            except Empty:
+                self._raise_on_failed_process(self.downloaders, "downloader")
+
+    def _raise_on_failed_process(self, processes: List[Process], name: str) -> None:
+        for process in processes:
+            if process.exitcode:
+                raise RuntimeError(f"A {name} of the worker failed with the exit code {process.exitcode}.")
+
     def _set_environ_variables(self) -> None:
         # set the optimizer global rank and world_size
         os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(_get_node_rank() * self.num_workers + self.worker_index)
@@ -674,6 +691,7 @@ class BaseWorker:
         else:
             assert os.path.exists(data[-1]), data
 
+        self._raise_on_failed_process(self.uploaders, "uploader")
         self.to_upload_queues[self._counter % self.num_uploaders].put(data)
 
     def _collect_paths(self) -> None:
@@ -1247,6 +1265,8 @@ class DataProcessor:
         total_num_items = len(user_items)
 
         while True:
+            # what these workers reported is in the queues
+            ended_workers = [w for w in self.workers if not w.is_alive()]
             try:
                 error = self.error_queue.get(timeout=0.001)
                 self._exit_on_error(error)
@@ -1255,6 +1275,9 @@ class DataProcessor:
                 try:
                     index, counter = self.progress_queue.get(timeout=0.001)
                 except Empty:
+                    for w in ended_workers:
+                        if self.workers_tracker.get(w.worker_index) != w.num_items:
+                            self._exit_on_error(f"The worker {w.worker_index} ended with the exit code {w.exitcode}")
                     continue
                 self.workers_tracker[index] = counter
                 new_total = sum(self.workers_tracker.values())
-- 
2.43.0


From 52dee6833a511ea8b60ece52fd127716cc169beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 24/50] fix: a failing worker stops its processes

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 88b0ec3..b9209a6 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -542,9 +542,13 @@ class BaseWorker:
             self._setup()
             self._loop()
             self._terminate()
-        except Exception:
+        except (Exception, SystemExit):
             traceback_format = traceback.format_exc()
             self.error_queue.put(traceback_format)
+            # they would wait for more work and this process for their end
+            for process in [*self.downloaders, *self.uploaders, self.remover]:
+                if process is not None and process.is_alive():
+                    process.terminate()
         print(f"Worker {str(_get_node_rank() * self.num_workers + self.worker_index)} is done.")
 
     def _setup(self) -> None:
-- 
2.43.0


From 273989340d939f93705cf540083cf071cecf0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 25/50] fix: a folder with a longer name isn't part of the
 input folder

---
 src/litdata/processing/data_processor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index b9209a6..5028312 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -117,8 +117,9 @@ def _wait_for_disk_usage_higher_than_threshold(input_dir: str, threshold_in_gb:
 
 
 def _replace_prefix(path: str, prefix: str, replacement: str) -> str:
-    """Replace the prefix of the path, when it has it."""
-    return replacement + path[len(prefix) :] if path.startswith(prefix) else path
+    """Replace the folder at the start of the path, when it is there."""
+    prefix = prefix.rstrip("/")
+    return replacement.rstrip("/") + path[len(prefix) :] if path.startswith(prefix + "/") else path
 
 
 def _copy_file(source: str, destination: str) -> None:
@@ -626,7 +627,7 @@ class BaseWorker:
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
                 # the files of other folders weren't copied into the cache
-                self.remove_queue.put([path for path in self.paths[index] if path.startswith(self.input_dir.path)])
+                self.remove_queue.put([path for path in self.paths[index] if _replace_prefix(path, self.input_dir.path, "") != path])
 
             try:
                 self.stop_queue.get(timeout=0.0001)
-- 
2.43.0


From 434c70eb6db1a67f288e7c872c75d40c6c3c7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 26/50] fix: write the index and checkpoints of a dataset
 atomically

---
 src/litdata/processing/functions.py |  4 ++--
 src/litdata/streaming/writer.py     | 22 +++++++++++++---------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index aa3db2f..d49ad27 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -48,6 +48,7 @@ from litdata.streaming.resolver import (
     _execute,
     _resolve_dir,
 )
+from litdata.streaming.writer import _write_json
 from litdata.utilities._pytree import tree_flatten
 from litdata.utilities.encryption import Encryption
 from litdata.utilities.format import _get_tqdm_iterator_if_available
@@ -682,8 +683,7 @@ def _apply_copy(copy_info: CopyInfo, output_dir: Dir, storage_options: Dict[str,
 def _save_index(index_json: Dict, output_dir: Dir, storage_options: Dict[str, Any] = {}) -> None:
     if output_dir.url is None:
         assert output_dir.path
-        with open(os.path.join(output_dir.path, _INDEX_FILENAME), "w") as f:
-            json.dump(index_json, f)
+        _write_json(os.path.join(output_dir.path, _INDEX_FILENAME), index_json)
     else:
         with tempfile.NamedTemporaryFile("w") as f:
             json.dump(index_json, f)
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index a83380a..62d4d64 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -418,8 +418,7 @@ class BinaryWriter:
             return ""
         filepath = os.path.join(self._cache_dir, f"{self.rank}.{_INDEX_FILENAME}")
         config = self.get_config()
-        with open(filepath, "w") as out:
-            json.dump({"chunks": self._chunks_info, "config": config}, out, sort_keys=True)
+        _write_json(filepath, {"chunks": self._chunks_info, "config": config}, sort_keys=True)
         return filepath
 
     def done(self) -> List[str]:
@@ -510,12 +509,11 @@ class BinaryWriter:
             os.remove(chunk_path)
 
         if node_rank is None:
-            with open(os.path.join(self._cache_dir, _INDEX_FILENAME), "w") as f:
-                data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
-                json.dump(data, f, sort_keys=True)
+            data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
+            _write_json(os.path.join(self._cache_dir, _INDEX_FILENAME), data, sort_keys=True)
         else:
-            with open(os.path.join(self._cache_dir, f"{node_rank}-{_INDEX_FILENAME}"), "w") as f:
-                json.dump({"chunks": chunks_info, "config": config}, f, sort_keys=True)
+            data = {"chunks": chunks_info, "config": config}
+            _write_json(os.path.join(self._cache_dir, f"{node_rank}-{_INDEX_FILENAME}"), data, sort_keys=True)
 
     def _should_raise(self, data_format_1: List[str], data_format_2: List[str]) -> bool:
         if len(data_format_1) != len(data_format_2):
@@ -557,12 +555,18 @@ class BinaryWriter:
 
         checkPoint = {"chunks": self._chunks_info, "config": self.get_config(), "done_till_index": done_till_index}
 
-        with open(checkpoint_filepath, "w") as f:
-            json.dump(checkPoint, f)
+        _write_json(checkpoint_filepath, checkPoint)
 
         return checkpoint_filepath
 
 
+def _write_json(filepath: str, data: Dict[str, Any], **kwargs: Any) -> None:
+    """Write a JSON file which other processes either don't find or find complete."""
+    with open(f"{filepath}.tmp", "w") as f:
+        json.dump(data, f, **kwargs)
+    os.replace(f"{filepath}.tmp", filepath)
+
+
 def index_parquet_dataset(
     pq_dir_url: str,
     cache_dir: Optional[str] = None,
-- 
2.43.0


From 7f83f01a99ea58025800b23781b3ee8494ed0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 27/50] fix: append starts from a clean location and cache and
 with the compression of the dataset

---
 src/litdata/processing/data_processor.py |  5 ++--
 src/litdata/processing/functions.py      |  8 ++++++
 src/litdata/streaming/resolver.py        | 33 ++++++++++++++----------
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 5028312..d801271 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1392,8 +1392,9 @@ class DataProcessor:
         cache_dir = _get_cache_dir()
 
         # Cleanup the cache dir folder to avoid corrupted files from previous run to be there.
+        # Note: An index left there would be merged into the one of this run.
         if os.path.exists(cache_dir):
-            shutil.rmtree(cache_dir, ignore_errors=True)
+            shutil.rmtree(cache_dir)
 
         os.makedirs(cache_dir, exist_ok=True)
 
@@ -1401,7 +1402,7 @@ class DataProcessor:
 
         # Cleanup the cache data folder to avoid corrupted files from previous run to be there.
         if os.path.exists(cache_data_dir):
-            shutil.rmtree(cache_data_dir, ignore_errors=True)
+            shutil.rmtree(cache_data_dir)
 
         os.makedirs(cache_data_dir, exist_ok=True)
 
diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index d49ad27..fdfc358 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -481,6 +481,14 @@ def optimize(
         )
 
         if existing_index_file_content is not None:
+            existing_config = existing_index_file_content["config"]
+            if existing_config is not None and existing_config["compression"] != compression:
+                # fail before any chunk is stored next to the existing ones
+                raise ValueError(
+                    "The config isn't consistent between chunks. The existing dataset uses the compression"
+                    f" {existing_config['compression']}. Found {compression}."
+                )
+
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
                 rank -= _get_node_rank() * num_workers  # the workers are numbered over all the nodes
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index d33e943..b295817 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -265,10 +265,6 @@ def _assert_dir_has_index_file(
     if mode is not None and mode not in ["append", "overwrite"]:
         raise ValueError(f"The provided `mode` should be either `append` or `overwrite`. Found {mode}.")
 
-    if mode == "append":
-        # in append mode, we neither need to delete the index file nor the chunks
-        return
-
     if not isinstance(output_dir, Dir):
         raise ValueError("The provided output_dir isn't a Dir Object.")
 
@@ -282,7 +278,8 @@ def _assert_dir_has_index_file(
         if os.path.exists(output_dir.path):
             # we need to delete the index file
             index_file = os.path.join(output_dir.path, "index.json")
-            if os.path.exists(index_file) and mode is None:
+            has_index_file = os.path.exists(index_file)
+            if has_index_file and mode is None:
                 raise RuntimeError(
                     f"The provided output_dir `{output_dir.path}` already contains an optimized immutable datasets."
                     "\n HINT: Did you consider changing the `output_dir` with your own versioning as a suffix?"
@@ -292,17 +289,17 @@ def _assert_dir_has_index_file(
             if not is_first_node:
                 return
 
-            # delete index.json file and chunks
-            if os.path.exists(os.path.join(output_dir.path, "index.json")):
-                # only possible if mode = "overwrite"
-                os.remove(os.path.join(output_dir.path, "index.json"))
+            if has_index_file and mode == "overwrite":
+                os.remove(index_file)
 
-            if mode == "overwrite" or (mode is None and not use_checkpoint):
-                for file in os.listdir(output_dir.path):
-                    if file.endswith((".bin", "-index.json")):
-                        os.remove(os.path.join(output_dir.path, file))
+            # The indexes of single nodes and chunks without an index are the leftovers of a run which didn't complete.
+            keep_chunks = mode != "overwrite" and (use_checkpoint or has_index_file)
+            for file in os.listdir(output_dir.path):
+                if file.endswith("-index.json") or (file.endswith(".bin") and not keep_chunks):
+                    os.remove(os.path.join(output_dir.path, file))
 
-                # delete checkpoints
+            # delete checkpoints
+            if mode == "overwrite" or not use_checkpoint:
                 with suppress(FileNotFoundError):
                     shutil.rmtree(os.path.join(output_dir.path, ".checkpoints"))
 
@@ -317,6 +314,14 @@ def _assert_dir_has_index_file(
 
     prefix = output_dir.url.rstrip("/") + "/"
 
+    if mode == "append":
+        # neither the index file nor the chunks are deleted, only the indexes a node left there without completing
+        num_nodes = int(os.getenv("DATA_OPTIMIZER_NUM_NODES", 1))
+        if is_first_node and num_nodes > 1:
+            for node_rank in range(num_nodes):
+                fs_provider.delete_file_or_directory(os.path.join(prefix, f"{node_rank}-index.json"))
+        return
+
     is_empty = fs_provider.is_empty(output_dir.url)
 
     # No files are found in this folder
-- 
2.43.0


From f043190606489d5ef534c062b774ea1618115959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 28/50] fix: without checkpoints don't read the config.json of
 the working directory

---
 src/litdata/streaming/fs_provider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index b70d202..c1c63d8 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -76,7 +76,7 @@ class GCPFsProvider(FsProvider):
         blobs = bucket.list_blobs(prefix=blob_path)  # Get list of files
         local_directory_name = os.path.abspath(local_directory_name)
         os.makedirs(local_directory_name, exist_ok=True)
-        saved_file_dir = "."
+        saved_file_dir = local_directory_name
 
         for blob in blobs:
             if blob.name.endswith("/") or blob.name == blob_path:  # Skip directories
@@ -166,7 +166,7 @@ class S3FsProvider(FsProvider):
         local_directory_name = os.path.abspath(local_directory_name)
         os.makedirs(local_directory_name, exist_ok=True)
 
-        saved_file_dir = "."
+        saved_file_dir = local_directory_name
 
         for key in self._list_keys(bucket_name, remote_directory_name):
             local_filename = os.path.join(local_directory_name, key)
-- 
2.43.0


From 8611a639477a0bb6736f56aa979e563d379022a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 29/50] fix: resume from checkpoints exactly after the items
 which are stored

---
 src/litdata/processing/data_processor.py | 156 ++++++++++++-----------
 src/litdata/streaming/cache.py           |   6 +-
 src/litdata/streaming/writer.py          |   7 +-
 3 files changed, 91 insertions(+), 78 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index d801271..9613344 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -51,6 +51,7 @@ from litdata.streaming.dataloader import StreamingDataLoader
 from litdata.streaming.fs_provider import _get_fs_provider, not_supported_provider
 from litdata.streaming.item_loader import BaseItemLoader
 from litdata.streaming.resolver import _resolve_dir
+from litdata.streaming.writer import _write_json
 from litdata.utilities._pytree import tree_flatten, tree_unflatten, treespec_loads
 from litdata.utilities.broadcast import broadcast_object
 from litdata.utilities.dataset_utilities import load_index_file
@@ -502,6 +503,7 @@ class BaseWorker:
         checkpoint_next_index: Optional[int] = None,
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
+        checkpoint_config: Optional[Dict[str, Any]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -536,6 +538,9 @@ class BaseWorker:
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
         self.checkpoint_next_index: Optional[int] = checkpoint_next_index
+        self.checkpoint_config: Optional[Dict[str, Any]] = checkpoint_config
+        self._sample_items: List[int] = []  # the index of the item each sample comes from
+        self._num_restored_chunks = 0
         self.storage_options = storage_options
 
     def run(self) -> None:
@@ -627,7 +632,9 @@ class BaseWorker:
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
                 # the files of other folders weren't copied into the cache
-                self.remove_queue.put([path for path in self.paths[index] if _replace_prefix(path, self.input_dir.path, "") != path])
+                self.remove_queue.put(
+                    [path for path in self.paths[index] if _replace_prefix(path, self.input_dir.path, "") != path]
+                )
 
             try:
                 self.stop_queue.get(timeout=0.0001)
@@ -684,6 +691,7 @@ class BaseWorker:
             assert isinstance(self.checkpoint_next_index, int)
             assert isinstance(self.checkpoint_chunks_info, list)
 
+            self._num_restored_chunks = len(self.checkpoint_chunks_info)
             self.cache._writer._chunks_info = self.checkpoint_chunks_info
             self.cache._writer._chunk_index += self.checkpoint_next_index
 
@@ -821,8 +829,8 @@ class BaseWorker:
                 self._try_upload(chunk_filepath)
                 self._index_counter += 1
                 if self.use_checkpoint:
-                    checkpoint_filepath = self.cache.save_checkpoint()
-                    self._try_upload(checkpoint_filepath)
+                    self._sample_items.append(index)
+                    self._save_checkpoint(num_processed=index + 1)
         except Exception as e:
             raise RuntimeError(f"Failed processing {self.items[index]=}; {index=}") from e
 
@@ -831,6 +839,11 @@ class BaseWorker:
 
         It will save the cache to disk, and upload the chunks to the output directory.
         """
+        if self.checkpoint_config is not None and self.cache._writer._data_format is None:
+            # all the samples were stored before the processing was interrupted
+            self.cache._writer._data_format = self.checkpoint_config["data_format"]
+            self.cache._writer._data_spec = treespec_loads(self.checkpoint_config["data_spec"])
+
         chunks_filepaths = self.cache.done()
 
         if chunks_filepaths and len(self.to_upload_queues):
@@ -839,8 +852,25 @@ class BaseWorker:
                     self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
-            checkpoint_filepath = self.cache.save_checkpoint()
-            self._try_upload(checkpoint_filepath)
+            self._save_checkpoint(num_processed=len(self.items))
+
+    def _save_checkpoint(self, num_processed: int) -> None:
+        """Save and upload a checkpoint, from which the processing continues with the first item that isn't entirely
+        stored in the chunks.
+        """
+        new_chunks = self.cache._writer._chunks_info[self._num_restored_chunks :]
+        num_stored_samples = sum(chunk["chunk_size"] for chunk in new_chunks)
+
+        if num_stored_samples == len(self._sample_items):
+            done_till_index = num_processed
+        else:
+            # an item may not have any sample
+            done_till_index = self._sample_items[num_stored_samples]
+
+        checkpoint_filepath = self.cache.save_checkpoint(
+            done_till_index=(self.checkpoint_next_index or 0) + done_till_index
+        )
+        self._try_upload(checkpoint_filepath)
 
     def _handle_data_transform_recipe(self, index: int) -> None:
         """Used by map fn to run the user provided fn on each item of the input data.
@@ -1125,8 +1155,9 @@ class DataProcessor:
         self.output_dir = _resolve_dir(output_dir)
 
         self.num_workers = num_workers or (1 if fast_dev_run else (os.cpu_count() or 1) * 4)
-        self.num_downloaders = num_downloaders or 2
-        self.num_uploaders = num_uploaders or 1
+        # A checkpoint counts the items which are done: they are processed in order and it is stored after their chunks.
+        self.num_downloaders = 1 if use_checkpoint else num_downloaders or 2
+        self.num_uploaders = 1 if use_checkpoint else num_uploaders or 1
         self.delete_cached_files = delete_cached_files
         self.fast_dev_run = _get_fast_dev_run() if fast_dev_run is None else fast_dev_run
         self.workers: Any = []
@@ -1140,6 +1171,7 @@ class DataProcessor:
         self.use_checkpoint = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[List[Dict[str, Any]]]] = None
         self.checkpoint_next_index: Optional[List[int]] = None
+        self.checkpoint_config: Optional[List[Optional[Dict[str, Any]]]] = None
         self.item_loader = item_loader
         self.storage_options = storage_options
 
@@ -1291,7 +1323,7 @@ class DataProcessor:
                 pbar.update(new_total - current_total)
 
             current_total = new_total
-            if current_total == num_items:
+            if current_total == num_items and len(self.workers_tracker) == len(self.workers):
                 # make sure all processes are terminated
                 for w in self.workers:
                     if w.is_alive():
@@ -1335,8 +1367,8 @@ class DataProcessor:
             )
 
         print("Finished data processing!")
-        if self.use_checkpoint and isinstance(data_recipe, DataChunkRecipe):
-            # clean up checkpoints
+        if self.use_checkpoint and isinstance(data_recipe, DataChunkRecipe) and num_nodes == node_rank + 1:
+            # clean up checkpoints, once all the nodes are done
             self._cleanup_checkpoints()
 
     def _exit_on_error(self, error: str) -> None:
@@ -1372,6 +1404,7 @@ class DataProcessor:
                 self.checkpoint_next_index[worker_idx] if self.checkpoint_next_index else None,
                 self.item_loader,
                 self.storage_options,
+                self.checkpoint_config[worker_idx] if self.checkpoint_config else None,
             )
             worker.start()
             workers.append(worker)
@@ -1446,11 +1479,10 @@ class DataProcessor:
             if self.output_dir.url is None:
                 assert self.output_dir.path
 
-                if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints")):
-                    os.makedirs(os.path.join(self.output_dir.path, ".checkpoints"))
+                checkpoints_dir = os.path.join(self.output_dir.path, ".checkpoints")
+                os.makedirs(checkpoints_dir, exist_ok=True)
 
-                with open(os.path.join(self.output_dir.path, ".checkpoints", "config.json"), "w") as f:
-                    json.dump(config, f)
+                _write_json(os.path.join(checkpoints_dir, _get_checkpoint_config_filename()), config)
 
                 return
 
@@ -1465,12 +1497,12 @@ class DataProcessor:
 
             # write config.json file to temp directory and upload it to the cloud provider
             with tempfile.TemporaryDirectory() as temp_dir:
-                temp_file_name = os.path.join(temp_dir, "config.json")
+                temp_file_name = os.path.join(temp_dir, _get_checkpoint_config_filename())
                 with open(temp_file_name, "w") as f:
                     json.dump(config, f)
                 fs_provider.upload_file(
                     temp_file_name,
-                    os.path.join(prefix, "config.json"),
+                    os.path.join(prefix, _get_checkpoint_config_filename()),
                 )
         except Exception as e:
             print(e)
@@ -1479,44 +1511,13 @@ class DataProcessor:
         if not self.use_checkpoint:
             return
 
-        default_chunk_info: List[Dict[str, Any]] = []
-
-        self.checkpoint_chunks_info = [default_chunk_info for _ in range(self.num_workers)]
+        self.checkpoint_chunks_info = [[] for _ in range(self.num_workers)]
         self.checkpoint_next_index = [0 for _ in range(self.num_workers)]
+        self.checkpoint_config = [None for _ in range(self.num_workers)]
 
         if self.output_dir.url is None:
             assert self.output_dir.path
-
-            if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints")):
-                return
-
-            if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints", "config.json")):
-                # if the config.json file doesn't exist, we don't have any checkpoint saved
-                return
-
-            with open(os.path.join(self.output_dir.path, ".checkpoints", "config.json")) as f:
-                config = json.load(f)
-
-            if config["num_workers"] != self.num_workers:
-                raise ValueError(
-                    "The number of workers in the checkpoints doesn't match the current number of workers."
-                )
-
-            if config["workers_user_items"] != workers_user_items:
-                raise ValueError("Existing checkpoints are not compatible with the current configuration.")
-
-            checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
-
-            for i, checkpoint_file_name in enumerate(checkpoint_file_names):
-                if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints", checkpoint_file_name)):
-                    # if the checkpoint file doesn't exist, we don't have any checkpoint saved for this worker
-                    continue
-
-                with open(os.path.join(self.output_dir.path, ".checkpoints", checkpoint_file_name)) as f:
-                    checkpoint = json.load(f)
-
-                self.checkpoint_chunks_info[i] = checkpoint["chunks"]
-                self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+            self._load_checkpoints(os.path.join(self.output_dir.path, ".checkpoints"), workers_user_items)
             return
 
         obj = parse.urlparse(self.output_dir.url)
@@ -1526,42 +1527,49 @@ class DataProcessor:
 
         prefix = self.output_dir.url.rstrip("/") + "/" + ".checkpoints/"
 
-        # Delete all the files (including the index file in overwrite mode)
-
         # download all the checkpoint files in tempdir and read them
         with tempfile.TemporaryDirectory() as temp_dir:
             fs_provider = _get_fs_provider(self.output_dir.url, self.storage_options)
             saved_file_dir = fs_provider.download_directory(prefix, temp_dir)
+            self._load_checkpoints(saved_file_dir, workers_user_items)
 
-            if not os.path.exists(os.path.join(saved_file_dir, "config.json")):
-                # if the config.json file doesn't exist, we don't have any checkpoint saved
-                return
+    def _load_checkpoints(self, checkpoints_dir: str, workers_user_items: List[List[Any]]) -> None:
+        config_filepath = os.path.join(checkpoints_dir, _get_checkpoint_config_filename())
 
-            # read the config.json file
-            with open(os.path.join(saved_file_dir, "config.json")) as f:
-                config = json.load(f)
+        if not os.path.exists(config_filepath):
+            # if the config.json file doesn't exist, we don't have any checkpoint saved
+            return
 
-            if config["num_workers"] != self.num_workers:
-                raise ValueError(
-                    "The number of workers in the checkpoints doesn't match the current number of workers."
-                )
+        with open(config_filepath) as f:
+            config = json.load(f)
 
-            if config["workers_user_items"] != workers_user_items:
-                raise ValueError("Existing checkpoints are not compatible with the current configuration.")
+        if config["num_workers"] != self.num_workers:
+            raise ValueError("The number of workers in the checkpoints doesn't match the current number of workers.")
 
-            checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
+        # the items of the config went through json, which doesn't have tuples
+        if config["workers_user_items"] != json.loads(json.dumps(workers_user_items)):
+            raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
-            for i, checkpoint_file_name in enumerate(checkpoint_file_names):
-                if not os.path.exists(os.path.join(saved_file_dir, checkpoint_file_name)):
-                    # if the checkpoint file doesn't exist, we don't have any checkpoint saved for this worker
-                    continue
+        for worker_idx in range(self.num_workers):
+            rank = _get_node_rank() * self.num_workers + worker_idx
+            checkpoint_filepath = os.path.join(checkpoints_dir, f"checkpoint-{rank}.json")
+
+            if not os.path.exists(checkpoint_filepath):
+                # if the checkpoint file doesn't exist, we don't have any checkpoint saved for this worker
+                continue
+
+            with open(checkpoint_filepath) as f:
+                checkpoint = json.load(f)
 
-                with open(os.path.join(saved_file_dir, checkpoint_file_name)) as f:
-                    checkpoint = json.load(f)
+            self.checkpoint_chunks_info[worker_idx] = checkpoint["chunks"]
+            self.checkpoint_next_index[worker_idx] = checkpoint["done_till_index"]
+            self.checkpoint_config[worker_idx] = checkpoint["config"]
 
-                self.checkpoint_chunks_info[i] = checkpoint["chunks"]
-                self.checkpoint_next_index[i] = checkpoint["done_till_index"]
-        return
+
+def _get_checkpoint_config_filename() -> str:
+    """The items of each node are different."""
+    node_rank = _get_node_rank()
+    return "config.json" if node_rank == 0 else f"config-{node_rank}.json"
 
 
 def in_notebook() -> bool:
diff --git a/src/litdata/streaming/cache.py b/src/litdata/streaming/cache.py
index d045d5d..a8b22f8 100644
--- a/src/litdata/streaming/cache.py
+++ b/src/litdata/streaming/cache.py
@@ -165,6 +165,8 @@ class Cache:
     def _get_chunk_index_from_index(self, index: int) -> Tuple[int, int]:
         return self._reader._get_chunk_index_from_index(index)
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
         """Save the current state of the writer to a checkpoint."""
-        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir)
+        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir, done_till_index=done_till_index)
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 62d4d64..8ac040b 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -538,7 +538,9 @@ class BinaryWriter:
             )
         return out
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
         """Save the current state of the writer to a checkpoint."""
         checkpoint_dir = os.path.join(self._cache_dir, checkpoint_dir)
         if not os.path.exists(checkpoint_dir):
@@ -549,7 +551,8 @@ class BinaryWriter:
             return None
 
         unique_id = uuid.uuid4().hex
-        done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
+        if done_till_index is None:
+            done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
 
         checkpoint_filepath = os.path.join(checkpoint_dir, f"checkpoint-{self.rank}-{unique_id}.json")
 
-- 
2.43.0


From 5e29cf8dcaee365adeae20a1dd3af6d6ac79f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 30/50] fix: count the readers of a chunk that is decompressed
 next to a local dataset

---
 src/litdata/streaming/config.py     | 6 +++---
 src/litdata/streaming/downloader.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index a50acbe..f7aee18 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -21,7 +21,7 @@ from typing import Any, Dict, List, Optional, Tuple
 from litdata.constants import _INDEX_FILENAME
 from litdata.debugger import ChromeTraceColors, _get_log_msg
 from litdata.streaming.compression import _COMPRESSORS, Compressor
-from litdata.streaming.downloader import get_downloader
+from litdata.streaming.downloader import Downloader, get_downloader
 from litdata.streaming.item_loader import BaseItemLoader, Interval, PyTreeLoader, TokensLoader
 from litdata.streaming.sampler import ChunkedIndex
 from litdata.streaming.serializers import Serializer
@@ -129,10 +129,10 @@ class ChunksConfig:
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
-        if self._downloader is not None and not skip_lock:
+        if (self._downloader is not None or self._compressor is not None) and not skip_lock:
             # Mark the chunk as having been requested by something before looking for it,
             # so that another worker doesn't delete it in between.
-            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+            (self._downloader or Downloader)._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
 
         if os.path.exists(local_chunkpath):
             # We don't want to redownload the base
diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 3d6945e..cba4057 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -49,7 +49,8 @@ class Downloader(ABC):
         self._chunks = chunks
         self._storage_options = storage_options or {}
 
-    def _increment_local_lock(self, chunkpath: str) -> None:
+    @staticmethod
+    def _increment_local_lock(chunkpath: str) -> None:
         logger.debug(_get_log_msg({"name": f"increment_local_lock_for_{chunkpath}", "ph": "B"}))
         countpath = chunkpath + ".cnt"
         with suppress(Timeout), FileLock(countpath + ".lock", timeout=1):
-- 
2.43.0


From f1db85b75e333914773543d7183de3e17c39d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 31/50] fix: no error for a rank without batches while a cache
 is filled

---
 src/litdata/streaming/sampler.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/sampler.py b/src/litdata/streaming/sampler.py
index 4c67b51..94e2f49 100644
--- a/src/litdata/streaming/sampler.py
+++ b/src/litdata/streaming/sampler.py
@@ -230,11 +230,8 @@ class CacheBatchSampler:
                 batches.append(worker_indices.pop(0))
             counter += 1
 
-        while True:
-            if len(batches[-1]) == 0:
-                batches.pop(-1)
-            else:
-                break
+        while batches and len(batches[-1]) == 0:
+            batches.pop(-1)
 
         yield from batches
 
-- 
2.43.0


From c3c6b857469990e0259b5750fe0e396ab8e404f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 32/50] fix: merge the index of a cache when all of its writers
 are done, in their order

---
 src/litdata/streaming/writer.py | 43 +++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 8ac040b..18bdbc1 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -13,6 +13,7 @@
 
 import json
 import os
+import re
 import uuid
 import warnings
 from dataclasses import dataclass
@@ -103,7 +104,7 @@ class BinaryWriter:
             self._compressor: Compressor = _COMPRESSORS[self._compression]
 
         self._serialized_items: Dict[int, Item] = {}
-        self._chunk_index = chunk_index or 0
+        self._chunk_index = self._first_chunk_index = chunk_index or 0
         self._min_index: Optional[int] = None
         self._max_index: Optional[int] = None
         self._chunks_info: List[Dict[str, Any]] = []
@@ -124,7 +125,7 @@ class BinaryWriter:
             return True
         files = os.listdir(self._cache_dir)
         index_files = [f for f in files if f.endswith(_INDEX_FILENAME)]
-        worker_env = _WorkerEnv.detect()
+        worker_env = self._worker_env or _WorkerEnv.detect()
         data_optimiser_num_workers = os.getenv("DATA_OPTIMIZER_NUM_WORKERS", None)
         if data_optimiser_num_workers is not None:
             self._is_done = len(index_files) == int(data_optimiser_num_workers)
@@ -408,19 +409,35 @@ class BinaryWriter:
         if self._compression:
             raw_data = self._compressor.compress(raw_data)
 
-        # Write the binary chunk file
-        with open(os.path.join(self._cache_dir, filename), "wb") as out:
+        # Write the binary chunk file, which other processes either don't find or find complete
+        filepath = os.path.join(self._cache_dir, filename)
+        with open(f"{filepath}.tmp", "wb") as out:
             out.write(raw_data)
+        os.replace(f"{filepath}.tmp", filepath)
 
     def write_chunks_index(self) -> str:
         """Write the chunks index to a JSON file."""
-        if len(self._chunks_info) == 0:
+        if len(self._chunks_info) == 0 and os.getenv("DATA_OPTIMIZER_GLOBAL_RANK", None) is not None:
             return ""
         filepath = os.path.join(self._cache_dir, f"{self.rank}.{_INDEX_FILENAME}")
-        config = self.get_config()
+        # the merge waits for every writer, also for those without any sample. They don't know the config.
+        config = self.get_config() if self._chunks_info else None
         _write_json(filepath, {"chunks": self._chunks_info, "config": config}, sort_keys=True)
         return filepath
 
+    def reset(self) -> None:
+        """Forget the items of an earlier attempt to write them, which didn't end."""
+        self._serialized_items = {}
+        self._chunk_index = self._first_chunk_index
+        self._min_index = None
+        self._max_index = None
+        self._chunks_info = []
+        self._worker_env = None
+        self._rank = None
+        self._is_done = False
+        self._per_sample_num_bytes = 0
+        self._per_sample_num_items = 0
+
     def done(self) -> List[str]:
         """Called when StopIteration is triggered."""
         filepaths: List[str] = []
@@ -462,10 +479,9 @@ class BinaryWriter:
             if _INDEX_FILENAME in files:
                 return
 
-            index_files = [f for f in files if f.endswith(_INDEX_FILENAME)]
-
             # When using the Data Optimizer, we don't use multi processes.
-            is_done = len(index_files) == self._distributed_env.world_size * num_workers
+            num_writers = self._distributed_env.world_size * num_workers
+            is_done = all(f"{rank}.{_INDEX_FILENAME}" in files for rank in range(num_writers))
             sleep(0.01)
 
         self._merge_no_wait(node_rank=node_rank)
@@ -489,7 +505,8 @@ class BinaryWriter:
             chunks_info.extend(existing_index["chunks"])
             config = existing_index["config"]
 
-        for index_filename in sorted(index_files):
+        # the chunks follow each other in the order of their writers
+        for index_filename in sorted(index_files, key=_index_sort_key):
             chunk_path = os.path.join(self._cache_dir, index_filename)
             with open(chunk_path) as f:
                 data = json.load(f)
@@ -563,6 +580,12 @@ class BinaryWriter:
         return checkpoint_filepath
 
 
+def _index_sort_key(index_filename: str) -> Tuple[int, str]:
+    """Sort the index files by the number of their writer: 2.index.json comes before 10.index.json."""
+    match = re.match(r"\d+", index_filename)
+    return int(match.group()) if match else -1, index_filename
+
+
 def _write_json(filepath: str, data: Dict[str, Any], **kwargs: Any) -> None:
     """Write a JSON file which other processes either don't find or find complete."""
     with open(f"{filepath}.tmp", "w") as f:
-- 
2.43.0


From 9b45ea5a883889f812ae8495857b3f7b2329e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 33/50] fix: fill the cache of a CacheDataLoader with completed
 epochs only

---
 src/litdata/streaming/cache.py      | 15 +++++++++
 src/litdata/streaming/dataloader.py | 47 ++++++++++++++++++++++++++---
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/cache.py b/src/litdata/streaming/cache.py
index a8b22f8..c138e76 100644
--- a/src/litdata/streaming/cache.py
+++ b/src/litdata/streaming/cache.py
@@ -13,6 +13,8 @@
 
 import logging
 import os
+import re
+from contextlib import suppress
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 from litdata.constants import (
@@ -144,6 +146,19 @@ class Cache:
             index = ChunkedIndex(*self._get_chunk_index_from_index(index))
         return self._reader.read(index)
 
+    def _start_filling(self, num_workers: int = 1) -> None:
+        """Forget what an earlier epoch has written, which was left before its end."""
+        if self.filled:
+            return
+        self._writer.reset()
+        rank, world_size = self._distributed_env.global_rank, self._distributed_env.world_size
+        for filename in os.listdir(self.cache_dir):
+            match = re.fullmatch(rf"(\d+)\.{re.escape(_INDEX_FILENAME)}", filename)
+            # the indexes of the other ranks may already be those of the current epoch
+            if match and int(match.group(1)) // num_workers not in set(range(world_size)) - {rank}:
+                with suppress(FileNotFoundError):
+                    os.remove(os.path.join(self.cache_dir, filename))
+
     def done(self) -> Optional[List[str]]:
         """Inform the writer the chunking phase is finished."""
         return self._writer.done()
diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 915b397..4fa1c06 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -137,6 +137,10 @@ class CacheCollateFn:
 class _SingleProcessDataLoaderIterPatch(_SingleProcessDataLoaderIter):
     """This is ç to inform the cache is done chunking."""
 
+    def __init__(self, loader: DataLoader) -> None:
+        loader._cache._start_filling()
+        super().__init__(loader)
+
     def _next_data(self) -> Any:
         try:
             data = None
@@ -155,9 +159,10 @@ class _SingleProcessDataLoaderIterPatch(_SingleProcessDataLoaderIter):
 class WorkerLoop:
     """Wrap the PyTorch DataLoader WorkerLoop to perform caching and profiling."""
 
-    def __init__(self, global_rank: int, profile: bool = False) -> None:
+    def __init__(self, global_rank: int, profile: bool = False, epoch_completed: Optional[Any] = None) -> None:
         self._global_rank = global_rank
         self._profile = profile
+        self._epoch_completed = epoch_completed
 
     def __call__(
         self,
@@ -195,6 +200,11 @@ class WorkerLoop:
         def create_fetcher_fn(*args: Any, **kwargs: Any) -> "_BaseDatasetFetcher":
             nonlocal fetcher
             fetcher = create_fetcher(*args, **kwargs)
+            if dataset_kind == _DatasetKind.Map:
+                # the rank of the writer has to be known before PyTorch clears the worker info
+                for v in fetcher.dataset.__dict__.values():
+                    if isinstance(v, Cache):
+                        _ = v._writer.rank
             return fetcher
 
         _DatasetKind.create_fetcher = create_fetcher_fn  # type: ignore
@@ -215,7 +225,10 @@ class WorkerLoop:
             **kwargs,
         )
 
-        if dataset_kind == _DatasetKind.Map:
+        # the cache isn't filled by an epoch which was left before its end
+        is_completed = self._epoch_completed is None or self._epoch_completed.is_set()
+
+        if dataset_kind == _DatasetKind.Map and is_completed:
             assert fetcher
             for v in fetcher.dataset.__dict__.values():
                 if isinstance(v, Cache):
@@ -230,17 +243,43 @@ class _MultiProcessingDataLoaderIterPatch(_MultiProcessingDataLoaderIter):
     def __init__(self, loader: DataLoader) -> None:
         self._cache = loader._cache
         self._num_workers = loader.num_workers
+        self._cache._start_filling(self._num_workers)
+        self._has_failed = False
+        self._epoch_completed = (loader.multiprocessing_context or torch.multiprocessing).Event()
         # Patch PyTorch worker loop to call the `cache.done()` method.
         from torch.utils.data._utils import worker
 
-        worker._worker_loop = WorkerLoop(loader._global_rank, loader._profile)
+        worker._worker_loop = WorkerLoop(loader._global_rank, loader._profile, self._epoch_completed)
         super().__init__(loader)
 
+    def _process_data(self, *args: Any, **kwargs: Any) -> Any:
+        try:
+            return super()._process_data(*args, **kwargs)
+        except BaseException:
+            self._has_failed = True
+            raise
+
     def _shutdown_workers(self) -> None:
+        is_completed = not self._shutdown and not self._has_failed and self._rcvd_idx == self._send_idx
+
+        if is_completed and not self._cache.filled:
+            # Let the workers write what is left and wait for them, however long this takes
+            self._epoch_completed.set()
+            self._workers_done_event.set()
+            for worker_id in range(len(self._workers)):
+                if self._persistent_workers or self._workers_status[worker_id]:
+                    self._mark_worker_as_unavailable(worker_id, shutdown=True)
+            for w in self._workers:
+                w.join()
+            exit_codes = [w.exitcode for w in self._workers]
+            self._has_failed = any(exit_codes)
+
         super()._shutdown_workers()
 
         # If the data isn't filled, we trigger an indedm merge
-        if not self._cache.filled:
+        if is_completed and not self._cache.filled:
+            if self._has_failed:
+                raise RuntimeError(f"A worker failed to write its part of the cache. The exit codes are {exit_codes}.")
             self._cache.merge(self._num_workers)
 
     def _next_data(self) -> Any:
-- 
2.43.0


From 1aac4d3513fa5125a1c0f2c49118bb419c27b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 34/50] fix: check the sampler of a cache also while other
 ranks fill it

---
 src/litdata/streaming/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/sampler.py b/src/litdata/streaming/sampler.py
index 94e2f49..97b9bbe 100644
--- a/src/litdata/streaming/sampler.py
+++ b/src/litdata/streaming/sampler.py
@@ -95,7 +95,10 @@ class CacheBatchSampler:
         """Checks each worker is getting successive indices."""
         if self._num_workers > 1 and not self._cache.filled:
             batches: Dict[int, Any] = {}
-            for batch_index, batch_indices in enumerate(self):
+            # the other ranks may fill the cache in the meantime
+            is_distributed = self._num_replicas > 1
+            iterator = self.__iter_distributed__() if is_distributed else self.__iter_non_distributed__()
+            for batch_index, batch_indices in enumerate(iterator):
                 self._length += 1
                 worker_index = batch_index % self._num_workers
                 if worker_index not in batches:
-- 
2.43.0


From 82c80e752daf736b50094cebf0e4b438040c59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 35/50] fix: don't merge datasets whose samples have another
 structure

---
 src/litdata/processing/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index fdfc358..069a3fb 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -637,6 +637,11 @@ def merge_datasets(
         if input_dirs_file_content[0]["config"]["compression"] != input_dir_file_content["config"]["compression"]:  # type: ignore
             raise ValueError("Your are trying to merge datasets with different compression configuration.")
 
+        # the samples are read with the structure, encryption, etc. of the first dataset
+        for key in ("data_spec", "encryption", "item_loader"):
+            if input_dirs_file_content[0]["config"].get(key) != input_dir_file_content["config"].get(key):  # type: ignore
+                raise ValueError(f"Your are trying to merge datasets with different {key} configuration.")
+
     chunks = []
     copy_infos: List[CopyInfo] = []
     counter = 0
-- 
2.43.0


From b82b358589b2c8bbb2af6b121230abc754c243b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 36/50] fix: a service which doesn't answer a broadcast is an
 error after a while

---
 src/litdata/utilities/broadcast.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/litdata/utilities/broadcast.py b/src/litdata/utilities/broadcast.py
index 8d94c5c..333e086 100644
--- a/src/litdata/utilities/broadcast.py
+++ b/src/litdata/utilities/broadcast.py
@@ -23,7 +23,7 @@ import requests
 import urllib3
 
 # for backwards compatibility
-from requests.adapters import HTTPAdapter
+from requests.adapters import DEFAULT_RETRIES, HTTPAdapter
 from urllib3.util.retry import Retry
 
 logger = Logger(__name__)
@@ -39,7 +39,9 @@ class _CustomRetryAdapter(HTTPAdapter):
         super().__init__(*args, **kwargs)
 
     def send(self, request: Any, *args: Any, **kwargs: Any) -> Any:
-        kwargs["timeout"] = kwargs.get("timeout", self.timeout)
+        # the session passes None when it has no timeout
+        if kwargs.get("timeout") is None:
+            kwargs["timeout"] = self.timeout
         return super().send(request, **kwargs)
 
 
@@ -73,14 +75,15 @@ class _HTTPClient:
                 504,  # Gateway Timeout
             ],
         )
-        adapter = _CustomRetryAdapter(max_retries=retry_strategy, timeout=_DEFAULT_REQUEST_TIMEOUT)
+        adapter = _CustomRetryAdapter(
+            max_retries=retry_strategy if use_retry else DEFAULT_RETRIES, timeout=_DEFAULT_REQUEST_TIMEOUT
+        )
         self.session = requests.Session()
 
         self.session.hooks = {"response": _response}
 
-        if use_retry:
-            self.session.mount("http://", adapter)
-            self.session.mount("https://", adapter)
+        self.session.mount("http://", adapter)
+        self.session.mount("https://", adapter)
 
         if auth_token:
             self.session.headers.update({"Authorization": f"Bearer {auth_token}"})
@@ -160,7 +163,7 @@ def _get_token() -> Optional[str]:
 
     payload = {"apiKey": os.getenv("LIGHTNING_API_KEY"), "username": os.getenv("LIGHTNING_USERNAME")}
     url_login = os.getenv("LIGHTNING_CLOUD_URL", "") + "/v1/auth/login"
-    res = requests.post(url_login, data=json.dumps(payload))  # noqa: S113
+    res = requests.post(url_login, data=json.dumps(payload), timeout=_DEFAULT_REQUEST_TIMEOUT)
     if "token" not in res.json():
         raise RuntimeError(
             f"You haven't properly setup your environment variables with {url_login} and data: \n{payload}"
-- 
2.43.0


From 8306061aaf44a60f3ef016018b444889a1d5ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 37/50] fix: broadcast objects with characters outside of ASCII

---
 src/litdata/utilities/broadcast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/broadcast.py b/src/litdata/utilities/broadcast.py
index 333e086..c21dce1 100644
--- a/src/litdata/utilities/broadcast.py
+++ b/src/litdata/utilities/broadcast.py
@@ -126,7 +126,8 @@ class _ImmutableDistributedMap:
         self.private_client: _HTTPClient = _HTTPClient(lightning_app_state_url, auth_token=token, use_retry=False)
 
     def set_and_get(self, key: str, value: Any, rank: int) -> Any:
-        payload = {"key": key, "value": pickle.dumps(value, 0).decode(), "rank": str(rank)}
+        # the pickled object isn't valid UTF-8 in general, e.g. with the path `/data/été`
+        payload = {"key": key, "value": pickle.dumps(value, 0).decode("latin-1"), "rank": str(rank)}
 
         # Try the public address first
         try:
@@ -141,7 +142,7 @@ class _ImmutableDistributedMap:
         value = resp.json()["value"]
         if value is None:
             return value
-        return pickle.loads(bytes(value, "utf-8"))  # noqa: S301
+        return pickle.loads(bytes(value, "latin-1"))  # noqa: S301
 
 
 def broadcast_object(key: str, obj: Any, rank: int) -> Any:
-- 
2.43.0


From 4df1acfb53fd5ea904599a998bf29b0736565420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 38/50] fix: pickle a dataset after it has been read from

---
 src/litdata/streaming/client.py      |  7 +++++++
 src/litdata/streaming/item_loader.py | 11 +++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/client.py b/src/litdata/streaming/client.py
index e9bb5be..fbf78f5 100644
--- a/src/litdata/streaming/client.py
+++ b/src/litdata/streaming/client.py
@@ -58,6 +58,13 @@ class S3Client:
                 config=botocore.config.Config(retries={"max_attempts": 1000, "mode": "adaptive"}),
             )
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # a client can't be pickled, another process creates its own one
+        state = self.__dict__.copy()
+        state["_client"] = None
+        state["_last_time"] = None
+        return state
+
     @property
     def client(self) -> Any:
         if self._client is None:
diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 3ec9cbb..d56e9c3 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -67,6 +67,13 @@ class BaseItemLoader(ABC):
             serializer.setup(data_format)
             self._serializers[data_format] = serializer
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # the queue belongs to the thread of this process, the reader of another process starts its own one
+        state = self.__dict__.copy()
+        if "_force_download_queue" in state:
+            state["_force_download_queue"] = None
+        return state
+
     def force_download(self, chunk_index: int) -> None:
         if self._force_download_queue:
             self._force_download_queue.put(chunk_index)
@@ -375,8 +382,8 @@ class PyTreeLoader(BaseItemLoader):
         body = b"".join(data)
         return head + body, None
 
-    def __getstate__(self):
-        state = self.__dict__.copy()
+    def __getstate__(self) -> Dict[str, Any]:
+        state = super().__getstate__()
         state["_open_handle"] = None
         state["_chunk_filepath"] = None
         return state
-- 
2.43.0


From 28fa8a17152f567de7b151911902118d79faa9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 39/50] fix: keep the memory of the token blocks which were
 handed out

---
 src/litdata/streaming/item_loader.py | 43 +++++++++++++++-------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index d56e9c3..7d607de 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -400,7 +400,7 @@ class TokensLoader(BaseItemLoader):
         super().__init__()
         self._block_size = block_size
         self._mmaps: Dict[int, np.memmap] = {}
-        self._buffers: Dict[int, bytes] = {}
+        self._buffers: Dict[int, memoryview] = {}
         # keeps track of number of readers for each chunk (can be more than 1 if multiple workers are reading)
         self._counter = defaultdict(int)
         self._dtype: Optional[torch.dtype] = None
@@ -451,10 +451,12 @@ class TokensLoader(BaseItemLoader):
             begin += num_blocks
         return intervals
 
-    def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
+    def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> memoryview:
         self._counter[chunk_index] += 1
-        if chunk_index in self._mmaps:
-            return
+        # the other thread may release the chunk at any time
+        buffer = self._buffers.get(chunk_index)
+        if buffer is not None:
+            return buffer
         chunk = self._chunks[chunk_index]
 
         # Skip the header
@@ -463,8 +465,20 @@ class TokensLoader(BaseItemLoader):
         # for more details on the chunk's binary format, see `writer.py::_create_chunk`
         offset = (1 + chunk["chunk_size"] + 1) * 4
         mmap = np.memmap(chunk_filepath, mode="r", order="C", offset=offset)
+        buffer = memoryview(mmap)  # type: ignore
         self._mmaps[chunk_index] = mmap
-        self._buffers[chunk_index] = memoryview(mmap)  # type: ignore
+        self._buffers[chunk_index] = buffer
+        return buffer
+
+    def _release_chunk(self, chunk_index: int) -> None:
+        """Forget the memory-mapped file.
+
+        It isn't closed explicitly: the blocks which were handed out are views of it. The memory is unmapped as soon as
+        none of them is left.
+
+        """
+        self._buffers.pop(chunk_index, None)
+        self._mmaps.pop(chunk_index, None)
 
     def pre_load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
         # This is called within the prepare chunks thread, so we overlap data loading with data reading.
@@ -510,11 +524,9 @@ class TokensLoader(BaseItemLoader):
 
             self._chunk_filepaths[chunk_filepath] = True
 
-        self._load_chunk(chunk_index, chunk_filepath)
+        buffer = self._load_chunk(chunk_index, chunk_filepath)
         assert self._dtype
 
-        buffer: bytes = self._buffers[chunk_index]
-
         # offset: how many bytes to skip to get to the item we want to load
         #       -> if chunk begins at 5, and we want to load the item at index 7,
         #       -> we need to skip 2 items, and each item has `self._block_size` tokens
@@ -547,13 +559,8 @@ class TokensLoader(BaseItemLoader):
             )
         )
         if os.path.exists(chunk_filepath):
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                # explicitly close before deleting. Won't raise error if already closed.
-                self._mmaps[chunk_index]._mmap.close()
-                del self._mmaps[chunk_index]
-                del self._counter[chunk_index]
+            self._release_chunk(chunk_index)
+            self._counter.pop(chunk_index, None)
             os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
@@ -570,11 +577,7 @@ class TokensLoader(BaseItemLoader):
         self._counter[chunk_index] -= 1
 
         if self._counter[chunk_index] == 0:
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                self._mmaps[chunk_index]._mmap.close()
-                del self._mmaps[chunk_index]
+            self._release_chunk(chunk_index)
 
     @classmethod
     def encode_data(cls, data: List[bytes], _: List[int], flattened: List[Any]) -> Tuple[bytes, Optional[int]]:
-- 
2.43.0


From d416dd12db188a9bc37510564d1534232f6573ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 40/50] fix: index a dataset of Hugging Face once per node and
 publish its index complete

---
 src/litdata/utilities/dataset_utilities.py |  7 +++++--
 src/litdata/utilities/hf_dataset.py        | 15 ++++++++++-----
 src/litdata/utilities/parquet.py           |  7 +++++--
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index 3bd2a32..e9094f2 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -7,6 +7,7 @@ import tempfile
 import time
 from contextlib import suppress
 from typing import Any, Dict, List, Optional, Tuple
+from uuid import uuid4
 
 import numpy as np
 
@@ -317,5 +318,7 @@ def copy_index_to_cache_index_filepath(index_path: str, cache_index_filepath: st
     # Check if the file exists before copying
     if not os.path.isfile(index_path):
         raise FileNotFoundError(f"Index file not found: {index_path}")
-    # Copy the file to cache_index_filepath
-    shutil.copy(index_path, cache_index_filepath)
+    # Copy the file to cache_index_filepath: other processes either don't find it or find it complete
+    tmp_filepath = f"{cache_index_filepath}.{uuid4().hex}.tmp"
+    shutil.copy(index_path, tmp_filepath)
+    os.replace(tmp_filepath, cache_index_filepath)
diff --git a/src/litdata/utilities/hf_dataset.py b/src/litdata/utilities/hf_dataset.py
index 7740c04..b6399d1 100644
--- a/src/litdata/utilities/hf_dataset.py
+++ b/src/litdata/utilities/hf_dataset.py
@@ -2,6 +2,8 @@
 
 import os
 
+from filelock import FileLock
+
 from litdata.constants import _INDEX_FILENAME
 from litdata.streaming.writer import index_parquet_dataset
 from litdata.utilities.parquet import default_cache_dir
@@ -25,10 +27,13 @@ def index_hf_dataset(hf_url: str) -> str:
     cache_dir = default_cache_dir(hf_url)
     cache_index_path = os.path.join(cache_dir, _INDEX_FILENAME)
 
-    if os.path.exists(cache_index_path):
-        print(f"Found existing HF {_INDEX_FILENAME} file for {hf_url} at {cache_index_path}.")
-    else:
-        print(f"Indexing HF dataset from {hf_url} into {cache_index_path}.")
-        index_parquet_dataset(hf_url, cache_dir, num_workers=os.cpu_count() or 4)
+    # The processes of a node share the index: the first one writes it. An index written again would be newer than the
+    # chunks which the others have already downloaded with it.
+    with FileLock(f"{cache_dir}.lock"):
+        if os.path.exists(cache_index_path):
+            print(f"Found existing HF {_INDEX_FILENAME} file for {hf_url} at {cache_index_path}.")
+        else:
+            print(f"Indexing HF dataset from {hf_url} into {cache_index_path}.")
+            index_parquet_dataset(hf_url, cache_dir, num_workers=os.cpu_count() or 4)
 
     return cache_dir
diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 01bfbf2..3cadd3c 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -9,6 +9,7 @@ from concurrent.futures import ThreadPoolExecutor
 from time import time
 from typing import Any, Dict, Generator, List, Optional, Tuple, Union
 from urllib import parse
+from uuid import uuid4
 
 from litdata.constants import _FSSPEC_AVAILABLE, _HF_HUB_AVAILABLE, _INDEX_FILENAME, _PYARROW_AVAILABLE
 from litdata.streaming.resolver import Dir, _resolve_dir
@@ -55,10 +56,12 @@ class ParquetDir(ABC):
         assert self.cache_path is not None, "Cache path is not set."
         index_file_path = os.path.join(self.cache_path, _INDEX_FILENAME)
 
-        # write to index.json file
-        with open(index_file_path, "w") as f:
+        # write to index.json file: other processes either don't find it or find it complete
+        tmp_file_path = f"{index_file_path}.{uuid4().hex}.tmp"
+        with open(tmp_file_path, "w") as f:
             data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
             json.dump(data, f, sort_keys=True)
+        os.replace(tmp_file_path, index_file_path)
 
         print(f"Index file successfully written to: {index_file_path}")
 
-- 
2.43.0


From b6cabc6e94f4654f3f4e6d95a10238c38a720b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 41/50] fix: index parquet files in an order that doesn't
 depend on their listing

---
 src/litdata/utilities/parquet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 3cadd3c..d46d5f7 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -81,7 +81,8 @@ class LocalParquetDir(ParquetDir):
             )
         super().__init__(dir_path, cache_path, storage_options, num_workers)
 
-        for _f in os.listdir(self.dir.path):
+        # the order of the chunks mustn't depend on the order in which the filesystem lists them
+        for _f in sorted(os.listdir(self.dir.path)):
             if _f.endswith(".parquet"):
                 self.files.append(_f)
 
@@ -155,6 +156,7 @@ class CloudParquetDir(ParquetDir):
         for _f in self.fs.ls(self.dir.url, detail=True):
             if _f["type"] == "file" and _f["name"].endswith(".parquet"):
                 self.files.append(_f)
+        self.files.sort(key=lambda _f: _f["name"])
 
     def task(self, _file: Any) -> Dict[str, Any]:
         """Extract metadata from a Parquet file on the cloud filesystem without downloading the entire file."""
@@ -252,6 +254,7 @@ class HFParquetDir(ParquetDir):
         for _f in self.fs.ls(self.dir.url, detail=True):
             if isinstance(_f, dict) and _f["name"].endswith(".parquet"):
                 self.files.append(_f)
+        self.files.sort(key=lambda _f: _f["name"])
 
     def task(self, _file: dict) -> Dict[str, Any]:
         """Extract metadata from a Parquet file on Hugging Face Hub without downloading the entire file."""
-- 
2.43.0


From bb7819b00baeeaa0044e037d2a8f6f165a9d2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 42/50] fix: pass the storage options on when parquet files are
 indexed

---
 src/litdata/utilities/parquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index d46d5f7..c79a13a 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -148,7 +148,7 @@ class CloudParquetDir(ParquetDir):
         for provider in _CLOUD_PROVIDER:
             if self.dir.url.startswith(provider):
                 # Initialize the cloud filesystem
-                self.fs = fsspec.filesystem(provider, *self.storage_options)
+                self.fs = fsspec.filesystem(provider, **(self.storage_options or {}))
                 print(f"using provider: {provider}")
                 break
 
-- 
2.43.0


From 6d7fc0c9369d3db6892a9e8acb372ec0779e1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 43/50] fix: a parquet chunk which can't be downloaded is an
 error after a while

---
 src/litdata/streaming/item_loader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 7d607de..9a476b6 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -639,6 +639,7 @@ class ParquetLoader(BaseItemLoader):
         self._data_format = self._config["data_format"]
         self._shift_idx = len(self._data_format) * 4
         self.region_of_interest = region_of_interest
+        self._force_download_queue: Optional[Queue] = None
         self._df: Dict[int, Any] = {}
         self._chunk_row_groups: Dict[int, Any] = {}
         self._chunk_row_group_item_read_count: Dict[int, Any] = {}
@@ -686,10 +687,20 @@ class ParquetLoader(BaseItemLoader):
         if chunk_filepath not in self._chunk_filepaths:
             exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
 
+            start_time = time()
+            requested_force_download = False
+
             while not exists:
                 sleep(0.1)
                 exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
 
+                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                    self.force_download(chunk_index)
+                    requested_force_download = True
+
+                if (time() - start_time) > _MAX_WAIT_TIME:
+                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+
             self._chunk_filepaths[chunk_filepath] = True
 
         # relative index of the desired row within the chunk.
-- 
2.43.0


From cde8efd345c9ea03152fb0c9dfabef8db2b9429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 44/50] fix: read the rows of parquet files whose row groups
 have different sizes

---
 src/litdata/streaming/item_loader.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 9a476b6..37b60fc 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -14,9 +14,11 @@ import functools
 import logging
 import os
 from abc import ABC, abstractmethod
+from bisect import bisect_right
 from collections import defaultdict, namedtuple
 from copy import deepcopy
 from io import BytesIO, FileIO
+from itertools import accumulate
 from multiprocessing import Queue
 from time import sleep, time
 from typing import Any, Dict, List, Optional, Tuple, Union
@@ -641,6 +643,7 @@ class ParquetLoader(BaseItemLoader):
         self.region_of_interest = region_of_interest
         self._force_download_queue: Optional[Queue] = None
         self._df: Dict[int, Any] = {}
+        self._row_group_ends: Dict[int, List[int]] = {}
         self._chunk_row_groups: Dict[int, Any] = {}
         self._chunk_row_group_item_read_count: Dict[int, Any] = {}
 
@@ -738,9 +741,16 @@ class ParquetLoader(BaseItemLoader):
 
         # Determine the row group and the row index within the row group
         parquet_file = self._df[chunk_index]
-        num_rows_per_row_group = parquet_file.metadata.row_group(0).num_rows
-        row_group_index = row_index // num_rows_per_row_group
-        row_index_within_group = row_index % num_rows_per_row_group
+        # The row groups of a file may have different sizes
+        if chunk_index not in self._row_group_ends:
+            metadata = parquet_file.metadata
+            num_rows = [metadata.row_group(i).num_rows for i in range(metadata.num_row_groups)]
+            self._row_group_ends[chunk_index] = list(accumulate(num_rows))
+        row_group_ends = self._row_group_ends[chunk_index]
+        row_group_index = bisect_right(row_group_ends, row_index)
+        row_group_start = row_group_ends[row_group_index - 1] if row_group_index > 0 else 0
+        row_index_within_group = row_index - row_group_start
+        num_rows_in_row_group = row_group_ends[row_group_index] - row_group_start
 
         # Check if the row group is already loaded
         if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
@@ -763,7 +773,7 @@ class ParquetLoader(BaseItemLoader):
 
         # Check if the row group has been fully read and release memory if necessary
         read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_per_row_group:
+        if read_count >= num_rows_in_row_group:
             # Release memory for the fully read row group
             del self._chunk_row_groups[chunk_index][row_group_index]
             del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-- 
2.43.0


From d18318b49a5e2469f63767ef20869060c30e9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 45/50] fix: the reader and its thread may release a parquet
 chunk at the same time

---
 src/litdata/streaming/item_loader.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 37b60fc..d5164d7 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -817,13 +817,7 @@ class ParquetLoader(BaseItemLoader):
                 }
             )
         )
-        if chunk_index in self._df:
-            del self._df[chunk_index]
-        if chunk_index in self._chunk_row_groups:
-            del self._chunk_row_groups[chunk_index]
-
-        if chunk_index in self._chunk_row_group_item_read_count:
-            del self._chunk_row_group_item_read_count[chunk_index]
+        self.close(chunk_index)
         if os.path.exists(chunk_filepath):
             os.remove(chunk_filepath)
         logger.debug(
@@ -838,14 +832,10 @@ class ParquetLoader(BaseItemLoader):
 
     def close(self, chunk_index: int) -> None:
         """Release the memory-mapped file for a specific chunk index."""
-        if chunk_index in self._df:
-            del self._df[chunk_index]
-
-        if chunk_index in self._chunk_row_groups:
-            del self._chunk_row_groups[chunk_index]
-
-        if chunk_index in self._chunk_row_group_item_read_count:
-            del self._chunk_row_group_item_read_count[chunk_index]
+        # the other thread may do the same at any time
+        self._df.pop(chunk_index, None)
+        self._chunk_row_groups.pop(chunk_index, None)
+        self._chunk_row_group_item_read_count.pop(chunk_index, None)
 
     def encode_data(self, data: List[bytes], sizes: List[int], flattened: List[Any]) -> Any:
         pass
-- 
2.43.0


From 27b94f3152bf784d9aa422f16c176bd03d6c426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 46/50] fix: wait again for a parquet chunk that another worker
 has removed

---
 src/litdata/streaming/item_loader.py | 135 +++++++++++----------------
 1 file changed, 57 insertions(+), 78 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index d5164d7..f0af6fe 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -16,6 +16,7 @@ import os
 from abc import ABC, abstractmethod
 from bisect import bisect_right
 from collections import defaultdict, namedtuple
+from contextlib import suppress
 from copy import deepcopy
 from io import BytesIO, FileIO
 from itertools import accumulate
@@ -617,7 +618,6 @@ class ParquetLoader(BaseItemLoader):
         if not _PYARROW_AVAILABLE:
             raise ModuleNotFoundError("Please, run: `pip install pyarrow`")
 
-        self._chunk_filepaths: Dict[str, bool] = {}
         self._pre_load_chunk = pre_load_chunk
         self._low_memory = low_memory
 
@@ -667,10 +667,8 @@ class ParquetLoader(BaseItemLoader):
         if not self._pre_load_chunk or self._low_memory:
             return
 
-        import polars as pl
-
         if chunk_index not in self._df and os.path.exists(chunk_filepath):
-            self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
+            self._df[chunk_index] = self._read_chunk(chunk_filepath)
 
     def load_item_from_chunk(
         self,
@@ -681,44 +679,65 @@ class ParquetLoader(BaseItemLoader):
         filesize_bytes: int,
     ) -> Any:
         """Returns an item loaded from a parquet chunk."""
-        if chunk_filepath in self._chunk_filepaths and not os.path.isfile(chunk_filepath):
-            del self._chunk_filepaths[chunk_filepath]
-
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
-        if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
-
-            start_time = time()
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+        df = self._open_chunk(chunk_index, chunk_filepath, filesize_bytes)
+        start_time = time()
+        requested_force_download = False
 
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
+        while df is None:
+            sleep(0.1)
+            df = self._open_chunk(chunk_index, chunk_filepath, filesize_bytes)
 
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+            if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                self.force_download(chunk_index)
+                requested_force_download = True
 
-            self._chunk_filepaths[chunk_filepath] = True
+            if df is None and (time() - start_time) > _MAX_WAIT_TIME:
+                raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
 
         # relative index of the desired row within the chunk.
         relative_index = index - begin
         if self._low_memory:
-            item_data = self._get_item_with_low_memory(chunk_index, chunk_filepath, relative_index)
+            item_data = self._get_item_with_low_memory(chunk_index, df, relative_index)
         else:
-            item_data = self._get_item(chunk_index, chunk_filepath, relative_index)
+            # Note: The `named=True` argument is used to return the row as a dictionary
+            item_data = df.row(relative_index, named=True)
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "E"})
         )
         return item_data
 
-    def _get_item_with_low_memory(self, chunk_index: int, chunk_filepath: str, row_index: int) -> Any:
+    def _open_chunk(self, chunk_index: int, chunk_filepath: str, filesize_bytes: int) -> Optional[Any]:
+        """Open the chunk once it is complete. Another worker sharing the cache can remove it at any time."""
+        df = self._df.get(chunk_index)
+        if df is not None:
+            return df
+        with suppress(FileNotFoundError):
+            if os.stat(chunk_filepath).st_size >= filesize_bytes:
+                df = self._df[chunk_index] = self._read_chunk(chunk_filepath)
+        return df
+
+    def _read_chunk(self, chunk_filepath: str) -> Any:
+        """Read the metadata of a parquet chunk in low memory mode, the entire chunk otherwise.
+
+        Note:
+            Without low memory mode, this method reads the complete parquet file using Polars. Exercise caution with
+            large files as it may significantly increase memory usage.
+
+        """
+        if self._low_memory:
+            import pyarrow.parquet as pq
+
+            return pq.ParquetFile(chunk_filepath)
+
+        import polars as pl
+
+        return pl.scan_parquet(chunk_filepath, low_memory=True).collect()
+
+    def _get_item_with_low_memory(self, chunk_index: int, parquet_file: Any, row_index: int) -> Any:
         """Retrieve a dataframe row from a parquet chunk in low memory mode.
 
         This method reads only the necessary row group from the parquet file using PyArrow and Polars,
@@ -726,21 +745,14 @@ class ParquetLoader(BaseItemLoader):
 
         Args:
             chunk_index (int): The index of the chunk to be accessed.
-            chunk_filepath (str): The file path of the parquet chunk.
+            parquet_file (pyarrow.parquet.ParquetFile): The opened parquet chunk.
             row_index (int): The relative row index within the loaded chunk.
 
         Returns:
             Any: The dataframe row corresponding to the specified index.
         """
         import polars as pl
-        import pyarrow.parquet as pq
 
-        # Load the Parquet file metadata if not already loaded
-        if chunk_index not in self._df:
-            self._df[chunk_index] = pq.ParquetFile(chunk_filepath)
-
-        # Determine the row group and the row index within the row group
-        parquet_file = self._df[chunk_index]
         # The row groups of a file may have different sizes
         if chunk_index not in self._row_group_ends:
             metadata = parquet_file.metadata
@@ -752,60 +764,27 @@ class ParquetLoader(BaseItemLoader):
         row_index_within_group = row_index - row_group_start
         num_rows_in_row_group = row_group_ends[row_group_index] - row_group_start
 
-        # Check if the row group is already loaded
-        if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
-            # Use the cached row group
-            row_group_df = self._chunk_row_groups[chunk_index][row_group_index]
-            # update read count
-            self._chunk_row_group_item_read_count[chunk_index][row_group_index] += 1
-        else:
-            # Load the row group and convert it to a Polars DataFrame
-            row_group = self._df[chunk_index].read_row_group(row_group_index)
-            row_group_df = pl.from_arrow(row_group)
+        # The prepare thread may release the chunk at any time
+        row_groups = self._chunk_row_groups.setdefault(chunk_index, {})
+        read_counts = self._chunk_row_group_item_read_count.setdefault(chunk_index, {})
 
-            # Cache the loaded row group
-            if chunk_index not in self._chunk_row_groups:
-                self._chunk_row_groups[chunk_index] = {}
-                self._chunk_row_group_item_read_count[chunk_index] = {}
+        # Check if the row group is already loaded
+        if row_group_index not in row_groups:
+            # Load the row group, convert it to a Polars DataFrame and cache it
+            row_groups[row_group_index] = pl.from_arrow(parquet_file.read_row_group(row_group_index))
 
-            self._chunk_row_groups[chunk_index][row_group_index] = row_group_df
-            self._chunk_row_group_item_read_count[chunk_index][row_group_index] = 1
+        row_group_df = row_groups[row_group_index]
+        read_counts[row_group_index] = read_counts.get(row_group_index, 0) + 1
 
         # Check if the row group has been fully read and release memory if necessary
-        read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_in_row_group:
-            # Release memory for the fully read row group
-            del self._chunk_row_groups[chunk_index][row_group_index]
-            del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
+        if read_counts[row_group_index] >= num_rows_in_row_group:
+            del row_groups[row_group_index]
+            del read_counts[row_group_index]
 
         # Return the specific row from the dataframe
         # Note: The `named=True` argument is used to return the row as a dictionary
         return row_group_df.row(row_index_within_group, named=True)  # type: ignore
 
-    def _get_item(self, chunk_index: int, chunk_filepath: str, index: int) -> Any:
-        """Retrieve a dataframe row from a parquet chunk by loading the entire chunk into memory.
-
-        Note:
-            This method reads the complete parquet file using Polars. Exercise caution with large files as it
-            may significantly increase memory usage.
-
-        Args:
-            chunk_index (int): The index of the chunk to be accessed.
-            chunk_filepath (str): The file path of the parquet chunk.
-            index (int): The relative row index within the loaded chunk.
-
-        Returns:
-            Any: The dataframe row corresponding to the specified index.
-        """
-        import polars as pl
-
-        if chunk_index not in self._df:
-            self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
-
-        # Retrieve the specific row from the dataframe
-        # Note: The `named=True` argument is used to return the row as a dictionary
-        return self._df[chunk_index].row(index, named=True)
-
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         """Delete a chunk from the local filesystem."""
         logger.debug(
-- 
2.43.0


From d944081f21eaf0a5010541e9080e49ca5c6b79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 47/50] fix: wait again for a chunk of tokens that another
 worker has removed

---
 src/litdata/streaming/item_loader.py | 43 +++++++++++++++-------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index f0af6fe..f804c45 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -455,10 +455,10 @@ class TokensLoader(BaseItemLoader):
         return intervals
 
     def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> memoryview:
-        self._counter[chunk_index] += 1
         # the other thread may release the chunk at any time
         buffer = self._buffers.get(chunk_index)
         if buffer is not None:
+            self._counter[chunk_index] += 1
             return buffer
         chunk = self._chunks[chunk_index]
 
@@ -471,8 +471,19 @@ class TokensLoader(BaseItemLoader):
         buffer = memoryview(mmap)  # type: ignore
         self._mmaps[chunk_index] = mmap
         self._buffers[chunk_index] = buffer
+        self._counter[chunk_index] += 1
         return buffer
 
+    def _try_load_chunk(self, chunk_index: int, chunk_filepath: str, filesize_bytes: int) -> Optional[memoryview]:
+        """Load the chunk once it is complete. Another worker sharing the cache can remove it at any time."""
+        with suppress(FileNotFoundError):
+            if chunk_filepath in self._chunk_filepaths or os.stat(chunk_filepath).st_size >= filesize_bytes:
+                buffer = self._load_chunk(chunk_index, chunk_filepath)
+                self._chunk_filepaths[chunk_filepath] = True
+                return buffer
+        self._chunk_filepaths.pop(chunk_filepath, None)
+        return None
+
     def _release_chunk(self, chunk_index: int) -> None:
         """Forget the memory-mapped file.
 
@@ -501,33 +512,25 @@ class TokensLoader(BaseItemLoader):
     ) -> torch.Tensor:
         assert self._block_size
 
-        if chunk_filepath in self._chunk_filepaths and not os.path.isfile(chunk_filepath):
-            del self._chunk_filepaths[chunk_filepath]
-
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
 
-        if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > filesize_bytes
-
-            start_time = time()
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+        buffer = self._try_load_chunk(chunk_index, chunk_filepath, filesize_bytes)
+        start_time = time()
+        requested_force_download = False
 
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
+        while buffer is None:
+            sleep(0.1)
+            buffer = self._try_load_chunk(chunk_index, chunk_filepath, filesize_bytes)
 
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+            if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                self.force_download(chunk_index)
+                requested_force_download = True
 
-            self._chunk_filepaths[chunk_filepath] = True
+            if buffer is None and (time() - start_time) > _MAX_WAIT_TIME:
+                raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
 
-        buffer = self._load_chunk(chunk_index, chunk_filepath)
         assert self._dtype
 
         # offset: how many bytes to skip to get to the item we want to load
-- 
2.43.0


From 6c8cc797a162483c40f129a43556447ac54d01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 48/50] fix: read encrypted chunks through the file that has
 been opened

---
 src/litdata/streaming/item_loader.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index f804c45..17c1911 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -212,7 +212,8 @@ class PyTreeLoader(BaseItemLoader):
             self._open_handle = handle
 
         if self._config.get("encryption"):
-            data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
+            assert self._open_handle
+            data = self._load_encrypted_data(self._open_handle, chunk_index, offset, encryption)
         else:
             assert self._open_handle
             # load the data from raw bytes using the offset for the item we want to load
@@ -241,9 +242,13 @@ class PyTreeLoader(BaseItemLoader):
         return None
 
     def _load_encrypted_data(
-        self, chunk_filepath: str, chunk_index: int, offset: int, encryption: Optional[Encryption]
+        self, fp: FileIO, chunk_index: int, offset: int, encryption: Optional[Encryption]
     ) -> bytes:
-        """Load and decrypt data from chunk based on the encryption configuration."""
+        """Load and decrypt data from chunk based on the encryption configuration.
+
+        The chunk is read through its open file, as it can have been removed from the cache in the meantime.
+
+        """
         # Validate the provided encryption object against the expected configuration.
         self._validate_encryption(encryption)
 
@@ -251,19 +256,18 @@ class PyTreeLoader(BaseItemLoader):
         if self._config["encryption"]["level"] == EncryptionLevel.CHUNK:
             decrypted_data = self._decrypted_chunks.get(chunk_index, None)
             if decrypted_data is None:
-                with open(chunk_filepath, "rb", 0) as fp:
-                    encrypted_data = fp.read()
-                    decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
-                    # Store the decrypted chunk to avoid re-decryption,
-                    # also allows to free the previous chunk from the memory
-                    self._decrypted_chunks = {chunk_index: decrypted_data}
+                fp.seek(0)
+                encrypted_data = fp.read()
+                decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
+                # Store the decrypted chunk to avoid re-decryption,
+                # also allows to free the previous chunk from the memory
+                self._decrypted_chunks = {chunk_index: decrypted_data}
             data = self._load_data(BytesIO(decrypted_data), offset)
 
         # sample-level decryption
         elif self._config["encryption"]["level"] == EncryptionLevel.SAMPLE:
-            with open(chunk_filepath, "rb", 0) as fp:
-                data = self._load_data(fp, offset)
-                data = encryption.decrypt(data)  # type: ignore
+            data = self._load_data(fp, offset)
+            data = encryption.decrypt(data)  # type: ignore
 
         else:
             raise ValueError("Invalid encryption level.")
-- 
2.43.0


From c41e20e6eb0331d801f803177a0de9f9a112a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 49/50] fix: loading a state into a combined loader doesn't
 share it, it stayed the same object and changed

---
 src/litdata/streaming/combined.py   | 2 +-
 src/litdata/streaming/dataloader.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 805e10a..b98ba02 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -179,7 +179,7 @@ class CombinedStreamingDataset(IterableDataset):
 
         if self._num_samples_yielded is not None:
             # the number of samples this worker had yielded from each dataset, applies to the resumed epoch only
-            num_samples_yielded = self._num_samples_yielded.get(worker_env.rank, [0 for _ in self._datasets])
+            num_samples_yielded = list(self._num_samples_yielded.get(worker_env.rank, [0 for _ in self._datasets]))
             self._num_samples_yielded = None
 
         for dataset_idx, dataset in enumerate(self._datasets):
diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 4fa1c06..c8b3e8f 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -776,7 +776,8 @@ class StreamingDataLoader(DataLoader):
         if isinstance(self.dataset, StreamingDataset):
             self._num_samples_yielded_streaming = obj["num_samples_yielded"]
         else:
-            self._num_samples_yielded_combined = obj["num_samples_yielded"]
+            # the state may be loaded again, it must not change when more samples are yielded
+            self._num_samples_yielded_combined = deepcopy(obj["num_samples_yielded"])
 
         # Used to restart on the next DataLoader worker from the previous run.
         self._latest_worker_idx = obj["latest_worker_idx"] + 1
-- 
2.43.0


From 93f500fe67cb9202f0c875c0c3ea1001c1f85b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 50/50] fix: a state saved again before the first batch after
 it was loaded resumes on the same worker

---
 src/litdata/streaming/dataloader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index c8b3e8f..7d6b1b7 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -736,6 +736,11 @@ class StreamingDataLoader(DataLoader):
             return length
         return len(self._index_sampler)
 
+    @property
+    def _last_yielding_worker_idx(self) -> int:
+        # After a state was loaded, the index is the one of the worker to start with.
+        return self._latest_worker_idx - 1 if self.restore else self._latest_worker_idx
+
     def state_dict(self) -> Dict[str, Any]:
         if isinstance(self.dataset, StreamingDataset):
             assert self.batch_size
@@ -745,7 +750,7 @@ class StreamingDataLoader(DataLoader):
                 ),
                 "current_epoch": self.current_epoch,
                 "num_samples_yielded": self._num_samples_yielded_streaming,
-                "latest_worker_idx": self._latest_worker_idx,
+                "latest_worker_idx": self._last_yielding_worker_idx,
             }
 
         # initialize a list to track the number of samples yielded for each dataset
@@ -758,7 +763,7 @@ class StreamingDataLoader(DataLoader):
         return {
             "dataset": self.dataset.state_dict(self.num_workers, self.batch_size, num_samples_yieled),
             "current_epoch": self.current_epoch,
-            "latest_worker_idx": self._latest_worker_idx,
+            "latest_worker_idx": self._last_yielding_worker_idx,
             "num_samples_yielded": deepcopy(self._num_samples_yielded_combined),
         }
 
@@ -806,7 +811,7 @@ class StreamingDataLoader(DataLoader):
             # Check if we need to restore for the case with weights.
             # Note: `len` is not available for CombinedStreamingDataset in case of provided weights.
             # TODO: handle the case with weights.
-            if not self.dataset._iterate_over_all:
+            if not self.dataset._iterate_over_all and total_samples_yielded > 0:
                 self.restore = True
 
         elif isinstance(self.dataset, StreamingDataset):
-- 
2.43.0

