From 9350dd3252f9de37ddb3813e8ba5e5b26d77d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 01/37] fix: serialise the start of the prefetching thread

---
 src/synthpix/scheduler/prefetch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..443bb3c 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -60,6 +60,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._thread = threading.Thread(target=self._worker, daemon=True)
 
         self._started = False
+        self._start_lock = threading.Lock()
         self._t = 0
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
@@ -130,10 +131,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
     def _start_worker(self) -> None:
         """Starts the background prefetching thread if not already started."""
-        if not self._started:
-            self._started = True
-            self._thread.start()
-            logger.debug("Background thread started.")
+        # Consumers may race for the first batch: only one starts the thread.
+        with self._start_lock:
+            if not self._started:
+                self._started = True
+                self._thread.start()
+                logger.debug("Background thread started.")
 
     def _worker(self, eos_timeout: float = 2.0) -> None:
         """Background thread that fetches batches from the scheduler.
-- 
2.43.0


From a7dc1274d4cb9bc8829485f5a58a2e3e9b1f6e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 02/37] fix: make the prefetching thread notice shutdown while
 waiting for a slot

---
 src/synthpix/scheduler/prefetch.py | 43 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 443bb3c..73d36db 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -183,22 +183,38 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 self._stop_event.set()
                 return
 
-            # This will block until there is free space in the queue:
-            # no busy‑waiting needed.
-            # Exception cannot be raised here, would be dead code.
-            self._queue.put(batch, block=True)
+            # This will block until there is free space in the queue,
+            # or until the thread is asked to stop: no busy‑waiting needed.
+            self._put_batch(batch)
+
+    def _put_batch(self, batch: SchedulerData) -> None:
+        """Enqueue a batch, dropping it if the thread is asked to stop meanwhile.
+
+        Args:
+            batch: The batch to enqueue.
+        """
+        q = self._queue
+        with q.not_full:
+            while q._qsize() >= q.maxsize and not self._stop_event.is_set():
+                q.not_full.wait()
+            if self._stop_event.is_set():
+                return
+            q._put(batch)
+            q.unfinished_tasks += 1
+            q.not_empty.notify()
+
+    def _wake_worker(self) -> None:
+        """Wake the worker up if it is waiting for a free slot in the queue."""
+        with self._queue.mutex:
+            self._queue.not_full.notify_all()
 
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
         # Set the stop event to stop the current thread
         self._stop_event.set()
 
-        # If the thread is stuck on put(), free up one slot in the queue
-        # so the thread can check the stop event.
-        try:
-            self._queue.get_nowait()
-        except queue.Empty:
-            pass
+        # If the thread is waiting for a free slot, let it check the stop event.
+        self._wake_worker()
 
         # Wait for the thread to finish
         if self._thread.is_alive():
@@ -233,11 +249,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             # stop event not initialized, nothing to do
             return
 
-        # If producer is stuck on put(), free up one slot
-        try:
-            self._queue.get_nowait()
-        except queue.Empty:
-            pass
+        # If producer is waiting for a free slot, let it check the stop event
+        self._wake_worker()
 
         # If consumer is stuck on get(), inject the end-of-stream signal
         try:
-- 
2.43.0


From dd130de7919575ba444badb7b2f0a9e94865c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 03/37] fix: never drop a batch to signal the end of the
 prefetched stream

---
 src/synthpix/scheduler/prefetch.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 73d36db..e36889b 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -160,24 +160,18 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 # StopIteration when it has no more data to provide or when it has
                 # produced an incomplete batch. In the latter case, the behavior is so
                 # that the prefetching scheduler will ignore the incomplete batch
-                # and signal end‑of‑stream to consumer
-                try:
-                    self._queue.put(None, block=True, timeout=eos_timeout)
-                except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
-
-                    # Acquire the mutex to ensure atomicity
-                    with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
-                        # Write the EOS sentinel atomically
-                        self._queue.queue.append(None)
-
-                        # Notify the consumer that the end-of-stream signal is available
-                        self._queue.not_empty.notify_all()
+                # and signal end‑of‑stream to consumer.
+                # The signal carries no data, so if the queue stays full for
+                # <eos_timeout> it is appended beyond the buffer size: the
+                # batches still in the queue must reach the consumer.
+                with self._queue.mutex:
+                    self._queue.not_full.wait_for(
+                        lambda: self._stop_event.is_set()
+                        or self._queue._qsize() < self._queue.maxsize,
+                        timeout=eos_timeout,
+                    )
+                    self._queue.queue.append(None)
+                    self._queue.not_empty.notify_all()
 
                 logger.info("No more data to fetch, stopping prefetching thread.")
                 self._stop_event.set()
-- 
2.43.0


From 3bcfbee79fe46141b8fd2a7c43a376d581bd9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 04/37] fix: keep discarding an abandoned episode after the
 next_episode deadline

---
 src/synthpix/scheduler/prefetch.py | 31 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index e36889b..fa242ef 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -62,6 +62,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._started = False
         self._start_lock = threading.Lock()
         self._t = 0
+        # Batches of abandoned episodes that the worker has yet to produce
+        self._to_discard = 0
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -104,13 +106,21 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     "Use next_episode() to continue."
                 )
         try:
-            if self.startup:
-                batch = self._queue.get(block=True, timeout=self.startup_timeout)
-            else:
-                batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
+            while True:
+                if self.startup:
+                    batch = self._queue.get(block=True, timeout=self.startup_timeout)
+                else:
+                    batch = self._queue.get(
+                        block=True, timeout=self.steady_state_timeout
+                    )
+
+                if self.startup:
+                    self.startup = False
 
-            if self.startup:
-                self.startup = False
+                # Skip what is left of episodes abandoned by next_episode()
+                if batch is None or self._to_discard == 0:
+                    break
+                self._to_discard -= 1
 
             self._t += 1
             if batch is None:
@@ -223,6 +233,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._to_discard = 0
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
@@ -296,10 +307,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             return
 
         if self._started and self.steps_remaining() > 0:
-            to_discard = self.steps_remaining()
-            discarded = 0
+            # What cannot be discarded in time is discarded by get_batch().
+            self._to_discard += self.steps_remaining()
             deadline = time.time() + join_timeout
-            while discarded < to_discard:
+            while self._to_discard > 0:
                 remaining_time = deadline - time.time()
                 if remaining_time <= 0:
                     break
@@ -309,7 +320,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     continue
                 if item is None:  # End-of-stream signal
                     break
-                discarded += 1
+                self._to_discard -= 1
         else:
             self._start_worker()
 
-- 
2.43.0


From 4b8d4c96d7cdbec7433711b67ef5000984cac34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 05/37] fix: do not count the end-of-stream signal as an
 episode step

---
 src/synthpix/scheduler/prefetch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index fa242ef..608aa69 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -122,10 +122,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     break
                 self._to_discard -= 1
 
-            self._t += 1
             if batch is None:
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
+            self._t += 1
             return batch
         except queue.Empty:
             logger.info("Unable to get data.")
-- 
2.43.0


From 24913ddb7ab7dd5d24d8fe3ef848558831362410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 06/37] fix: forward errors of the prefetching thread to the
 consumer

---
 src/synthpix/scheduler/prefetch.py | 45 ++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 608aa69..3f5e344 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -18,6 +18,13 @@ from synthpix.scheduler.protocol import (
 logger = get_logger(__name__, scope=SYNTHPIX_SCOPE)
 
 
+class _ProducerFailure:
+    """Queue item carrying an error raised in the background thread."""
+
+    def __init__(self, error: Exception):
+        self.error = error
+
+
 class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
     """Prefetching Wrapper around a FlowFieldScheduler or an EpisodicScheduler.
 
@@ -64,6 +71,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self._t = 0
         # Batches of abandoned episodes that the worker has yet to produce
         self._to_discard = 0
+        # Error of the worker, once it has been reported to the consumer
+        self._error: Exception | None = None
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -91,12 +100,15 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         Raises:
             ValueError: If the requested batch_size does not match
                 the prefetching batch size.
+            Exception: If the underlying scheduler failed with it.
         """
         if batch_size != self.batch_size:
             raise ValueError(
                 f"Batch size {batch_size} does not match the "
                 f"prefetching batch size {self.batch_size}."
             )
+        if self._error is not None:
+            raise self._error
         self._start_worker()
 
         if isinstance(self.scheduler, EpisodicSchedulerProtocol):
@@ -117,6 +129,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 if self.startup:
                     self.startup = False
 
+                self._raise_if_failed(batch)
+
                 # Skip what is left of episodes abandoned by next_episode()
                 if batch is None or self._to_discard == 0:
                     break
@@ -148,9 +162,38 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 self._thread.start()
                 logger.debug("Background thread started.")
 
+    def _raise_if_failed(self, item: SchedulerData | _ProducerFailure | None) -> None:
+        """Raise the error of the background thread if the item carries one.
+
+        Args:
+            item: An item taken from the queue.
+        """
+        if isinstance(item, _ProducerFailure):
+            self._error = item.error
+            raise item.error
+
     def _worker(self, eos_timeout: float = 2.0) -> None:
         """Background thread that fetches batches from the scheduler.
 
+        An unexpected error of the scheduler ends the thread and is forwarded
+        to the consumer.
+
+        Args:
+            eos_timeout: Timeout in seconds for putting the end-of-stream
+                signal in the queue.
+        """
+        try:
+            self._produce(eos_timeout)
+        except Exception as e:
+            logger.error(f"Prefetching failed: {e!r}")
+            with self._queue.mutex:
+                self._queue.queue.append(_ProducerFailure(e))
+                self._queue.not_empty.notify_all()
+            self._stop_event.set()
+
+    def _produce(self, eos_timeout: float) -> None:
+        """Fetch batches from the scheduler until its end or until asked to stop.
+
         Args:
             eos_timeout: Timeout in seconds for putting the end-of-stream
                 signal in the queue.
@@ -234,6 +277,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         self.scheduler.reset()
         self._t = 0
         self._to_discard = 0
+        self._error = None
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
@@ -318,6 +362,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     item = self._queue.get(block=True, timeout=remaining_time)
                 except queue.Empty:
                     continue
+                self._raise_if_failed(item)
                 if item is None:  # End-of-stream signal
                     break
                 self._to_discard -= 1
-- 
2.43.0


From 12c441fef07e9fe345867221f350dba7f60df77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 07/37] fix: serve a file listed twice in a row twice

---
 src/synthpix/scheduler/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..99276ce 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -189,6 +189,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 return sample
             except FileEndedError as e:
                 self.index += 1
+                # The next entry may be the same (cached) file: serve it anew
+                self._slice_idx = 0
                 continue  # Skip to the next file
 
         raise StopIteration
-- 
2.43.0


From 419ac2eb82da8ab303e98a36a49c6b2737c0d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 08/37] fix: pad colour images of a short final batch

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 99276ce..92c44a2 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -270,14 +270,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From 86641888f7dba234f10f3169443f6fdb61b916c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 09/37] fix: end instead of searching for ever when a looping
 scheduler has no loadable file

---
 src/synthpix/scheduler/base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 92c44a2..cc05770 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -160,9 +160,15 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             A single flow field slice.
 
         Raises:
-            StopIteration: If no more data and loop is False.
+            StopIteration: If no more data and loop is False, or if
+                a whole pass over the files yields no data.
         """
+        skipped = 0  # entries given up since the last time data was served
         while self.index < len(self.file_list) or self.loop:
+            # The rest of this pass and a whole further one yielded no data
+            if skipped >= 2 * len(self.file_list):
+                break
+
             # Handle loop around
             if self.index >= len(self.file_list):
                 self.reset()
@@ -181,6 +187,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 except Exception as e:
                     logger.error(f"Error loading file {path}: {e}")
                     self.index += 1
+                    skipped += 1
                     continue  # Skip to the next file
 
             try:
@@ -191,6 +198,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self.index += 1
                 # The next entry may be the same (cached) file: serve it anew
                 self._slice_idx = 0
+                skipped += 1
                 continue  # Skip to the next file
 
         raise StopIteration
@@ -209,7 +217,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
 
         Raises:
             StopIteration: If the dataset is exhausted before reaching the
-                desired batch size and `loop` is set to False.
+                desired batch size and `loop` is set to False,
+                or if none of the files can be loaded.
         """
         batch: list[SchedulerData] = []
         mask = np.ones((batch_size,), dtype=bool)
@@ -220,10 +229,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             except StopIteration:
                 break
         if len(batch) == 0:
-            if not self.loop:
-                raise StopIteration
-            self.reset()
-        if len(batch) < batch_size and not self.loop:
+            raise StopIteration
+        if len(batch) < batch_size:
             mask = np.zeros((batch_size,), dtype=bool)
             mask[: len(batch)] = True
 
-- 
2.43.0


From 608f511d0052fe3217a1a21b0d4281d6b0d21495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 10/37] fix: honour the random key of a scheduler configuration

---
 src/synthpix/scheduler/hdf5.py  | 2 +-
 src/synthpix/scheduler/mat.py   | 2 +-
 src/synthpix/scheduler/numpy.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..5dfc492 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -115,5 +115,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
         return cls(
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
-            loop=config.get("loop", True),
+            loop=config.get("loop", True),            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..73fd86f 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -225,5 +225,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
-            output_shape=tuple(config.get("output_shape", (256, 256))),
+            output_shape=tuple(config.get("output_shape", (256, 256))),            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..22aaa77 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -139,5 +139,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
-            include_images=config.get("include_images", False),
+            include_images=config.get("include_images", False),            key=config.get("key"),
         )
-- 
2.43.0


From f98148230d3f87dc7d2ac5ae2fcdc4eb9b8bb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 11/37] fix: accept directories of HDF5 files

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 5dfc492..a3a257a 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From 884051f48066e3094a99af906525fea797148fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 12/37] fix: take directory names literally when looking for
 data files

---
 src/synthpix/scheduler/base.py     | 2 +-
 src/synthpix/scheduler/episodic.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index cc05770..2fe7fa8 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -73,7 +73,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         for file_path in file_list:
             if os.path.isdir(file_path):
                 logger.debug(f"Searching for files in {file_path}")
-                pattern = os.path.join(file_path, self._file_pattern)
+                pattern = os.path.join(glob.escape(file_path), self._file_pattern)
                 found_files = sorted(glob.glob(pattern, recursive=True))
                 logger.debug(f"Found {len(found_files)} files in {file_path}")
                 self._file_list.extend(found_files)
diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..3be54c4 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -234,7 +234,10 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         """
         # Extract the leaf directories from the file list
         leaf_dirs = discover_leaf_dirs(self.file_list)
-        dir2files = {d: sorted(glob.glob(os.path.join(d, "*.mat"))) for d in leaf_dirs}
+        dir2files = {
+            d: sorted(glob.glob(os.path.join(glob.escape(d), "*.mat")))
+            for d in leaf_dirs
+        }
 
         # Sanity-check: all directories must contain enough frames
         for d, files in dir2files.items():
-- 
2.43.0


From bafdf84f46920b53ba5563990aeba1351ab8d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 13/37] fix: resize recorded images to (height, width), not
 (width, height)

---
 src/synthpix/scheduler/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 73fd86f..a77435c 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -143,12 +143,12 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
 
         # Resizing images and flow to output_shape
         if self.include_images:
+            # PIL resize expects (width, height)
+            image_size = (self.output_shape[1], self.output_shape[0])
             for key in ("I0", "I1"):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
-                    data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
-                    )
+                    data[key] = np.asarray(Image.fromarray(img).resize(image_size))
 
         flow = data["V"]
         assert flow.shape[2] == 2 or flow.shape[0] == 2, (
-- 
2.43.0


From b6dbf14bd331e00014afd9e858da8c58aff02e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 14/37] fix: serve the two in-plane components of
 three-component HDF5 flows

---
 src/synthpix/scheduler/hdf5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index a3a257a..55988aa 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -76,6 +76,9 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
         if self._slice_idx >= self._cached_data.flow_fields.shape[1]:
             raise FileEndedError("End of file data reached.")
         flow = self._cached_data.flow_fields[:, self._slice_idx, :, :]
+        if flow.shape[-1] == 3:
+            # (x, y, z) velocities: the y component is normal to the slice
+            flow = flow[..., ::2]
         return SchedulerData(
             flow_fields=flow,
             files=(self._cached_file,),
-- 
2.43.0


From 634367d9724d948b9324c0b451270dfe1f428f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 15/37] fix: keep the order of an episode when the wrapped
 scheduler shuffles

---
 src/synthpix/scheduler/episodic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index 3be54c4..1df9c18 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -289,5 +289,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         )
 
         # Inject new order and reset cursors without reshuffling internally
+        if getattr(self.scheduler, "randomize", False):
+            self.scheduler.randomize = False  # type: ignore[attr-defined]
         self.scheduler.file_list = interleaved
         self.scheduler.reset()
-- 
2.43.0


From e9a0e0448e5c4a89c1d77253fb3ff42fc27ebfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 16/37] fix: list leaf directories in an order independent of
 the hash seed

---
 src/synthpix/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..2197a62 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -460,7 +460,8 @@ def discover_leaf_dirs(
     Returns:
         A list of directory paths that are leaves (have no subdirectories).
     """
-    dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
+    # dedupe upfront, in an order that does not depend on the process hash seed
+    dir_paths = sorted({os.path.normpath(os.path.dirname(p)) for p in paths})
     leaves: list[str] = []
 
     for d in dir_paths:
-- 
2.43.0


From ac6c00b5db0c01f48bdac4857a20c0801ff335a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 17/37] fix: do not take directories with a data file suffix
 for data files

---
 src/synthpix/scheduler/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 2fe7fa8..82de28f 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -74,7 +74,9 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if os.path.isdir(file_path):
                 logger.debug(f"Searching for files in {file_path}")
                 pattern = os.path.join(glob.escape(file_path), self._file_pattern)
-                found_files = sorted(glob.glob(pattern, recursive=True))
+                found_files = sorted(
+                    f for f in glob.glob(pattern, recursive=True) if os.path.isfile(f)
+                )
                 logger.debug(f"Found {len(found_files)} files in {file_path}")
                 self._file_list.extend(found_files)
             else:
-- 
2.43.0


From 233b28b72198c0bcb0fc559766d241f551a8a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 18/37] fix: do not serve the flow fields of the last batch
 again after the end of the data

---
 src/synthpix/sampler/synthetic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..b16c7cf 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -466,10 +466,9 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
+            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             # Reset the batch counter
             self._batches_generated = 0
-
-            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
             self._mask_scheduler = (
                 scheduler_batch.mask
-- 
2.43.0


From 69cb860127e98ef82d93f9a232497ffce2507028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 19/37] fix: do not lose a pixel or a label to rounding errors

---
 src/synthpix/sampler/synthetic.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index b16c7cf..33e1a30 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -28,6 +28,19 @@ from .base import Sampler
 logger = get_logger(__name__, scope=SYNTHPIX_SCOPE)
 
 
+def _whole(x: float) -> int:
+    """Round a non-negative number down, forgiving floating-point noise.
+
+    Args:
+        x: The number to round, e.g. a length times a resolution.
+
+    Returns:
+        The largest integer not above x, or the one just above x when x is
+        below it by no more than rounding errors explain.
+    """
+    return int(x + 1e-6)
+
+
 class SyntheticImageSampler(Sampler):
     """Iterator class that generates synthetic images from flow fields.
 
@@ -214,8 +227,8 @@ class SyntheticImageSampler(Sampler):
             raise ValueError("velocities_per_pixel must be a positive number.")
         self.velocities_per_pixel = velocities_per_pixel
         self.output_flow_field_shape = (
-            int(image_shape[0] * velocities_per_pixel),
-            int(image_shape[1] * velocities_per_pixel),
+            _whole(image_shape[0] * velocities_per_pixel),
+            _whole(image_shape[1] * velocities_per_pixel),
         )
 
         self.max_diameter = max(r[1] for r in generation_specification.diameter_ranges)
@@ -343,14 +356,14 @@ class SyntheticImageSampler(Sampler):
 
         # Calculate the image offset in pixels
         self.img_offset = (
-            int((img_offset[0] - position_bounds_offset[0]) * resolution),
-            int((img_offset[1] - position_bounds_offset[1]) * resolution),
+            _whole((img_offset[0] - position_bounds_offset[0]) * resolution),
+            _whole((img_offset[1] - position_bounds_offset[1]) * resolution),
         )
 
         # Calculate the position bounds in pixels
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            _whole(position_bounds[0] * resolution),
+            _whole(position_bounds[1] * resolution),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From 61b846af78b4ecde6cf90d5ccc104497cc224bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 20/37] fix: account for the whole padding of the flow field
 when placing the image in it

---
 src/synthpix/sampler/synthetic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 33e1a30..e25bbc1 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -348,10 +348,11 @@ class SyntheticImageSampler(Sampler):
         pad_x = int(jnp.ceil(zero_padding[1] * self.flow_field_res_x))
         self.zero_padding = (pad_y, pad_x)
 
-        # Set the position bounds offset
+        # Set the position bounds offset within the padded flow field
+        # (the padding is made of whole grid steps)
         self.position_bounds_offset = (
-            max(0, position_bounds_offset[0]),
-            max(0, position_bounds_offset[1]),
+            max(0, position_bounds_offset[0] + pad_y / self.flow_field_res_y),
+            max(0, position_bounds_offset[1] + pad_x / self.flow_field_res_x),
         )
 
         # Calculate the image offset in pixels
-- 
2.43.0


From 0eed82d295c790948ba6b8cb701f190c3da7d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 21/37] fix: displace particles by the labelled flow also when
 the image does not span whole grid steps

---
 src/synthpix/sampler/synthetic.py |  6 ++++--
 src/synthpix/utils.py             | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index e25bbc1..d97a57c 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -404,13 +404,15 @@ class SyntheticImageSampler(Sampler):
                 zero_padding=self.zero_padding,
             )
 
+        # The flow fields given to it cover the position bounds, with a step that
+        # differs from the grid's when these are not a whole number of steps
         self.img_gen_fn_jit = lambda key, flow: generate_images_from_flow(
             key=key,
             flow_field=flow,
             parameters=generation_specification,
             position_bounds=self.position_bounds,
-            flow_field_res_x=self.flow_field_res_x,
-            flow_field_res_y=self.flow_field_res_y,
+            flow_field_res_x=flow.shape[2] / self.position_bounds[1] * self.resolution,
+            flow_field_res_y=flow.shape[1] / self.position_bounds[0] * self.resolution,
             mask=self.mask_images,
             histogram=self.histogram,
         )
diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 2197a62..06c9e1c 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -289,19 +289,21 @@ def flow_field_adapter(
             position_bounds_offset[0] * res_y,
             position_bounds_offset[1] * res_x,
         )
+        # The window rarely spans a whole number of grid steps: its nodes divide
+        # it evenly, so that they keep their distance when it is rescaled
+        extent_y = position_bounds[0] / resolution * res_y
+        extent_x = position_bounds[1] / resolution * res_x
+        num_y = max(1, int(extent_y))
+        num_x = max(1, int(extent_x))
         flow_position_bounds_end = (
-            flow_position_bounds_start[0] + position_bounds[0] / resolution * res_y - 1,
-            flow_position_bounds_start[1] + position_bounds[1] / resolution * res_x - 1,
+            flow_position_bounds_start[0] + extent_y - extent_y / num_y,
+            flow_position_bounds_start[1] + extent_x - extent_x / num_x,
         )
         flow_position_bounds_vec_y = jnp.linspace(
-            flow_position_bounds_start[0],
-            flow_position_bounds_end[0],
-            max(1, int(position_bounds[0] / resolution * res_y)),
+            flow_position_bounds_start[0], flow_position_bounds_end[0], num_y
         )
         flow_position_bounds_vec_x = jnp.linspace(
-            flow_position_bounds_start[1],
-            flow_position_bounds_end[1],
-            max(1, int(position_bounds[1] / resolution * res_x)),
+            flow_position_bounds_start[1], flow_position_bounds_end[1], num_x
         )
         flow_position_bounds_grid_x, flow_position_bounds_grid_y = jnp.meshgrid(
             flow_position_bounds_vec_x, flow_position_bounds_vec_y
-- 
2.43.0


From 6495b245c7b3c07efcfc5c8027124c65aa1aa60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 22/37] fix: report episode ends through prefetching only for
 sources with episodes, and use each of their steps once

---
 src/synthpix/sampler/base.py      | 20 +++++++++++++++-----
 src/synthpix/sampler/synthetic.py |  6 +-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/synthpix/sampler/base.py b/src/synthpix/sampler/base.py
index fa81c64..abcd8f0 100644
--- a/src/synthpix/sampler/base.py
+++ b/src/synthpix/sampler/base.py
@@ -76,10 +76,7 @@ class Sampler(ABC):
         Returns:
             The next batch of data as a SynthpixBatch instance.
         """
-        if (
-            isinstance(self.scheduler, EpisodicSchedulerProtocol)
-            and self.scheduler.steps_remaining() == 0
-        ):
+        if self._is_episodic() and self.scheduler.steps_remaining() == 0:
             raise EpisodeEnd(
                 "Episode ended. No more flow fields available. "
                 "Use next_episode() to continue."
@@ -87,7 +84,7 @@ class Sampler(ABC):
 
         batch = self._get_next()
 
-        if isinstance(self.scheduler, EpisodicSchedulerProtocol):
+        if self._is_episodic():
             done = self._make_done()
             batch = batch.update(done=done)
 
@@ -115,6 +112,19 @@ class Sampler(ABC):
             raise AttributeError("Underlying scheduler lacks next_episode() method.")
         self.scheduler.next_episode()
 
+    def _is_episodic(self) -> bool:
+        """Tell whether the data comes in episodes.
+
+        A prefetching scheduler follows the episodic protocol whatever it wraps:
+        its data comes in episodes only if it has an episode length.
+
+        Returns:
+            True if the underlying scheduler serves episodes, False otherwise.
+        """
+        return isinstance(self.scheduler, EpisodicSchedulerProtocol) and hasattr(
+            self.scheduler, "episode_length"
+        )
+
     def _make_done(self) -> jnp.ndarray:
         """Return a `(batch_size,)` bool array if episodic.
 
diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index d97a57c..0205e89 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -14,7 +14,6 @@ from synthpix.data_generate import (
     input_check_gen_img_from_flow,
     generate_images_from_flow,
 )
-from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
 from synthpix.types import ImageGenerationSpecification, SynthpixBatch
 from synthpix.utils import (
     DEBUG_JIT,
@@ -173,10 +172,7 @@ class SyntheticImageSampler(Sampler):
         if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
             raise ValueError("batches_per_flow_batch must be a positive integer.")
         self.batches_per_flow_batch = batches_per_flow_batch
-        if (
-            isinstance(self.scheduler, EpisodicFlowFieldScheduler)
-            and batches_per_flow_batch != 1
-        ):
+        if self._is_episodic() and batches_per_flow_batch != 1:
             self.batches_per_flow_batch = 1
             logger.warning("Using batches_per_flow_batch = 1 for episodic setting.")
 
-- 
2.43.0


From fa3dbd57a091b6ba4f7f5d7cf09b9528a929f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 23/37] fix: evaluate flow functions at (t, x, y) when making
 flow field arrays

---
 src/synthpix/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 06c9e1c..a229eb2 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -178,7 +178,7 @@ def generate_array_flow_field(
     """Generate a array flow field from a flow field function.
 
     Args:
-        flow_f: The flow field function.
+        flow_f: The flow field function, of (t, x, y).
         grid_shape: The shape of the grid.
 
     Returns:
@@ -192,7 +192,7 @@ def generate_array_flow_field(
 
     # vmap over both axes, and apply the flow function at time t=1
     arr = jax.vmap(
-        lambda i: jax.vmap(lambda j: jnp.array(flow_f(jnp.ones(1), i, j)))(cols)
+        lambda i: jax.vmap(lambda j: jnp.array(flow_f(jnp.ones(1), j, i)))(cols)
     )(rows)
 
     return arr
-- 
2.43.0


From 9d94c60f6ba989f7e1c8197bb93cc8d9c966996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 24/37] fix: keep particles in place in images smaller than
 their patch, without wrapping round the border

---
 src/synthpix/generate.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/generate.py b/src/synthpix/generate.py
index 6f5566a..b61ca46 100644
--- a/src/synthpix/generate.py
+++ b/src/synthpix/generate.py
@@ -129,9 +129,11 @@ def img_gen_from_data(
     def single_particle_scatter(pos, diameter_x, diameter_y, rho, amp):
         y0, x0 = pos[0], pos[1]
 
-        # Clip to image bounds
-        y0 = jnp.clip(y0, patch_radius, H - patch_radius - 1e-6)
-        x0 = jnp.clip(x0, patch_radius, W - patch_radius - 1e-6)
+        # Clip to image bounds, along the axes where the patch fits in the image
+        if H >= patch_size:
+            y0 = jnp.clip(y0, patch_radius, H - patch_radius - 1e-6)
+        if W >= patch_size:
+            x0 = jnp.clip(x0, patch_radius, W - patch_radius - 1e-6)
 
         # Compute top-left corner of the patch
         top_left = (
@@ -169,7 +171,9 @@ def img_gen_from_data(
 
     # Scatter into final image
     image = jnp.zeros((H, W))
-    image = image.at[tuple(all_coords.T)].add(all_updates)
+    image = image.at[tuple(all_coords.T)].add(
+        all_updates, mode="drop", wrap_negative_indices=False
+    )
 
     # Clip to image bounds
     if clip:
-- 
2.43.0


From edf1a51754c0a57c60f75dfecd75b4f3f425c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 25/37] fix: warp whole-number images forward without
 truncating their deposits

---
 src/synthpix/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/apply.py b/src/synthpix/apply.py
index 91f2144..d16c188 100644
--- a/src/synthpix/apply.py
+++ b/src/synthpix/apply.py
@@ -37,7 +37,8 @@ def apply_flow_to_image_forward(
     x_d = x_grid + u * dt
     y_d = y_grid + v * dt
 
-    new_image = jnp.zeros_like(image)
+    # Deposits are fractional, whatever the type of the image
+    new_image = jnp.zeros((H, W), dtype=jnp.result_type(image.dtype, x_d.dtype))
 
     def deposit_pixel(new_image, x_src, y_src, val):
         x0 = jnp.floor(x_src).astype(int)
-- 
2.43.0


From 33d116fa0ee4f764b8e6bd94e7c5fc0364440c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 26/37] fix: refuse not-a-number time steps and noise
 deviations in generation settings

---
 src/synthpix/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/types.py b/src/synthpix/types.py
index 14184b4..42ae0ee 100644
--- a/src/synthpix/types.py
+++ b/src/synthpix/types.py
@@ -298,12 +298,12 @@ class ImageGenerationSpecification:
             and self.noise_gaussian_mean >= 0
         ):
             raise ValueError("noise_gaussian_mean must be a non-negative number.")
-        if (
-            not isinstance(self.noise_gaussian_std, (int, float))
-            or self.noise_gaussian_std < 0
+        if not (
+            isinstance(self.noise_gaussian_std, (int, float))
+            and self.noise_gaussian_std >= 0
         ):
             raise ValueError("noise_gaussian_std must be a non-negative number.")
-        if not isinstance(self.dt, (int, float)) or self.dt <= 0:
+        if not (isinstance(self.dt, (int, float)) and self.dt > 0):
             raise ValueError("dt must be a positive number.")
 
     def update(self, **kwargs) -> Self:
-- 
2.43.0


From 85bfd7d1ac2cca6eb7d8b569d03ae7fa28b9e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 27/37] fix: carry the file names of a batch through array
 transformations as auxiliary data

---
 src/synthpix/types.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/types.py b/src/synthpix/types.py
index 42ae0ee..8de7288 100644
--- a/src/synthpix/types.py
+++ b/src/synthpix/types.py
@@ -95,11 +95,14 @@ class SynthpixBatch:
     def tree_flatten(
         self,
     ) -> tuple[
-        tuple[jnp.ndarray | ImageGenerationParameters | tuple[str, ...] | None, ...],
-        None,
+        tuple[jnp.ndarray | ImageGenerationParameters | None, ...],
+        tuple[str, ...] | None,
     ]:
         """Flattens the SynthpixBatch into its constituent parts.
 
+        The file names are no arrays: they are auxiliary data, which
+        transformations carry along.
+
         Returns:
             A tuple containing the flattened children and auxiliary data.
         """
@@ -110,9 +113,8 @@ class SynthpixBatch:
             self.params,
             self.done,
             self.mask,
-            self.files,
         )
-        aux_data = None
+        aux_data = self.files
         return (children, aux_data)
 
     @classmethod
@@ -120,11 +122,11 @@ class SynthpixBatch:
         """Reconstructs a SynthpixBatch from its flattened children.
 
         Args:
-            aux_data: Auxiliary data (not used here).
+            aux_data: The file names of the SynthpixBatch.
 
             children: Tuple containing the flattened fields of the SynthpixBatch.
         """
-        return cls(*children)
+        return cls(*children, files=aux_data)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 8c780a5bc3cf1df4f424fd405e3db227c1500c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 28/37] fix: update configuration files without changing other
 entries and in one step

---
 src/synthpix/sanity.py | 68 +++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..30851dd 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -1,14 +1,16 @@
 """Script to check the sanity of the configuration file."""
 
 import argparse
-import collections
 import os
+import shutil
 import sys
+import tempfile
 
 import h5py
 import jax.numpy as jnp
 import numpy as np
 from goggles import get_logger
+from ruamel.yaml import YAML
 from tqdm import tqdm
 
 from .sampler import SyntheticImageSampler
@@ -26,40 +28,50 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
         updated_values: A dictionary of values to update
             in the configuration file.
     """
-    config_data = load_configuration(config_path)
+    config_data = dict(load_configuration(config_path))
 
-    # Convert to OrderedDict to preserve order
-    config_data = collections.OrderedDict(config_data)
-
-    # Convert all values in config_data to standard Python types
+    # Convert a value to standard Python types
     def convert_to_standard_type(value):
-        if isinstance(value, (np.floating)):
-            return float(value)
-        elif isinstance(value, (np.integer, jnp.integer)):
-            return int(value)
-        elif isinstance(value, (np.ndarray, jnp.ndarray)):
-            return value.tolist()
+        if isinstance(value, (np.generic, np.ndarray, jnp.ndarray)):
+            return convert_to_standard_type(value.tolist())
+        elif isinstance(value, str):
+            return str(value)
+        elif isinstance(value, dict):
+            return {
+                convert_to_standard_type(k): convert_to_standard_type(v)
+                for k, v in value.items()
+            }
+        elif isinstance(value, (list, tuple)):
+            return [convert_to_standard_type(v) for v in value]
         return value
 
-    # Convert all values in config_data to standard Python types
-    config_data = collections.OrderedDict(
-        {key: convert_to_standard_type(value) for key, value in config_data.items()}
-    )
-
-    # Add new keys at the end
+    # Existing keys keep their place, new ones are added at the end
     for key, value in updated_values.items():
         config_data[key] = convert_to_standard_type(value)
 
-    # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
-
-    with open(config_path, "w") as file:
-        for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
-        if file_list and isinstance(file_list, list):
-            file.write("file_list:\n")
-            for item in file_list:
-                file.write(f"  - {str(item)}\n")
+    # The counterpart of the loader, keeping the order of the keys
+    yaml = YAML(typ="safe", pure=True)
+    yaml.default_flow_style = False
+    yaml.allow_unicode = False
+    yaml.width = sys.maxsize
+    yaml.representer.sort_base_mapping_type_on_output = False
+
+    # Write the new content aside and put it in place in one step, so that the
+    # file is at any moment either the old or the new one
+    target = os.path.realpath(config_path)
+    fd, temp_path = tempfile.mkstemp(
+        prefix=os.path.basename(target) + ".", dir=os.path.dirname(target)
+    )
+    try:
+        with open(fd, "w", encoding="utf-8") as file:
+            yaml.dump(config_data, file)
+            file.flush()
+            os.fsync(fd)
+        shutil.copymode(target, temp_path)
+        os.replace(temp_path, target)
+    except BaseException:
+        os.remove(temp_path)
+        raise
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From b615dff5bc23f579513b55666903e267c138a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 29/37] fix: use flow field counts that are not a multiple of
 the number of devices

---
 src/synthpix/sampler/synthetic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 0205e89..04ea402 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -489,6 +489,13 @@ class SyntheticImageSampler(Sampler):
             # While instead self.mask_images refers to the static mask provided at initialization
             self._files_scheduler = scheduler_batch.files
 
+            # Flow fields that cannot be shared out evenly are repeated in the order
+            # of the samples, so that every device gets one per sample
+            if len(self._current_flows) % self.ndevices != 0:
+                self._current_flows = self._current_flows[
+                    np.arange(self.batch_size) % len(self._current_flows)
+                ]
+
             # Shard the flow fields across devices
             self._current_flows = jnp.array(self._current_flows, device=self.sharding)
             # Creating the output flow field
-- 
2.43.0


From b28c96b4591cee8be5a24a6cb7e1e8f728f91d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 30/37] fix: use a device selected more than once only once

---
 src/synthpix/sampler/synthetic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 04ea402..3fa653b 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -149,7 +149,12 @@ class SyntheticImageSampler(Sampler):
                 "No device IDs provided. Using all available devices for sharding."
             )
         else:
-            devices = [all_devices[i] for i in device_ids if i < len(all_devices)]
+            # A device can be part of a mesh only once
+            devices = list(
+                dict.fromkeys(
+                    all_devices[i] for i in device_ids if i < len(all_devices)
+                )
+            )
             if len(devices) == 0:
                 raise ValueError("No valid device IDs provided.")
             logger.info(f"Using devices {devices} for sharding.")
-- 
2.43.0


From e1c1c5cc883e98c0b808a28259f6de9a1df6a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 31/37] fix: build the schedulers with the number of flow
 fields the sampler requests

---
 src/synthpix/make.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..af032a0 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -152,6 +152,10 @@ def make(
         raise ValueError("episode_length must be a non-negative integer.")
     if "flow_fields_per_batch" not in dataset_config:
         raise ValueError("config must contain 'flow_fields_per_batch' key.")
+    # What the sampler requests from the scheduler
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
 
     # Initialize the random number generator
     cpu = jax.devices("cpu")[0]
@@ -188,7 +192,7 @@ def make(
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +201,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From 599ba2d8679419b1a5b5de9fad791d3fe2fe1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 32/37] fix: apply the default seed when generating synthetic
 images

---
 src/synthpix/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index af032a0..5427d8b 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -226,7 +226,7 @@ def make(
         # Initialize the sampler
         sampler = SyntheticImageSampler.from_config(
             scheduler=scheduler,
-            config=dataset_config,
+            config={**dataset_config, "seed": seed},
         )
 
     logger.info(f"--- SynthPix sampler and scheduler initialized ---\n{dataset_config}")
-- 
2.43.0


From 60456814d2df781aa295c800f82e76f9cf11268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 33/37] fix: put the key arguments added in 608f511 on lines of
 their own

---
 src/synthpix/scheduler/hdf5.py  | 3 ++-
 src/synthpix/scheduler/mat.py   | 3 ++-
 src/synthpix/scheduler/numpy.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 55988aa..f279514 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -118,5 +118,6 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
         return cls(
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
-            loop=config.get("loop", True),            key=config.get("key"),
+            loop=config.get("loop", True),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index a77435c..5f5d794 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -225,5 +225,6 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
-            output_shape=tuple(config.get("output_shape", (256, 256))),            key=config.get("key"),
+            output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 22aaa77..e833424 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -139,5 +139,6 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
-            include_images=config.get("include_images", False),            key=config.get("key"),
+            include_images=config.get("include_images", False),
+            key=config.get("key"),
         )
-- 
2.43.0


From 61e654bfec7c6b35bed5f3a4a860f1d305218762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 34/37] fix: bound the speeds of the components that are served
 of three-component flows

---
 src/synthpix/sanity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 30851dd..2e2fa04 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -112,7 +112,8 @@ def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
             if data.ndim == 4:
                 # Standard 4D format: (batch, height, width, channels)
                 x_data = data[..., 0]  # All x components
-                y_data = data[..., 1]  # All y components
+                # (x, y, z) velocities: the in-plane ones are served, x and z
+                y_data = data[..., 2 if data.shape[-1] == 3 else 1]
             elif data.ndim == 3 and data.shape[-1] == 2:
                 # 3D format: (height, width, channels)
                 x_data = data[..., 0]
-- 
2.43.0


From a8a4aad5ef369506623b223897a5e15243b3658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 35/37] fix: resize recorded whole-number flows without
 wrapping or truncating them

---
 src/synthpix/scheduler/mat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 5f5d794..bf2c480 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -167,6 +167,8 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             # Resize each channel separately using PIL (bilinear interpolation)
             # PIL resize expects (width, height)
             size = (self.output_shape[1], self.output_shape[0])
+            # Interpolated velocities are fractional, whatever the recorded type
+            flow = flow.astype(np.float32)
             flow_u = np.asarray(
                 Image.fromarray(flow[..., 0]).resize(size, Image.Resampling.BILINEAR)
             )
-- 
2.43.0


From 66ea3c9fd3ad2a8df5000262373915895312b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 36/37] fix: skip a .npy file whose images cannot be read

The images of a frame were loaded when it was served, outside of what skips
unreadable files: every request failed, and the rows before it were lost.
They are part of the file and are now loaded with it.
---
 src/synthpix/scheduler/numpy.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index e833424..75e4280 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -77,7 +77,7 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
                     )
 
     def load_file(self, file_path: str) -> SchedulerData:
-        """Load the raw flow array from .npy.
+        """Load the raw flow array from .npy and, if enabled, its images.
 
         Args:
             file_path: Path to the .npy file.
@@ -85,7 +85,22 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
         Returns:
             Loaded SchedulerData.
         """
-        return SchedulerData(flow_fields=np.load(file_path), files=(file_path,))
+        data = SchedulerData(flow_fields=np.load(file_path), files=(file_path,))
+        if not self.include_images:
+            return data
+
+        # The images belong to the file: without them it cannot be loaded
+        mb = re.match(r"flow_(\d+)\.npy$", os.path.basename(file_path))
+        if not mb:
+            raise ValueError(f"Bad filename: {file_path}")
+        t = int(mb.group(1))
+        folder = os.path.dirname(file_path)
+        prev = np.array(
+            Image.open(os.path.join(folder, f"img_{t-1}.jpg")).convert("RGB")
+        )
+        nxt = np.array(Image.open(os.path.join(folder, f"img_{t}.jpg")).convert("RGB"))
+
+        return data.update(images1=prev, images2=nxt)
 
     def get_next_slice(self) -> SchedulerData:
         """Return either the flow array or, if enabled, flow plus images.
@@ -103,18 +118,7 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             # Images are not loaded by default, but we ensure it nonetheless
             return data.update(images1=None, images2=None)
 
-        # load images on-demand
-        mb = re.match(r"flow_(\d+)\.npy$", os.path.basename(self._cached_file))
-        if not mb:
-            raise ValueError(f"Bad filename: {self._cached_file}")
-        t = int(mb.group(1))
-        folder = os.path.dirname(self._cached_file)
-        prev = np.array(
-            Image.open(os.path.join(folder, f"img_{t-1}.jpg")).convert("RGB")
-        )
-        nxt = np.array(Image.open(os.path.join(folder, f"img_{t}.jpg")).convert("RGB"))
-
-        return data.update(images1=prev, images2=nxt)
+        return data
 
     def get_flow_fields_shape(self) -> tuple[int, ...]:
         """Return the shape of a single flow array.
-- 
2.43.0


From 7e7e50c8704505f215808b68bb828a41f6872633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:51 +0000
Subject: [PATCH 37/37] fix: announce the flow shape from a file that can be
 read

Unreadable files are skipped when data is served, but when the first one
(after shuffling) was unreadable the shape could not be asked for, and no
sampler be built over the others.
---
 src/synthpix/scheduler/hdf5.py  | 18 +++++++++++++++++-
 src/synthpix/scheduler/numpy.py |  9 ++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index f279514..857d2d0 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -88,11 +88,27 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
         """Returns the shape of all the flow fields.
 
         NOTE: It is assumed that all the flow fields have the same shape.
+        Files that cannot be read are skipped, as when they are served.
 
         Returns:
             Shape of all the flow fields.
         """
-        file_path = self.file_list[0]
+        for file_path in self.file_list[:-1]:
+            try:
+                return self._read_shape(file_path)
+            except Exception as e:
+                logger.error(f"Error loading file {file_path}: {e}")
+        return self._read_shape(self.file_list[-1])
+
+    def _read_shape(self, file_path: str) -> tuple[int, int, int]:
+        """Reads the shape of the flow fields in a file.
+
+        Args:
+            file_path: Path to the HDF5 file.
+
+        Returns:
+            Shape of the flow fields in the file.
+        """
         with h5py.File(file_path, "r") as file:
             dataset_key = list(file)[0]
             dset = file[dataset_key]
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 75e4280..03bfc36 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -123,10 +123,17 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
     def get_flow_fields_shape(self) -> tuple[int, ...]:
         """Return the shape of a single flow array.
 
+        NOTE: Files that cannot be read are skipped, as when they are served.
+
         Returns:
             Shape of the flow array.
         """
-        return np.load(self.file_list[0]).shape
+        for file_path in self.file_list[:-1]:
+            try:
+                return np.load(file_path).shape
+            except Exception as e:
+                logger.error(f"Error loading file {file_path}: {e}")
+        return np.load(self.file_list[-1]).shape
 
     @classmethod
     def from_config(cls, config: dict) -> Self:
-- 
2.43.0

