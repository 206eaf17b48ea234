From dd77e2d79e2d84672d6fb91688f6177528a75a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 01/18] fix: serve every occurrence of a file repeated in
 file_list

A file listed twice in a row was skipped the second time, because the
slice cursor of the cached file was left at its end.
---
 src/synthpix/scheduler/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..1157e86 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -189,6 +189,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 return sample
             except FileEndedError as e:
                 self.index += 1
+                # The next entry may be the same (cached) file: start it over
+                self._slice_idx = 0
                 continue  # Skip to the next file
 
         raise StopIteration
-- 
2.43.0


From 0f68dd33d7450d879718952ef36cfda73f0b03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 02/18] fix: keep episodes intact when the base scheduler
 randomizes

reset() reshuffles file_list, so resetting after injecting the interleaved
order mixed up time steps and episodes.
---
 src/synthpix/scheduler/episodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..6cb618d 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -285,6 +285,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             f"{len(interleaved)} files"
         )
 
-        # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # Reset cursors, then inject the new order: a randomizing scheduler
+        # shuffles its file_list on reset, which must not touch the episodes
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From 01f685181691b32f1835a598b0a61c7cfe05f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 03/18] fix: make the order of discovered leaf directories
 deterministic

Iterating a set of strings made the episodes drawn for a given key depend
on PYTHONHASHSEED.
---
 src/synthpix/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..c4087c5 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -460,7 +460,8 @@ def discover_leaf_dirs(
     Returns:
         A list of directory paths that are leaves (have no subdirectories).
     """
-    dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
+    # Dedupe upfront; sorted, so that the order does not depend on string hashing
+    dir_paths = sorted({os.path.normpath(os.path.dirname(p)) for p in paths})
     leaves: list[str] = []
 
     for d in dir_paths:
-- 
2.43.0


From ee24e5b70b30d9ed0a26316ba84d4bebbf998d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 04/18] fix: honour the key passed to the schedulers through
 from_config

make() derives it from the seed, but it was dropped, so that every seed
shuffled the files the same way.
---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..aa83070 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..316b62c 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -226,4 +226,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..e833424 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key"),
         )
-- 
2.43.0


From d663e1f4660deca5a84adfdff8313fb5d4eadc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 05/18] fix: resize .mat images to (height, width), not its
 transpose

PIL takes (width, height), so that a non-square output_shape gave images
whose shape was swapped with respect to the flow.
---
 src/synthpix/scheduler/mat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 316b62c..1ae259d 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -147,7 +147,10 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        # PIL resize expects (width, height)
+                        Image.fromarray(img).resize(
+                            (self.output_shape[1], self.output_shape[0])
+                        )
                     )
 
         flow = data["V"]
-- 
2.43.0


From 8937a0028c4fb89e5d2dacd26480efff1d0db8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 06/18] fix: do not drop a prefetched batch to signal the end
 of stream

With a slow consumer and a full queue the worker discarded the oldest batch.
---
 src/synthpix/scheduler/prefetch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..0c91629 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -161,15 +161,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
+                    # If the queue is full for <eos_timeout>, I put the
+                    # end‑of‑stream signal beyond its capacity: every item
+                    # in it is a batch that the consumer still has to get.
 
                     # Acquire the mutex to ensure atomicity
                     with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
                         # Write the EOS sentinel atomically
                         self._queue.queue.append(None)
 
-- 
2.43.0


From 1a40c9b4ab936a38316ae7860b2c7c4d46c3fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 07/18] fix: stop the prefetching thread on shutdown when its
 queue is full

The slot freed for the blocked worker was immediately taken by the
end-of-stream signal, so the thread stayed blocked forever.
---
 src/synthpix/scheduler/prefetch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 0c91629..17b51f7 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -233,16 +233,17 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         except queue.Empty:
             pass
 
+        # Wait for the thread to finish
+        if self._thread.is_alive():
+            self._thread.join(timeout=join_timeout)
+
         # If consumer is stuck on get(), inject the end-of-stream signal
+        # (only now, as it would take the slot that the producer waits for)
         try:
             self._queue.put(None, block=False)
         except queue.Full:
             pass
 
-        # Wait for the thread to finish
-        if self._thread.is_alive():
-            self._thread.join(timeout=join_timeout)
-
     def __del__(self) -> None:
         """Gracefully shuts down the scheduler upon deletion."""
         self.shutdown()
-- 
2.43.0


From be9ca3c55fa6ade61412a51727f6dce1fb5ed90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 08/18] fix: size the scheduler wrappers for the synthetic
 sampler in make()

It requests flow_fields_per_batch fields at a time, so that any
configuration with flow_fields_per_batch != batch_size failed on the first batch.
---
 src/synthpix/make.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..49a4609 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -183,12 +183,17 @@ def make(
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
+    # Number of flow fields that the sampler requests from the scheduler at a time
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # If episode_length is specified, use EpisodicFlowFieldScheduler
     if episode_length > 0:
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +202,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From b2b5ba88d4dd427d5395e98c30dfc6c63ca432ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 09/18] fix: keep the whole image within the position bounds

int() of a product such as 16 / 49 * 49 is one less than the image size, and
the generated images lost a row or column.
---
 src/synthpix/sampler/synthetic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..fc1263a 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -347,10 +347,17 @@ class SyntheticImageSampler(Sampler):
             int((img_offset[1] - position_bounds_offset[1]) * resolution),
         )
 
-        # Calculate the position bounds in pixels
+        # Calculate the position bounds in pixels. They must contain the image:
+        # do not let rounding errors truncate them below it
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            max(
+                int(position_bounds[0] * resolution),
+                self.img_offset[0] + image_shape[0],
+            ),
+            max(
+                int(position_bounds[1] * resolution),
+                self.img_offset[1] + image_shape[1],
+            ),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From 313098779fcd588db5072a1d828ec72557fb75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 10/18] fix: write configuration values back so that YAML reads
 the same

A null (mask, histogram, device_ids) came back as the string "None", and
strings that need quotes as something else.
---
 src/synthpix/sanity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..69fd552 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -2,6 +2,7 @@
 
 import argparse
 import collections
+import json
 import os
 import sys
 
@@ -53,13 +54,14 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
     # Handle file_list separately
     file_list = config_data.pop("file_list", [])
 
+    # Values are written as JSON, which YAML reads back as the same values
     with open(config_path, "w") as file:
         for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
+            file.write(f"{key}: {json.dumps(value, default=str)}\n")
         if file_list and isinstance(file_list, list):
             file.write("file_list:\n")
             for item in file_list:
-                file.write(f"  - {str(item)}\n")
+                file.write(f"  - {json.dumps(str(item))}\n")
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From 455a358d37570fb7efb26dad33c58da956bd5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 11/18] fix: pad the last batch when images have colour
 channels

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 1157e86..0259034 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -270,14 +270,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From dd8e16444d4b552c1fbb466185cb5b06df3352de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 12/18] fix: count only the batches served as steps of a
 prefetched episode

---
 src/synthpix/scheduler/prefetch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 17b51f7..bf6fa5d 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -111,10 +111,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             if self.startup:
                 self.startup = False
 
-            self._t += 1
             if batch is None:
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
+            self._t += 1
             return batch
         except queue.Empty:
             logger.info("Unable to get data.")
-- 
2.43.0


From afe36aa3df08be876cad55440d0199cdb42060a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 13/18] fix: write the configuration with the YAML dumper

Entries that JSON cannot express (dates, bytes, sets, infinities, keys that
need quotes) and file lists that are empty or not lists of strings came back
changed after updating a configuration file.
---
 src/synthpix/sanity.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 69fd552..6295d6b 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -1,8 +1,7 @@
 """Script to check the sanity of the configuration file."""
 
 import argparse
-import collections
-import json
+import io
 import os
 import sys
 
@@ -10,6 +9,7 @@ import h5py
 import jax.numpy as jnp
 import numpy as np
 from goggles import get_logger
+from ruamel.yaml import YAML
 from tqdm import tqdm
 
 from .sampler import SyntheticImageSampler
@@ -27,10 +27,7 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
         updated_values: A dictionary of values to update
             in the configuration file.
     """
-    config_data = load_configuration(config_path)
-
-    # Convert to OrderedDict to preserve order
-    config_data = collections.OrderedDict(config_data)
+    config_data = dict(load_configuration(config_path))
 
     # Convert all values in config_data to standard Python types
     def convert_to_standard_type(value):
@@ -42,26 +39,24 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
             return value.tolist()
         return value
 
-    # Convert all values in config_data to standard Python types
-    config_data = collections.OrderedDict(
-        {key: convert_to_standard_type(value) for key, value in config_data.items()}
-    )
-
-    # Add new keys at the end
+    # Replace the updated entries in place, add new keys at the end
     for key, value in updated_values.items():
         config_data[key] = convert_to_standard_type(value)
 
-    # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
+    # The file list goes last
+    if "file_list" in config_data:
+        config_data["file_list"] = config_data.pop("file_list")
+
+    # The YAML dumper quotes and tags whatever needs it to be read back as is
+    yaml = YAML(typ="safe", pure=True)
+    yaml.default_flow_style = False
+    yaml.sort_base_mapping_type_on_output = False
+    yaml.allow_unicode = False
+    text = io.StringIO()
+    yaml.dump(config_data, text)
 
-    # Values are written as JSON, which YAML reads back as the same values
     with open(config_path, "w") as file:
-        for key, value in config_data.items():
-            file.write(f"{key}: {json.dumps(value, default=str)}\n")
-        if file_list and isinstance(file_list, list):
-            file.write("file_list:\n")
-            for item in file_list:
-                file.write(f"  - {json.dumps(str(item))}\n")
+        file.write(text.getvalue())
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From 985259d814a3e210f9f34347e73ec51cda110b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 14/18] fix: keep one-pixel-high or -wide flow fields of legacy
 .mat files

loadmat's squeeze_me dropped every axis of size 1, also genuine ones, so that a
file whose flow field or images are one row or one column could not be loaded.
---
 src/synthpix/scheduler/mat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 1ae259d..3d27096 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -118,7 +118,6 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             mat = scipy.io.loadmat(
                 file_path,
                 struct_as_record=False,
-                squeeze_me=True,
             )  # SciPy raises NotImplementedError for v7.3
             logger.debug(f"Loaded {file_path} with version MATLAB v4-v7.2")
             data = {k: v for k, v in mat.items() if not k.startswith("__")}
@@ -141,6 +140,13 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
                 "missing required keys 'I0'/'I1'."
             )
 
+        # Drop the surplus singleton dimensions only: a flow field or an image may
+        # well be one pixel high or wide
+        ndims = {"V": 3, "I0": 2, "I1": 2} if self.include_images else {"V": 3}
+        for key, ndim in ndims.items():
+            while data[key].ndim > ndim and 1 in data[key].shape:
+                data[key] = data[key].squeeze(axis=data[key].shape.index(1))
+
         # Resizing images and flow to output_shape
         if self.include_images:
             for key in ("I0", "I1"):
-- 
2.43.0


From 970847fd287cae12b092448334bad7c87c8577ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 15/18] fix: reject NaN as a time step or noise standard
 deviation

As for every other number of the specification, the constraint is required to
hold instead of rejecting the values that violate it: NaN does neither.
---
 src/synthpix/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/types.py b/src/synthpix/types.py
index 14184b4..42ae0ee 100644
--- a/src/synthpix/types.py
+++ b/src/synthpix/types.py
@@ -298,12 +298,12 @@ class ImageGenerationSpecification:
             and self.noise_gaussian_mean >= 0
         ):
             raise ValueError("noise_gaussian_mean must be a non-negative number.")
-        if (
-            not isinstance(self.noise_gaussian_std, (int, float))
-            or self.noise_gaussian_std < 0
+        if not (
+            isinstance(self.noise_gaussian_std, (int, float))
+            and self.noise_gaussian_std >= 0
         ):
             raise ValueError("noise_gaussian_std must be a non-negative number.")
-        if not isinstance(self.dt, (int, float)) or self.dt <= 0:
+        if not (isinstance(self.dt, (int, float)) and self.dt > 0):
             raise ValueError("dt must be a positive number.")
 
     def update(self, **kwargs) -> Self:
-- 
2.43.0


From 1e7aeaf040ef5dc6e4333b1863af9c1fbc2c271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 16/18] fix: accept directories in the file list of the HDF5
 scheduler

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index aa83070..b6d8c07 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From 708dc39bb6947ae8e016664373f206c45000e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 17/18] fix: check the configuration that the sanity tool
 leaves in the file

---
 src/synthpix/sanity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 6295d6b..7b3954c 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -220,11 +220,12 @@ def main() -> None:  # pragma: no cover
         print(f"Configuration file does not exist: {config_path}")
         sys.exit(1)
 
-    config = load_configuration(config_path)
-
     # 1. Check min/max speeds and offer to fix
     missing_speeds_panel(config_path)
 
+    # The panel may have completed the configuration file
+    config = load_configuration(config_path)
+
     # 2. Try to instantiate the scheduler with the config
     scheduler = None
     try:
-- 
2.43.0


From 4ceaddf04c8515249f6c906871bcd7ff37204dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:25 +0000
Subject: [PATCH 18/18] fix: resize MAT flow fields in floating point

Pillow resamples integer images to integers (int8 ones even as unsigned) and
refuses int64 and float16 ones, so the velocities of a MAT file of such a type
were truncated, wrong or an error whenever the flow had to be resized.
---
 src/synthpix/scheduler/mat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 3d27096..6a7e233 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -174,8 +174,10 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             ratio_y = self.output_shape[0] / flow.shape[0]
             ratio_x = self.output_shape[1] / flow.shape[1]
             # Resize each channel separately using PIL (bilinear interpolation)
-            # PIL resize expects (width, height)
+            # PIL resize expects (width, height), and resamples integers to integers
+            # (int8 even as unsigned), so convert to floating point beforehand
             size = (self.output_shape[1], self.output_shape[0])
+            flow = flow.astype(np.float32)
             flow_u = np.asarray(
                 Image.fromarray(flow[..., 0]).resize(size, Image.Resampling.BILINEAR)
             )
-- 
2.43.0

