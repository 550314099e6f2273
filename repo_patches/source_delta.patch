From a1962bdb8c9dadc7a91935a71c0fbcee2cc5ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 01/59] fix: deadlock of the async executors when a global work
 needs more items than nb_items_queue_max

Works filling the input queue of a "global" work stopped as soon as this queue
contained nb_items_queue_max items, even if the global work was not able to
produce anything with these items.
---
 src/fluidimage/executors/exec_async.py        | 34 ++++++++++++++-----
 .../executors/exec_async_servers.py           |  5 +--
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 2de8281..97c1853 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -163,6 +163,30 @@ class ExecutorAsync(ExecutorBase):
 
             self.async_funcs[work.name] = func
 
+    def _is_output_queue_full(self, work):
+        """Return True if no other item should be added in the output queue.
+
+        A "global" work (for example forming couples of images) can need more
+        than `nb_items_queue_max` items to produce something. Its input queues
+        are limited only if it already produced items which are not yet consumed.
+
+        """
+        queue = work.output_queue
+        if queue is None or len(queue) < self.nb_items_queue_max:
+            return False
+
+        for consumer in self.works:
+            if consumer.kind is None or "global" not in consumer.kind:
+                continue
+            input_queues = consumer.input_queue
+            if not isinstance(input_queues, (tuple, list)):
+                input_queues = (input_queues,)
+            if any(queue is _queue for _queue in input_queues):
+                if not consumer.output_queue:
+                    return False
+
+        return True
+
     def def_async_func_work_io(self, work):
         """Define an asynchronous function launching a io work."""
 
@@ -171,10 +195,7 @@ class ExecutorAsync(ExecutorBase):
                 while (
                     not work.input_queue
                     or self.nb_working_workers_io >= self.nb_max_workers
-                    or (
-                        work.output_queue is not None
-                        and len(work.output_queue) >= self.nb_items_queue_max
-                    )
+                    or self._is_output_queue_full(work)
                 ):
                     if self._has_to_stop:
                         return
@@ -192,10 +213,7 @@ class ExecutorAsync(ExecutorBase):
                 while (
                     not work.input_queue
                     or self.nb_working_workers_cpu >= self.nb_max_workers
-                    or (
-                        work.output_queue is not None
-                        and len(work.output_queue) >= self.nb_items_queue_max
-                    )
+                    or self._is_output_queue_full(work)
                 ):
                     if self._has_to_stop:
                         return
diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index a5cbb78..427fb77 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -217,10 +217,7 @@ class ExecutorAsyncServers(ExecutorAsync):
     def def_async_func_work_cpu(self, work):
         async def func(work=work):
             while True:
-                while not work.input_queue or (
-                    work.output_queue is not None
-                    and len(work.output_queue) >= self.nb_items_queue_max
-                ):
+                while not work.input_queue or self._is_output_queue_full(work):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
-- 
2.43.0


From fdaff1c9f88f1d81fdb97319cc5ced2946221844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 02/59] fix: more than nb_max_workers works running at the same
 time

The number of working workers was only checked when a task was scheduled, not
when it really started, so that the works having the same kind could launch
together too many tasks.
---
 src/fluidimage/executors/exec_async.py           | 8 ++++++++
 src/fluidimage/executors/exec_async_multiproc.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 97c1853..f53a47c 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -237,6 +237,10 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
+        if self.nb_working_workers_io >= self.nb_max_workers:
+            # tasks started since this one was scheduled
+            return
+
         self.nb_working_workers_io += 1
 
         try:
@@ -290,6 +294,10 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
+        if self.nb_working_workers_cpu >= self.nb_max_workers:
+            # tasks started since this one was scheduled
+            return
+
         self.nb_working_workers_cpu += 1
 
         try:
diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index c893892..103689d 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -49,6 +49,10 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
           A work from the topology
 
         """
+        if self.nb_working_workers_cpu >= self.nb_max_workers:
+            # tasks started since this one was scheduled
+            return
+
         self.nb_working_workers_cpu += 1
 
         try:
-- 
2.43.0


From 0a183f967734ab0c79e4dbbf5f1c0eefce30e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 03/59] fix: exec_async_servers could stop with an item taken
 but not yet sent to a server

Between the removal of an item from its queue and its sending to a server (in a
thread) all queues can be empty and all servers unoccupied. During this time,
the server is not available.
---
 src/fluidimage/executors/exec_async_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index 427fb77..80b469e 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -141,7 +141,10 @@ class ExecutorAsyncServers(ExecutorAsync):
         while not self._has_to_stop:
             result = (
                 (not any([bool(queue) for queue in self.topology.queues]))
-                and all(worker.is_unoccupied for worker in self.workers)
+                and all(
+                    worker.is_available and worker.is_unoccupied
+                    for worker in self.workers
+                )
                 and self.nb_working_workers_io == 0
             )
 
-- 
2.43.0


From b33ad124524342505e1d73183b7aeefab387c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 04/59] fix: log in files the exceptions raised in the servers
 (exec_async_servers)

---
 src/fluidimage/executors/exec_async_servers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index 80b469e..3faa524 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -213,6 +213,8 @@ class ExecutorAsyncServers(ExecutorAsync):
             return result
 
         ret = await trio.to_thread.run_sync(run_process)
+        if isinstance(ret, Exception):
+            self.log_exception(ret, work.name_no_space, key)
         if work.output_queue is not None:
             work.output_queue[key] = ret
         worker.well_done_thanks()
-- 
2.43.0


From f8e1e41100754317af60cdce135ccf0b59ebcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 05/59] fix: unique name for the job directory (third execution
 during the same second)

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 02d84a2..80b74b2 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -93,7 +93,7 @@ class ExecutorBase(ABC):
             while path_job_data.exists():
                 index += 1
                 unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"log_{unique_postfix}"
+                path_job_data = self.path_dir_result / f"job_{unique_postfix}"
 
         self._unique_postfix = unique_postfix
         self.path_job_data = path_job_data
-- 
2.43.0


From ddb8c7620694050c92ef00c8404d78aa30e94d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 06/59] fix: BOS with a function applied to the images before
 the computation (params.preproc.im2im)

---
 src/fluidimage/topologies/bos.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 6caacba..ef2fd4b 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -32,11 +32,6 @@ class SplitterBos(SplitterFromImages):
         self.params.reference = topology.path_reference
 
 
-def _imread(path):
-    image = imread(path)
-    return image, Path(path).name
-
-
 class TopologyBOS(TopologyBaseFromImages):
     """Topology for BOS computation.
 
@@ -120,7 +115,7 @@ class TopologyBOS(TopologyBaseFromImages):
 
         self.add_work(
             "read array",
-            func_or_cls=_imread,
+            func_or_cls=imread,
             input_queue=queue_paths,
             output_queue=queue_arrays,
             kind="io",
@@ -143,8 +138,9 @@ class TopologyBOS(TopologyBaseFromImages):
             "compute bos",
             func_or_cls=self.calcul,
             params_cls=params,
-            input_queue=queue_arrays,
+            input_queue=queue_arrays1,
             output_queue=queue_bos,
+            kind="eat key value",
         )
 
         self.add_work(
@@ -160,9 +156,10 @@ class TopologyBOS(TopologyBaseFromImages):
         ret = obj.save(self.path_dir_result, kind="bos")
         self.results.append(ret)
 
-    def calcul(self, tuple_image_path):
+    def calcul(self, tuple_name_image):
         """Compute a BOS field"""
-        return self.main_work.calcul(tuple_image_path)
+        name, image = tuple_name_image
+        return self.main_work.calcul((image, name))
 
     def _get_name_result_from_name(self, name):
         return get_name_bos(name, self.serie)
-- 
2.43.0


From dbbc1084b7fcfb9eabab7f44ee133b401c234dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 07/59] fix: number of results expected with BOS and
 multi_exec_subproc (the reference is not computed)

---
 src/fluidimage/topologies/bos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index ef2fd4b..8ccba20 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -31,6 +31,12 @@ class SplitterBos(SplitterFromImages):
         )
         self.params.reference = topology.path_reference
 
+        if self.ranges is not None:
+            # the reference image is not computed
+            indices_images = list(self.serie.iter_indices())
+            topology._fix_indices_images(indices_images)
+            self.num_expected_results = len(indices_images)
+
 
 class TopologyBOS(TopologyBaseFromImages):
     """Topology for BOS computation.
-- 
2.43.0


From 81c29799155b19b63e1d97d03264732f1f772921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 08/59] fix: error message for a bad BOS reference

---
 src/fluidimage/works/bos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/bos.py b/src/fluidimage/works/bos.py
index 2a4365c..b15e8cb 100644
--- a/src/fluidimage/works/bos.py
+++ b/src/fluidimage/works/bos.py
@@ -71,7 +71,7 @@ class WorkBOS(BaseWorkFromImage):
                 path_reference = self.path_dir_src / reference
                 if not path_reference.is_file():
                     raise ValueError(
-                        "Bad value of params.reference:" + path_reference
+                        f"Bad value of params.reference: {path_reference}"
                     )
         return path_reference
 
-- 
2.43.0


From dc2b8e00a0fc3a80a9dfd39bccb1ec6d454c70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 09/59] fix: incomplete result files after an interruption
 during the saving

---
 src/fluidimage/data_objects/piv.py            | 12 ++++----
 src/fluidimage/topologies/image2image.py      |  3 +-
 src/fluidimage/topologies/surface_tracking.py |  3 +-
 src/fluidimage/util/__init__.py               |  5 ++--
 src/fluidimage/util/util.py                   | 30 ++++++++++++++++++-
 5 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 34658f7..e806309 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -29,7 +29,7 @@ from fluidimage import ParamContainer
 from fluidimage import __version__ as fluidimage_version
 from fluidimage import imread
 from fluidimage._version import hg_rev
-from fluidimage.util import safe_eval
+from fluidimage.util import atomic_save, safe_eval
 
 from .display_piv import DisplayPIV
 
@@ -369,10 +369,10 @@ class HeavyPIVResults(DataObject):
             path_file = name
 
         if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
+            with atomic_save(path_file) as tmp, h5netcdf.File(tmp, "w") as file:
                 self._save_as_uvmat(file)
         else:
-            with h5py.File(path_file, "w") as file:
+            with atomic_save(path_file) as tmp, h5py.File(tmp, "w") as file:
                 file.attrs["class_name"] = "HeavyPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 self._save_in_hdf5_object(file)
@@ -596,10 +596,10 @@ class MultipassPIVResults(DataObject):
             path_file = name
 
         if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
+            with atomic_save(path_file) as tmp, h5netcdf.File(tmp, "w") as file:
                 self._save_as_uvmat(file)
         else:
-            with h5py.File(path_file, "w") as file:
+            with atomic_save(path_file) as tmp, h5py.File(tmp, "w") as file:
                 file.attrs["class_name"] = "MultipassPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 file.attrs["Conventions"] = (
@@ -841,7 +841,7 @@ class LightPIVResults(DataObject):
         else:
             path_file = name
 
-        with h5py.File(path_file, "w") as file:
+        with atomic_save(path_file) as tmp, h5py.File(tmp, "w") as file:
             file.attrs["class_name"] = "LightPIVResults"
             file.attrs["module_name"] = "fluidimage.data_objects.piv"
             file.attrs["Conventions"] = (
diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index 9837ffe..317d0c6 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -10,10 +10,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave
 from fluidimage import ParamContainer
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread
+from fluidimage.util import imread, imsave
 from fluidimage.works.image2image import WorkImage2Image
 
 from .base import TopologyBaseFromImages
diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index ac85126..93c75e3 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -18,10 +18,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave_h5
 from fluidimage import ParamContainer, SerieOfArraysFromFiles, SeriesOfArrays
 from fluidimage.topologies import TopologyBase
-from fluidimage.util import imread, logger
+from fluidimage.util import imread, imsave_h5, logger
 from fluidimage.works import image2image
 from fluidimage.works.surface_tracking import WorkSurfaceTracking
 
diff --git a/src/fluidimage/util/__init__.py b/src/fluidimage/util/__init__.py
index 3bf07a1..b4617f6 100644
--- a/src/fluidimage/util/__init__.py
+++ b/src/fluidimage/util/__init__.py
@@ -9,8 +9,6 @@
 
 """
 
-from fluiddyn.io.image import imsave_h5
-
 from .log import (
     DEBUG,
     config_logging,
@@ -21,17 +19,20 @@ from .log import (
     reset_logger,
 )
 from .util import (
+    atomic_save,
     cstring,
     format_time_in_seconds,
     get_txt_memory_usage,
     imread,
     imsave,
+    imsave_h5,
     print_memory_usage,
     safe_eval,
     str_short,
 )
 
 __all__ = [
+    "atomic_save",
     "imread",
     "imsave",
     "imsave_h5",
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index a2cc515..15b3ade 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -22,7 +22,10 @@ Provides:
 
 """
 
+import os
+from contextlib import contextmanager
 from pathlib import Path
+from tempfile import TemporaryDirectory
 
 import psutil
 from IPython.lib.pretty import pretty
@@ -30,6 +33,7 @@ from simpleeval import EvalWithCompoundTypes
 
 from fluiddyn.io.image import imread as _imread
 from fluiddyn.io.image import imsave as _imsave
+from fluiddyn.io.image import imsave_h5 as _imsave_h5
 from fluiddyn.util import get_memory_usage
 from fluiddyn.util import terminal_colors as term
 
@@ -59,14 +63,38 @@ def imread(path):
     return array
 
 
+@contextmanager
+def atomic_save(path):
+    """Give a temporary path, for a file moved to its directory once complete.
+
+    An interruption during the saving never leaves an incomplete file `path`.
+    """
+    path = Path(path)
+    with TemporaryDirectory(prefix=".tmp_", dir=path.parent) as path_dir_tmp:
+        yield os.path.join(path_dir_tmp, path.name)
+        # the extension can be modified by the function writing the file
+        for path_tmp in Path(path_dir_tmp).iterdir():
+            os.replace(path_tmp, path.parent / path_tmp.name)
+
+
 def imsave(path, array, **kwargs):
     "tmp docstring"
-    _imsave(path, array, **kwargs)
+    with atomic_save(path) as path_tmp:
+        _imsave(path_tmp, array, **kwargs)
 
 
 imsave.__doc__ = _imsave.__doc__
 
 
+def imsave_h5(path, array, *args, **kwargs):
+    "tmp docstring"
+    with atomic_save(path) as path_tmp:
+        _imsave_h5(path_tmp, array, *args, **kwargs)
+
+
+imsave_h5.__doc__ = _imsave_h5.__doc__
+
+
 def get_txt_memory_usage(string="Memory usage", color="OKGREEN"):
     mem = get_memory_usage()
     cstr = cstring((string + ": ").ljust(30) + f"{mem:.3f} Mb", color=color)
-- 
2.43.0


From 69f7824067a67045c4c18f4b26eac617964e1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 10/59] fix: saving of images of 16 bits integers and of 64
 bits floats (image2image)

---
 src/fluidimage/util/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index 15b3ade..9ae5d01 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -27,6 +27,7 @@ from contextlib import contextmanager
 from pathlib import Path
 from tempfile import TemporaryDirectory
 
+import numpy as np
 import psutil
 from IPython.lib.pretty import pretty
 from simpleeval import EvalWithCompoundTypes
@@ -79,6 +80,13 @@ def atomic_save(path):
 
 def imsave(path, array, **kwargs):
     "tmp docstring"
+    dtype = array.dtype
+    # types not correctly saved by fluiddyn.io.image.imsave
+    if np.issubdtype(dtype, np.floating):
+        array = array.astype(np.float32)
+    elif np.issubdtype(dtype, np.integer) and dtype != np.uint8:
+        array = array.astype(np.int32)
+
     with atomic_save(path) as path_tmp:
         _imsave(path_tmp, array, **kwargs)
 
-- 
2.43.0


From a227062b160e96c1767ce25e558e32948d065ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 11/59] fix: preprocessing with params.saving.format = 'hdf5'
 (documented format)

---
 src/fluidimage/data_objects/preproc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a4cf94f..a3bf068 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -75,6 +75,9 @@ def get_name_preproc(serie, name_files, ind_serie, nb_series, out_format):
     if out_format == "img":
         return name_files[s]
 
+    elif out_format == "hdf5":
+        return os.path.splitext(name_files[s])[0] + ".h5"
+
     else:
         fname, ext = os.path.splitext(name_files[s])
         fname += "." + out_format
@@ -157,12 +160,13 @@ class PreprocResults(LightPIVResults):
             path_file = os.path.join(path, k)
             if out_format == "img":
                 imsave(path_file, v, as_int=True)
-            elif out_format == "h5":
+            elif out_format in ("h5", "hdf5"):
                 attrs = {
                     "class_name": "PreprocResults",
                     "module_name": self.__module__,
                 }
                 imsave_h5(path_file, v, self.params, attrs, as_int=True)
+                path_file = os.path.splitext(path_file)[0] + ".h5"
             else:
                 # Try to save in formats supported by PIL.Image
                 imsave(path_file, v, format=out_format, as_int=True)
-- 
2.43.0


From 96d1819de7abfe51bc617197f1c7464a49382425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 12/59] fix: mode 'complete' of image2image with functions
 returning images of floats

---
 src/fluidimage/topologies/base.py        | 10 ++++++----
 src/fluidimage/topologies/image2image.py | 11 +++++++++--
 src/fluidimage/util/util.py              |  4 ++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 5e23548..9b797b9 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -597,15 +597,17 @@ class TopologyBaseFromImages(TopologyBase):
     def _get_name_result_from_name(self, name):
         return name
 
+    def _is_result_saved(self, name):
+        """Check if there is already a result for an image"""
+        name_result = self._get_name_result_from_name(name)
+        return (self.path_dir_result / name_result).exists()
+
     def compute_indices_to_be_computed(self):
         """Compute the indices corresponding to the images to be computed"""
         indices_images = []
         for indices in self.serie.iter_indices():
             name = self.serie.compute_name_from_indices(*indices)
-            path_im_output = (
-                self.path_dir_result / self._get_name_result_from_name(name)
-            )
-            if path_im_output.exists():
+            if self._is_result_saved(name):
                 continue
             indices_images.append(indices)
         self._fix_indices_images(indices_images)
diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index 317d0c6..d20b324 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -124,8 +124,15 @@ class TopologyImage2Image(TopologyBaseFromImages):
         path, image = tuple_path_image
         name_file = Path(path).name
         path_out = self.path_dir_result / name_file
-        imsave(path_out, image)
-        self.results.append(name_file)
+        path_out = imsave(path_out, image)
+        self.results.append(path_out.name)
+
+    def _is_result_saved(self, name):
+        # ".tiff" is added to the names of the images of floats (see imsave)
+        return any(
+            (self.path_dir_result / name_result).exists()
+            for name_result in (name, name + ".tiff")
+        )
 
 
 Topology = TopologyImage2Image
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index 9ae5d01..02b44f3 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -89,6 +89,10 @@ def imsave(path, array, **kwargs):
 
     with atomic_save(path) as path_tmp:
         _imsave(path_tmp, array, **kwargs)
+        name = os.listdir(os.path.dirname(path_tmp))[0]
+
+    # the extension can have been modified
+    return Path(path).with_name(name)
 
 
 imsave.__doc__ = _imsave.__doc__
-- 
2.43.0


From 717703beb53190c9c5d3f291254fd30303a62f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:40 +0000
Subject: [PATCH 13/59] fix: end of the execution when there is nothing to be
 computed (mode 'complete')

---
 src/fluidimage/executors/base.py            | 1 +
 src/fluidimage/executors/exec_sequential.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 80b74b2..693bbfa 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -486,6 +486,7 @@ class MultiExecutorBase(ExecutorBase):
 
         if self.num_expected_results == 0:
             print("Nothing to be computed")
+            self._reset_std_as_default()
             return
 
         self.log_paths = []
diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index d036b58..923870b 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -21,7 +21,8 @@ class ExecutorSequential(ExecutorBase):
         self.exec_one_shot_works()
         self._run_works()
         self._finalize_compute()
-        if hasattr(self.topology, "results"):
+        # `_path_results` is not set if there is nothing to be computed
+        if hasattr(self, "_path_results"):
             self._save_results_names()
 
     def _run_works(self):
@@ -72,7 +73,7 @@ class ExecutorSequential(ExecutorBase):
                     if work.output_queue is not None:
                         work.output_queue[key] = ret
 
-            if hasattr(self.topology, "results"):
+            if hasattr(self, "_path_results"):
                 self._save_results_names()
 
     def _init_compute_log(self):
-- 
2.43.0


From 7b83aa60b751ca63bf8c4927636929650f36df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 14/59] fix: preprocessing of a subset containing an image
 which could not be read

---
 src/fluidimage/topologies/preproc.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index 4aabad2..3db0d1e 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -302,12 +302,18 @@ Parameters describing image saving after preprocessing.
             # if correspondant arrays have been loaded from images,
             # make an array subset
             if all([name in queue_arrays for name in names]):
-                arrays = (queue_arrays[name] for name in names)
-                serie = copy.copy(self.series.get_serie_from_index(key))
-
-                array_subset = ArraySubset(
-                    names=names, arrays=arrays, serie=serie
-                )
+                arrays = [queue_arrays[name] for name in names]
+                exceptions = [
+                    array for array in arrays if isinstance(array, Exception)
+                ]
+
+                if exceptions:
+                    array_subset = exceptions[0]
+                else:
+                    serie = copy.copy(self.series.get_serie_from_index(key))
+                    array_subset = ArraySubset(
+                        names=names, arrays=arrays, serie=serie
+                    )
                 output_queue[key] = array_subset
                 del queue_subsets_of_names[key]
                 # remove the image_array if it not will be used anymore
-- 
2.43.0


From 8d45cb4929cb2fd1005178ecf281c9410a0697fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 15/59] fix: mean image with images which can not be read

---
 src/fluidimage/topologies/mean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index 9cdbba0..652458b 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -129,6 +129,9 @@ class TopologyMeanImage(TopologyBaseFromImages):
 
         while queue_arrays:
             name, arr = queue_arrays.pop_first_item()
+            if isinstance(arr, Exception):
+                # already logged by the executor
+                continue
             queue_tmp_arrays.append((arr.astype(np.uint32), 1))
 
         self.reduce_queue_tmp_arrays4(queue_tmp_arrays)
-- 
2.43.0


From 7e401567e1cf1cccbe79cf6db593b5acc2fe1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 16/59] fix: error for a file which is not an image (imread
 returned None)

---
 src/fluidimage/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index 02b44f3..fa1cd9d 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -61,6 +61,10 @@ def imread(path):
     except Exception as error:
         raise type(error)(path).with_traceback(error.__traceback__)
 
+    if array is None:
+        # OpenCV does not raise for a file which is not an image
+        raise OSError(f"Unable to read the image {path}")
+
     return array
 
 
-- 
2.43.0


From 6dbd0eacd8c84e98119cebeb3c57a02635332bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:31 +0000
Subject: [PATCH 17/59] fix: names of the result files (3 indices, strides,
 images without extension)

---
 src/fluidimage/data_objects/piv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index e806309..a5ef96a 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -41,7 +41,7 @@ def get_name_piv(serie, prefix="piv"):
         index = inds[0]
         str_index = serie.get_str_for_name_from_idim_idx(idim, index)
         if len(inds) > 1:
-            last = serie.get_str_for_name_from_idim_idx(idim, inds[1] - 1)
+            last = serie.get_str_for_name_from_idim_idx(idim, range(*inds)[-1])
             if last != str_index:
                 if str_index.isalpha() and len(str_index) == 1:
                     sep = ""
@@ -49,8 +49,8 @@ def get_name_piv(serie, prefix="piv"):
                     sep = "-"
                 str_index += sep + last
 
-        if idim > 1:
-            str_indices += serie.get_index_separators[idim - 1]
+        if idim > 0:
+            str_indices += serie.get_index_separators()[idim - 1]
         str_indices += str_index
 
     name = prefix + "_" + str_indices + ".h5"
@@ -59,7 +59,7 @@ def get_name_piv(serie, prefix="piv"):
 
 def get_name_bos(name, serie):
     name = name[len(serie.base_name) :]
-    if serie.extension_file is not None:
+    if serie.extension_file:
         name = name[: -len(serie.extension_file) - 1]
     return "bos" + name + ".h5"
 
-- 
2.43.0


From b3b3fc17180cfd549f4157573a5b1eaf9e1e2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 18/59] fix: params.saving: path given as a Path with
 how='new_dir', uppercase answers

---
 src/fluidimage/topologies/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 9b797b9..1cdb167 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -60,7 +60,7 @@ def prepare_path_dir_result(
     path_dir_input = str(path_dir_input)
 
     if path_saving is not None:
-        path_dir_result = path_saving
+        path_dir_result = str(path_saving)
     else:
         path_dir_result = path_dir_input + "." + postfix_saving
 
@@ -81,6 +81,7 @@ def prepare_path_dir_result(
                     "The answer should be in ['n', 'c', 'r', 's']\n"
                     "Please type your answer again...\n"
                 )
+            answer = answer.lower()
 
             if answer == "s":
                 print("Stopped by the user.")
-- 
2.43.0


From da19c37efc594e10cd272000a7d9234edfcfab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 19/59] fix: how='new_dir' with multi_exec_subproc and
 exec_async_servers (other directories were created)

---
 src/fluidimage/executors/multi_exec_subproc.py | 5 ++++-
 src/fluidimage/executors/servers.py            | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 75ad013..1f0f333 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -62,8 +62,11 @@ class MultiExecutorSubproc(MultiExecutorBase):
 
         if hasattr(self.topology, "how_saving"):
             params.saving.how = self.topology.how_saving
+            if params.saving.how == "new_dir":
+                # the new directory has already been created
+                params.saving.how = "recompute"
 
-        if hasattr(self.topology, ""):
+        if hasattr(self.topology, "path_dir_result"):
             params.saving.path = self.topology.path_dir_result
 
         self.splitter = splitter_cls(
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 637cc13..9ed3c27 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -183,7 +183,8 @@ class WorkerServerMultiprocessing(WorkerServer):
         except AttributeError:
             pass
         else:
-            if params.saving.how == "ask":
+            if params.saving.how in ("ask", "new_dir"):
+                # the directory has already been chosen and created
                 params.saving.how = "complete"
 
         self.topology = topology_cls(params)
-- 
2.43.0


From edc4ba916e25ac3b284e380ffbc9fe3c36f89340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 20/59] fix: result directory inside of the directory of the
 images for a path with a trailing slash

---
 src/fluidimage/topologies/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 1cdb167..653844e 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -57,7 +57,8 @@ def prepare_path_dir_result(
             f"should be in {how_values}"
         )
 
-    path_dir_input = str(path_dir_input)
+    # without trailing slash
+    path_dir_input = str(Path(path_dir_input))
 
     if path_saving is not None:
         path_dir_result = str(path_saving)
-- 
2.43.0


From 98499c145e3d833583cc07dfaf1bcd28910f0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:00 +0000
Subject: [PATCH 21/59] fix: stop of the execution when the signal 12 is
 received (items continued to be processed)

---
 src/fluidimage/executors/exec_async.py      | 4 ++--
 src/fluidimage/executors/exec_sequential.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index f53a47c..ee90a3f 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -191,7 +191,7 @@ class ExecutorAsync(ExecutorBase):
         """Define an asynchronous function launching a io work."""
 
         async def func(work=work):
-            while True:
+            while not self._has_to_stop:
                 while (
                     not work.input_queue
                     or self.nb_working_workers_io >= self.nb_max_workers
@@ -209,7 +209,7 @@ class ExecutorAsync(ExecutorBase):
         """Define an asynchronous function launching a cpu work."""
 
         async def func(work=work):
-            while True:
+            while not self._has_to_stop:
                 while (
                     not work.input_queue
                     or self.nb_working_workers_cpu >= self.nb_max_workers
diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index 923870b..c4af284 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -28,6 +28,9 @@ class ExecutorSequential(ExecutorBase):
     def _run_works(self):
         while not all([len(queue) == 0 for queue in self.topology.queues]):
             for work in self.works:
+                if self._has_to_stop:
+                    return
+
                 # global functions
                 if work.kind is not None and "global" in work.kind:
                     if (
-- 
2.43.0


From 7848b682bcdafc91a855d04b3307ab28a35e0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:00 +0000
Subject: [PATCH 22/59] fix: signal 12 received by a multi executor when a
 process is already finished

---
 src/fluidimage/executors/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 693bbfa..650b973 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -501,7 +501,8 @@ class MultiExecutorBase(ExecutorBase):
                 )
                 self._has_to_stop = True
                 for process in self.processes:
-                    os.kill(process.pid, signal_number)
+                    if self._poll_return_code(process) is None:
+                        os.kill(process.pid, signal_number)
 
             signal.signal(12, handler_signals)
 
-- 
2.43.0


From db723b2d5949515efc4497c160dd096564befc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 23/59] fix: no mean image computed from a part of the images
 when stopped by the signal 12

---
 src/fluidimage/executors/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 650b973..92c21d4 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -180,6 +180,7 @@ class ExecutorBase(ABC):
         self.nb_items_queue_max = nb_items_queue_max
 
         self._has_to_stop = False
+        self._stopped_by_signal = False
         if sys.platform != "win32":
 
             def handler_signals(signal_number, stack):
@@ -189,6 +190,7 @@ class ExecutorBase(ABC):
                     f"({type(self).__name__})."
                 )
                 self._has_to_stop = True
+                self._stopped_by_signal = True
 
             signal.signal(12, handler_signals)
 
@@ -287,6 +289,7 @@ class ExecutorBase(ABC):
         if (
             hasattr(self.topology, "final_seq_work")
             and not self._final_seq_work_run
+            and not self._stopped_by_signal
         ):
             self.topology.final_seq_work()
             self._final_seq_work_run = True
@@ -500,6 +503,7 @@ class MultiExecutorBase(ExecutorBase):
                     f"({type(self).__name__})."
                 )
                 self._has_to_stop = True
+                self._stopped_by_signal = True
                 for process in self.processes:
                     if self._poll_return_code(process) is None:
                         os.kill(process.pid, signal_number)
-- 
2.43.0


From eaa13f84cc7b67dfb9d49a1ceae8abf0878ec30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:30 +0000
Subject: [PATCH 24/59] fix: standard streams, log file and lock after an
 execution which raises (stop_if_error)

---
 src/fluidimage/executors/base.py                     | 5 +++++
 src/fluidimage/executors/exec_async_seq_for_multi.py | 4 ++++
 src/fluidimage/topologies/base.py                    | 6 +++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 92c21d4..756c02d 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -285,6 +285,11 @@ class ExecutorBase(ABC):
         reset_logger()
         self._log_file.close()
 
+    def _clean_after_exception(self):
+        """Same state of the process as after a normal end of `compute`"""
+        self._reset_std_as_default()
+        self._release_lock()
+
     def _run_final_seq_work(self):
         if (
             hasattr(self.topology, "final_seq_work")
diff --git a/src/fluidimage/executors/exec_async_seq_for_multi.py b/src/fluidimage/executors/exec_async_seq_for_multi.py
index cc2704c..69fe3dc 100644
--- a/src/fluidimage/executors/exec_async_seq_for_multi.py
+++ b/src/fluidimage/executors/exec_async_seq_for_multi.py
@@ -84,6 +84,10 @@ class ExecutorAsyncSeqForMulti(ExecutorAsyncSequential):
     def _init_num_expected_results(self):
         pass
 
+    def _clean_after_exception(self):
+        # the lock is released by the main process
+        self._reset_std_as_default()
+
     def _finalize_compute(self):
         self._reset_std_as_default()
 
diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 653844e..2cdc1e1 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -398,7 +398,11 @@ class TopologyBase:
                 **kwargs_executor,
             )
 
-        self.executor.compute()
+        try:
+            self.executor.compute()
+        except BaseException:
+            self.executor._clean_after_exception()
+            raise
 
     def make_text_at_exit(self, time_since_start):
         """Make a text printed before exit."""
-- 
2.43.0


From 22985372ecbc5a5c0249dccec5c1a9e0bda7de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 25/59] fix: handlers of the logger forgotten, writing in
 closed files after an execution

---
 src/fluidimage/executors/base.py | 2 +-
 src/fluidimage/util/log.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 756c02d..c65a013 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -148,7 +148,7 @@ class ExecutorBase(ABC):
         sys.stderr = MultiFile([stderr, self._log_file])
 
         if logging_level:
-            for handler in logger.handlers:
+            for handler in list(logger.handlers):
                 logger.removeHandler(handler)
 
             from fluidimage import config_logging
diff --git a/src/fluidimage/util/log.py b/src/fluidimage/util/log.py
index 87fa5b5..a35775b 100644
--- a/src/fluidimage/util/log.py
+++ b/src/fluidimage/util/log.py
@@ -28,7 +28,7 @@ def config_logging(level="info", name="fluidimage", file=None):
 
 def reset_logger():
     """Remove all handlers (files) linked to the fluidimage logger"""
-    for handler in logger.handlers:
+    for handler in list(logger.handlers):
         logger.removeHandler(handler)
 
 
-- 
2.43.0


From a4f9fc1a7c45e99b615c1e8ed8f2816f450cb662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 26/59] fix: log of an execution with nothing to compute
 overwritten by another one started during the same second

---
 src/fluidimage/executors/base.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index c65a013..6721fc3 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -85,18 +85,20 @@ class ExecutorBase(ABC):
     def _init_log_path(self):
         self.time_start_str = time_as_str()
         unique_postfix = f"{self.time_start_str}_{os.getpid()}"
-        path_job_data = self.path_dir_result / f"job_{unique_postfix}"
 
-        if path_job_data.exists():
-            index = 0
-            unique_postfix0 = unique_postfix
-            while path_job_data.exists():
-                index += 1
-                unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"job_{unique_postfix}"
+        # no job directory for an execution with nothing to compute, but a log
+        def is_already_used(postfix):
+            names = (f"job_{postfix}", f"log_{postfix}", f"log_{postfix}.txt")
+            return any((self.path_dir_result / name).exists() for name in names)
+
+        index = 0
+        unique_postfix0 = unique_postfix
+        while is_already_used(unique_postfix):
+            index += 1
+            unique_postfix = unique_postfix0 + str(index)
 
         self._unique_postfix = unique_postfix
-        self.path_job_data = path_job_data
+        self.path_job_data = self.path_dir_result / f"job_{unique_postfix}"
         self._path_lockfile = self.path_job_data / "is_running.lock"
         self.path_dir_exceptions = self.path_dir_result / f"log_{unique_postfix}"
         self._log_path = self.path_dir_result / f"log_{unique_postfix}.txt"
-- 
2.43.0


From 2a1b0866542cbcb834d216abcf0fc1102dee05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 27/59] fix: results in the job directory for all executors,
 before the end of the execution

---
 src/fluidimage/executors/base.py              |  7 ++++++
 src/fluidimage/executors/exec_async.py        | 22 +++++++++++++++++++
 .../executors/exec_async_servers.py           |  1 +
 src/fluidimage/executors/exec_sequential.py   |  3 ---
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 6721fc3..6663599 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -289,6 +289,7 @@ class ExecutorBase(ABC):
 
     def _clean_after_exception(self):
         """Same state of the process as after a normal end of `compute`"""
+        self._save_last_results_names()
         self._reset_std_as_default()
         self._release_lock()
 
@@ -303,11 +304,17 @@ class ExecutorBase(ABC):
 
     def _finalize_compute(self):
         self._run_final_seq_work()
+        self._save_last_results_names()
         log_memory_usage(time_as_str(2) + ": end of `compute`. mem usage")
         self.topology.print_at_exit(time() - self.t_start)
         self._reset_std_as_default()
         self._release_lock()
 
+    def _save_last_results_names(self):
+        # `_path_results` is not set if there is nothing to be computed
+        if hasattr(self, "_path_results"):
+            self._save_results_names()
+
     def log_in_file(self, *args, sep=" ", end="\n"):
         """Simple write in the log file (without print)"""
         self._log_file.write(sep.join(str(arg) for arg in args) + end)
diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index ee90a3f..71c304f 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -96,6 +96,27 @@ class ExecutorAsync(ExecutorBase):
         trio.run(self.start_async_works)
         self._finalize_compute()
 
+    def _save_job_data(self):
+        super()._save_job_data()
+        if hasattr(self.topology, "results"):
+            self._init_results_log(self.path_job_data)
+            self._save_results_names()
+
+    def _start_saving_topology_results(self):
+        if (
+            hasattr(self, "_path_results")
+            and "_save_topology_results" not in self.async_funcs
+        ):
+            self.nursery.start_soon(self._save_topology_results)
+
+    async def _save_topology_results(self):
+        time_last_save = self.t_start
+        while not self._has_to_stop:
+            if time.time() - time_last_save > 1.0:
+                time_last_save = time.time()
+                self._save_results_names()
+            await trio.sleep(self.sleep_time)
+
     async def start_async_works(self):
         """Create a trio nursery and start all async functions."""
         async with trio.open_nursery() as self.nursery:
@@ -103,6 +124,7 @@ class ExecutorAsync(ExecutorBase):
                 self.nursery.start_soon(af)
 
             self.nursery.start_soon(self.update_has_to_stop)
+            self._start_saving_topology_results()
 
     def define_functions(self):
         """Define sync and async functions.
diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index 3faa524..56da952 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -125,6 +125,7 @@ class ExecutorAsyncServers(ExecutorAsync):
                 self.nursery.start_soon(af)
 
             self.nursery.start_soon(self.update_has_to_stop)
+            self._start_saving_topology_results()
 
         logger.info("terminate the servers")
         for worker in self.workers:
diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index c4af284..f794ae0 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -21,9 +21,6 @@ class ExecutorSequential(ExecutorBase):
         self.exec_one_shot_works()
         self._run_works()
         self._finalize_compute()
-        # `_path_results` is not set if there is nothing to be computed
-        if hasattr(self, "_path_results"):
-            self._save_results_names()
 
     def _run_works(self):
         while not all([len(queue) == 0 for queue in self.topology.queues]):
-- 
2.43.0


From 416eb75dfb12118cab1e465ab3c18fe50a3f5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 28/59] fix: names of results lost when a result is added by a
 thread during _save_results_names

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 6663599..bd8d150 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -410,7 +410,7 @@ class ExecutorBase(ABC):
     def _save_results_names(self):
 
         new_results = self.topology.results[self._len_saved_results :]
-        self._len_saved_results = len(self.topology.results)
+        self._len_saved_results += len(new_results)
 
         with open(self._path_num_results, "w", encoding="utf-8") as file:
             file.write(f"{self._len_saved_results}\n")
-- 
2.43.0


From a4a460852f78475fc95ad11ade3e74021a56e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 29/59] fix: monitor: jobs without results yet, processes
 started after the monitor, last results

---
 src/fluidimage/gui/monitor.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 301eaf9..58213f4 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -152,18 +152,14 @@ class MonitorApp(App):
         params_default = class_topology.create_default_params()
         copy_doc(self.params, params_default)
 
-        self.paths_len_results = sorted(
-            self.path_job_info.glob("len_results*.txt")
-        )
-        assert self.paths_len_results
-
         self.num_results = 0
         self.detect_results()
 
     def detect_results(self):
         """Detect how many results have been computed"""
         num_results_vs_idx_process = []
-        for path_len_results in self.paths_len_results:
+        # the processes of a job do not start at the same time
+        for path_len_results in self.path_job_info.glob("len_results*.txt"):
             with open(path_len_results, encoding="utf-8") as file:
                 content = file.read()
                 len_results = int(content) if content else 0
@@ -259,11 +255,13 @@ class MonitorApp(App):
 
     def update_info(self):
         """Update the 'info' panel"""
+        # before detect_results (to show the last results)
+        is_running = self.check_is_running()
         self.detect_results()
         self.progress_bar.progress = self.num_results
         self.digit_num_results.update(f"{self.num_results}")
         self.label_times.update(self.compute_times_str())
-        if not self.check_is_running():
+        if not is_running:
             self.timer_update_info.pause()
             self.label_is_running.update(f"Running: {self.job_is_running}")
 
-- 
2.43.0


From 873d07b902c86974b81b547717db24547093a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 30/59] fix: analysis of the logs (durations of repeated calls,
 keys with spaces, text glued)

---
 src/fluidimage/topologies/log.py | 124 +++++++++++++++----------------
 1 file changed, 62 insertions(+), 62 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index e32b754..cce215d 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -7,6 +7,7 @@
 
 """
 
+import re
 import time
 from pathlib import Path
 
@@ -19,6 +20,21 @@ if is_run_from_ipython():
     plt.ion()
 
 
+_mem_usage = r"\. mem usage: +(?P<mem>[0-9.]+) Mb"
+
+# these patterns can follow characters printed by the works (and coding for color)
+pattern_date = re.compile(
+    r"(?P<date>\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d\.\d+): "
+    "(?P<event>starting execution|end of `compute`)" + _mem_usage
+)
+pattern_launch = re.compile(
+    r"(?P<t>\d+\.\d\d) s\. Launch work (?P<name>\S+) \((?P<key>.*)\)" + _mem_usage
+)
+pattern_done = re.compile(
+    r"work (?P<name>\S+) \((?P<key>.*)\) done in (?P<duration>[0-9.]+) s$"
+)
+
+
 def float_no_valueerror(word):
     try:
         return float(word)
@@ -36,8 +52,12 @@ class DataLogFile:
         self.nb_max_workers = None
         self.executor_name = None
         self.topology_name = None
+        self.mem_start = None
         self._title = str(path_file)
 
+        # works launched and not (yet) ended
+        works_running = {}
+
         print(f"Parsing log file: {path_file}")
         with open(path_file, "r", encoding="utf-8") as logfile:
             for iline, line in enumerate(logfile):
@@ -47,6 +67,10 @@ class DataLogFile:
                 if line.startswith("ERROR: "):
                     continue
 
+                if not line.endswith("\n"):
+                    # this line is not fully written
+                    continue
+
                 if self.nb_cpus_allowed is None and line.startswith(
                     "  nb_cpus_allowed = "
                 ):
@@ -69,55 +93,48 @@ class DataLogFile:
                     if line.startswith(begin):
                         self.executor_name = line.split(begin)[1].strip()
 
-                if ". mem usage: " in line:
-                    # to remove the characters coding for color
-                    line = line[5:]
-                    words = line.split()
-
-                    try:
-                        mem = float(words[-2])
-                    except ValueError:
-                        pass
-
-                    if ". Launch work " in line:
-                        name = words[4]
-                        key = words[5][1:-2]
-                        t = float(words[0])
-                        works.append(
-                            {
-                                "name": name,
-                                "key": key,
-                                "mem_start": mem,
-                                "time": t,
-                            }
-                        )
-                    else:
-                        date = words[0][:-1]
-                        t = time.mktime(
-                            time.strptime(date[:-3], "%Y-%m-%d_%H-%M-%S")
-                        ) + float(date[-3:])
+                match = pattern_launch.search(line)
+                if match:
+                    work = {
+                        "name": match["name"],
+                        "key": match["key"],
+                        "mem_start": float(match["mem"]),
+                        "time": float(match["t"]),
+                        "duration": np.nan,
+                    }
+                    works.append(work)
+                    works_running[work["name"], work["key"]] = work
+                    continue
+
+                match = pattern_date.search(line)
+                if match:
+                    date = match["date"]
+                    mem = float(match["mem"])
+                    t = time.mktime(
+                        time.strptime(date[:-3], "%Y-%m-%d_%H-%M-%S")
+                    ) + float(date[-3:])
 
-                    if ": starting execution. mem usage" in line:
+                    if match["event"] == "starting execution":
                         self.date_start = date
                         self.mem_start = mem
                         time_start = t
-                    elif ": end of `compute`. mem usage" in line:
+                    else:
                         self.date_end = date
                         self.duration = t - time_start
                         self.mem_end = mem
+                    continue
 
-                if line.startswith("work ") and " done in " in line:
-                    words = line.split()
-                    name = words[1]
-                    key = words[2][1:-1]
-                    try:
-                        duration = float(words[-2])
-                    except ValueError:
-                        pass
-                    else:
-                        works_ended.append(
-                            {"name": name, "key": key, "duration": duration}
-                        )
+                match = pattern_done.search(line)
+                if match:
+                    name = match["name"]
+                    key = match["key"]
+                    duration = float(match["duration"])
+                    works_ended.append(
+                        {"name": name, "key": key, "duration": duration}
+                    )
+                    work = works_running.pop((name, key), None)
+                    if work is not None:
+                        work["duration"] = duration
 
         print("\rdone" + 20 * " ")
 
@@ -194,27 +211,9 @@ class LogTopology:
                 if work["name"] == name:
                     times[name].append(work["time"])
                     keys[name].append(work["key"])
-
-            works_ended_name = [
-                work for work in self.works_ended if work["name"] == name
+            durations[name] = [
+                work["duration"] for work in self.works if work["name"] == name
             ]
-            index_vs_keys = {
-                work["key"]: index for index, work in enumerate(works_ended_name)
-            }
-
-            durations[name] = []
-            for key in keys[name]:
-                try:
-                    index_key = index_vs_keys[key]
-                except KeyError:
-                    founded = False
-                else:
-                    founded = True
-                    work = works_ended_name[index_key]
-                    durations[name].append(work["duration"])
-
-                if not founded:
-                    durations[name].append(np.nan)
 
     def plot_memory(self):
         """Plot the memory usage versus time."""
@@ -231,7 +230,8 @@ class LogTopology:
             times[i] = work["time"]
 
         ax.plot(times, memories, "o-")
-        ax.plot(0, self.mem_start, "x")
+        if self.mem_start is not None:
+            ax.plot(0, self.mem_start, "x")
         if hasattr(self, "duration"):
             ax.plot(self.duration, self.mem_end, "x")
         plt.show()
-- 
2.43.0


From 52c4a0b72a08283f0c680d71b2208dc8bd0dca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 31/59] fix: TPS interpolation at positions outside of the
 subdomains (nan)

---
 .../calcul/interpolate/thin_plate_spline_subdom.py       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
index 10f7479..89bd239 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
@@ -172,6 +172,15 @@ class ThinPlateSplineSubdom:
         ys = new_positions[0]
         self.num_new_positions = xs.size
 
+        # the positions outside of all subdomains are associated with the
+        # closest one(s)
+        xs = np.clip(
+            xs, self.limits_min_x[0], np.nextafter(self.limits_max_x[-1], -np.inf)
+        )
+        ys = np.clip(
+            ys, self.limits_min_y[0], np.nextafter(self.limits_max_y[-1], -np.inf)
+        )
+
         self.ind_new_positions_domains = ind_new_positions_domains = []
         for iy in range(self.nb_subdomy):
             for ix in range(self.nb_subdomx):
-- 
2.43.0


From cd18ea4628cc7a3260a0c3330a020244084f79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 32/59] fix: positions of the vectors for masks with negative
 indices (strcrop)

---
 src/fluidimage/works/optical_flow.py   |  1 +
 src/fluidimage/works/piv/singlepass.py |  2 ++
 src/fluidimage/works/with_mask.py      | 24 ++++++++++++++----------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/fluidimage/works/optical_flow.py b/src/fluidimage/works/optical_flow.py
index 5c947fd..2d65291 100644
--- a/src/fluidimage/works/optical_flow.py
+++ b/src/fluidimage/works/optical_flow.py
@@ -203,6 +203,7 @@ Parameters indicating how are detected and processed false vectors.
         couple.apply_mask(self.params.mask)
 
         im0, im1 = couple.get_arrays()
+        self.shape_images = couple.shape_images
 
         positions, displacements = optical_flow(
             im0,
diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 359a360..3ce1203 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -155,6 +155,7 @@ class BaseWorkPIV(BaseWorkWithMask):
         couple.apply_mask(self.params.mask)
 
         im0, im1 = couple.get_arrays()
+        self.shape_images = couple.shape_images
 
         if not hasattr(self, "ixvecs_grid"):
             self._prepare_with_image(im0)
@@ -744,6 +745,7 @@ class WorkPIVFromDisplacement(BaseWorkPIV):
         couple = piv_results.couple
 
         im0, im1 = couple.get_arrays()
+        self.shape_images = couple.shape_images
         if not hasattr(self, "ixvecs_grid"):
             self._prepare_with_image(im0)
 
diff --git a/src/fluidimage/works/with_mask.py b/src/fluidimage/works/with_mask.py
index 84dc00c..44df89e 100644
--- a/src/fluidimage/works/with_mask.py
+++ b/src/fluidimage/works/with_mask.py
@@ -13,22 +13,26 @@ from . import BaseWork
 
 
 class BaseWorkWithMask(BaseWork):
+    def _get_start_crop(self):
+        """Indices (y, x) of the first pixel of the masked image"""
+        slices = get_slices_from_strcrop(self.params.mask.strcrop)
+        return tuple(
+            _slice.indices(length)[0]
+            for _slice, length in zip(slices, self.shape_images)
+        )
+
     def _xymasked_from_xyoriginalimage(self, xs, ys):
         if self.params.mask.strcrop is not None:
-            slices = get_slices_from_strcrop(self.params.mask.strcrop)
-            if slices[1].start is not None:
-                xs = xs - slices[1].start
-            if slices[0].start is not None:
-                ys = ys - slices[0].start
+            start_y, start_x = self._get_start_crop()
+            xs = xs - start_x
+            ys = ys - start_y
         return xs, ys
 
     def _xyoriginalimage_from_xymasked(self, xs, ys):
         if self.params.mask.strcrop is not None:
-            slices = get_slices_from_strcrop(self.params.mask.strcrop)
-            if slices[1].start is not None:
-                xs = xs + slices[1].start
-            if slices[0].start is not None:
-                ys = ys + slices[0].start
+            start_y, start_x = self._get_start_crop()
+            xs = xs + start_x
+            ys = ys + start_y
         return xs, ys
 
     @classmethod
-- 
2.43.0


From 1ab2420867e1d92b20c2b39585730c22eabdb5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 33/59] fix: windows out of the padded image taken at its other
 side

---
 src/fluidimage/works/piv/singlepass.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 3ce1203..cf4b04b 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -392,8 +392,12 @@ class BaseWorkPIV(BaseWorkWithMask):
     def _crop_im0(self, ixvec, iyvec, im):
         """Crop image 0."""
         subim = im[
-            iyvec - self._start_for_crop0[0] : iyvec + self._stop_for_crop0[0],
-            ixvec - self._start_for_crop0[1] : ixvec + self._stop_for_crop0[1],
+            max(iyvec - self._start_for_crop0[0], 0) : max(
+                iyvec + self._stop_for_crop0[0], 0
+            ),
+            max(ixvec - self._start_for_crop0[1], 0) : max(
+                ixvec + self._stop_for_crop0[1], 0
+            ),
         ]
         subim = np.ascontiguousarray(subim, dtype=np.float32)
         return subim
@@ -401,8 +405,12 @@ class BaseWorkPIV(BaseWorkWithMask):
     def _crop_im1(self, ixvec, iyvec, im):
         """Crop image 1."""
         subim = im[
-            iyvec - self._start_for_crop1[0] : iyvec + self._stop_for_crop1[0],
-            ixvec - self._start_for_crop1[1] : ixvec + self._stop_for_crop1[1],
+            max(iyvec - self._start_for_crop1[0], 0) : max(
+                iyvec + self._stop_for_crop1[0], 0
+            ),
+            max(ixvec - self._start_for_crop1[1], 0) : max(
+                ixvec + self._stop_for_crop1[1], 0
+            ),
         ]
         subim = np.ascontiguousarray(subim, dtype=np.float32)
         return subim
-- 
2.43.0


From d943493a21c729e16c7bc5584d0af3f86278687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 34/59] fix: correlations of windows of odd or different shapes
 (pythran, scipy.signal)

---
 src/fluidimage/calcul/correl.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index a006ba0..fb23f4d 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -334,7 +334,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + dispx + nx1 - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
@@ -347,7 +347,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix + disp_max + 1] = tmp / (nxmax * nymax)
     for xiy in range(disp_max):
         dispy = xiy + 1
-        nymax = ny1 - max(ny0 // 2 + ny1 // 2 + dispy - ny0, 0)
+        nymax = ny1 - max(ny0 // 2 - ny1 // 2 + dispy + ny1 - ny0, 0)
         ny1dep = 0
         ny0dep = ny0 // 2 - ny1 // 2 + dispy
         for xix in range(disp_max + 1):
@@ -365,7 +365,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy + disp_max + 1, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + dispx + nx1 - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
@@ -464,21 +464,22 @@ class CorrelScipySignal(CorrelBase):
         if self.mode not in modes:
             raise ValueError("mode should be in " + modes)
 
+        ny, nx = self.im0_shape
+        ny1, nx1 = self.im1_shape
+
         if self.mode == "same":
-            ny, nx = self.im0_shape
-            if nx % 2 == 0:
+            if nx1 % 2 == 0:
                 ind0x = nx // 2 - 1
             else:
                 ind0x = nx // 2
-            if ny % 2 == 0:
+            if ny1 % 2 == 0:
                 ind0y = ny // 2 - 1
             else:
                 ind0y = ny // 2
 
         else:
-            ny, nx = np.array(self.im0_shape) - np.array(self.im1_shape)
-            ind0x = nx // 2
-            ind0y = ny // 2
+            ind0x = nx // 2 - nx1 // 2
+            ind0y = ny // 2 - ny1 // 2
 
         self.iy0, self.ix0 = (ind0y, ind0x)
 
-- 
2.43.0


From f855700dd575538f4117fca5658e9102ee13bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 35/59] fix: displacement_max given for the correlations
 pythran and pycuda

---
 src/fluidimage/calcul/correl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index fb23f4d..1d43b0a 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -386,7 +386,8 @@ class CorrelPythran(CorrelBase):
     _tag = "pythran"
 
     def _finalize_init(self):
-        if self.displacement_max is None:
+        displacement_max = self.displacement_max
+        if displacement_max is None:
             if self.im0_shape == self.im1_shape:
                 displacement_max = min(self.im0_shape) // 2 - 1
             else:
@@ -398,6 +399,7 @@ class CorrelPythran(CorrelBase):
                     // 2
                     - 1
                 )
+        displacement_max = int(displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
@@ -421,7 +423,8 @@ class CorrelPyCuda(CorrelBase):
     _tag = "pycuda"
 
     def _finalize_init(self):
-        if self.displacement_max is None:
+        displacement_max = self.displacement_max
+        if displacement_max is None:
             if self.im0_shape == self.im1_shape:
                 displacement_max = min(self.im0_shape) // 2
             else:
@@ -433,6 +436,7 @@ class CorrelPyCuda(CorrelBase):
                     // 2
                     - 1
                 )
+        displacement_max = int(displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
-- 
2.43.0


From c33b37661950a3db041481d760b61d55c6356f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 36/59] fix: search of the correlation peaks (peaks close to a
 border, only nan)

---
 src/fluidimage/calcul/correl.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 1d43b0a..7619386 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -105,8 +105,6 @@ def nan_indices_max(
             correl_max = value
             break
 
-    assert not np.isnan(correl_max)
-
     i0_max = 0
     i1_max = 0
 
@@ -124,7 +122,9 @@ def nan_indices_max(
 
     i0, i1 = i0_max, i1_max
 
-    if i0 == 0 or i0 == n0 - 1 or i1 == 0 or i1 == n1 - 1:
+    if np.isnan(correl_max):
+        error_message = "No correlation peak (only nan)."
+    elif i0 == 0 or i0 == n0 - 1 or i1 == 0 or i1 == n1 - 1:
         error_message = "Correlation peak touching boundary."
     elif _is_there_a_nan(correl[i0 - 1 : i0 + 2, i1 - 1 : i1 + 2]):
         error_message = "Correlation peak touching nan."
@@ -223,6 +223,14 @@ class CorrelBase(ABC):
             correl, norm, self.start_stop_for_search0, self.start_stop_for_search1
         )
 
+    def _remove_peak(self, correl, ix, iy):
+        """Fill with nan the correlation around a peak"""
+        radius = self.particle_radius
+        correl[
+            max(iy - radius, 0) : iy + radius + 1,
+            max(ix - radius, 0) : ix + radius + 1,
+        ] = np.nan
+
     def compute_displacements_from_correl(self, correl, norm=1.0):
         """Compute the displacement from a correlation."""
 
@@ -231,10 +239,7 @@ class CorrelBase(ABC):
         except PIVError as piv_error:
             ix, iy, correl_max = piv_error.results
             # second chance to find a better peak...
-            correl[
-                iy - self.particle_radius : iy + self.particle_radius + 1,
-                ix - self.particle_radius : ix + self.particle_radius + 1,
-            ] = np.nan
+            self._remove_peak(correl, ix, iy)
             try:
                 ix2, iy2, correl_max2 = self._compute_indices_max(correl, norm)
             except PIVError as _piv_error:
@@ -253,10 +258,7 @@ class CorrelBase(ABC):
             correl = correl.copy()
             other_peaks = []
             for _ in range(0, self.nb_peaks_to_search - 1):
-                correl[
-                    iy - self.particle_radius : iy + self.particle_radius + 1,
-                    ix - self.particle_radius : ix + self.particle_radius + 1,
-                ] = np.nan
+                self._remove_peak(correl, ix, iy)
                 try:
                     ix, iy, correl_max_other = self._compute_indices_max(
                         correl, norm
-- 
2.43.0


From 56a523da6211c0996a71ce30b87e9f57fcd01645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 37/59] fix: energy in Fourier space for odd nx

---
 src/fluidimage/calcul/fft.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 6261676..0f35293 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -118,7 +118,14 @@ class OperatorFFTBase(ABC):
 
     def compute_energy_from_fourier(self, field_fft):
         """Compute the energy from a field in Fourier space"""
-        return _compute_energy_from_fourier(field_fft, self.coef_norm_energy)
+        energy = _compute_energy_from_fourier(field_fft, self.coef_norm_energy)
+        nx = self.shapeX[1]
+        if nx % 2 == 1 and nx > 1:
+            # no Nyquist mode: the last modes also count twice
+            energy += (
+                0.5 / self.coef_norm_energy * np.sum(abs(field_fft[:, -1]) ** 2)
+            )
+        return energy
 
     def compute_energy_from_spatial(self, field):
         """Compute energy from a field in real space"""
-- 
2.43.0


From c717963332385443254af577338c33a1b7b3be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 38/59] fix: PIV works used by different threads (buffers of
 the FFTW transforms, grid)

---
 src/fluidimage/calcul/fft.py           | 19 +++++++++++++------
 src/fluidimage/works/piv/singlepass.py |  4 +++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 0f35293..33418e5 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -27,6 +27,7 @@ that.
 """
 
 from abc import ABC, abstractmethod
+from threading import Lock
 
 import numpy as np
 import numpy.fft as np_fft
@@ -240,15 +241,21 @@ class FFTW2DReal2Complex(OperatorFFTBase):
             threads=nthreads,
         )
 
+        # an operator can be used by different threads
+        # but its arrays contain the data of only one transform
+        self._lock = Lock()
+
     def fft(self, field):
-        self.arrayX[:] = field
-        self.fftplan()
-        return self.arrayK.copy()
+        with self._lock:
+            self.arrayX[:] = field
+            self.fftplan()
+            return self.arrayK.copy()
 
     def ifft(self, field_fft):
-        self.arrayK[:] = field_fft
-        self.ifftplan(normalise_idft=False)
-        return self.arrayX.copy()
+        with self._lock:
+            self.arrayK[:] = field_fft
+            self.ifftplan(normalise_idft=False)
+            return self.arrayX.copy()
 
 
 class FFTW2DReal2ComplexFloat64(FFTW2DReal2Complex):
diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index cf4b04b..2d5d07c 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -137,8 +137,10 @@ class BaseWorkPIV(BaseWorkWithMask):
 
         ixvecs, iyvecs = np.meshgrid(ixvecs, iyvecs)
 
-        self.ixvecs_grid = ixvecs.flatten()
+        # ixvecs_grid has to be set last: when it is defined (see the method
+        # calcul, which can be called by different threads), the object is ready
         self.iyvecs_grid = iyvecs.flatten()
+        self.ixvecs_grid = ixvecs.flatten()
 
     def calcul(self, couple):
         """Calcul the PIV (one pass) from a couple of images."""
-- 
2.43.0


From 6ba41395e74d6c46235e21482ef8840da8fde544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 39/59] fix: secondary peaks with displacement_max or without
 threshold_diff_neighbour (WorkFIX)

---
 src/fluidimage/works/piv/fix.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 8867d64..6ca315d 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -102,8 +102,11 @@ Parameters indicating how are detected and processed false vectors.
                 inds = (delta2s > displacement_max2).nonzero()[0]
             put_to_nan(inds, "delta2 < displacement_max2")
 
-        if self.params_fix.threshold_diff_neighbour is not None:
-            threshold = self.params_fix.threshold_diff_neighbour
+        threshold = self.params_fix.threshold_diff_neighbour
+        use_secondary_peaks = self.piv_work.params.piv0.nb_peaks_to_search >= 2
+
+        # the mean over the neighbours is also used for the secondary peaks
+        if threshold is not None or use_secondary_peaks:
             ixvecs = self.piv_work.ixvecs
             iyvecs = self.piv_work.iyvecs
 
@@ -119,6 +122,7 @@ Parameters indicating how are detected and processed false vectors.
             diff_y = dys_neighbors - deltays
             differences2 = diff_x**2 + diff_y**2
 
+        if threshold is not None:
             with np.errstate(invalid="ignore"):
                 inds = (differences2 > threshold**2).nonzero()[0]
 
@@ -129,10 +133,10 @@ Parameters indicating how are detected and processed false vectors.
                     ivec
                 ] += f" (diff = {sqrt(differences2[ivec]):.2f})"
 
-            piv_results.deltaxs_wrong = deltaxs_wrong
-            piv_results.deltays_wrong = deltays_wrong
+        piv_results.deltaxs_wrong = deltaxs_wrong
+        piv_results.deltays_wrong = deltays_wrong
 
-        if self.piv_work.params.piv0.nb_peaks_to_search < 2:
+        if not use_secondary_peaks:
             return piv_results
 
         # condition check 2nd peak
@@ -189,7 +193,7 @@ Parameters indicating how are detected and processed false vectors.
 
                 if (
                     self.params_fix.displacement_max
-                    and dx**2 + dy**2 > self.params_fix.displacement_max
+                    and dx**2 + dy**2 > self.params_fix.displacement_max**2
                 ):
                     continue
 
-- 
2.43.0


From fc15d669fb9492cfe2c6a3307695dd2fc562a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 40/59] fix: order of the subdomains when a PIV result with
 more than 10 subdomains is loaded

---
 src/fluidimage/data_objects/piv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index a5ef96a..a492c23 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -499,12 +499,12 @@ class HeavyPIVResults(DataObject):
         if "deltaxs_tps" in g_piv.keys():
             g = g_piv["deltaxs_tps"]
             self.deltaxs_tps = []
-            for arr in g.keys():
-                self.deltaxs_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltaxs_tps.append(g[f"subdom{i}"][...])
             g = g_piv["deltays_tps"]
             self.deltays_tps = []
-            for arr in g.keys():
-                self.deltays_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltays_tps.append(g[f"subdom{i}"][...])
 
     def get_grid_pixel(self, index_pass):
         """Recompute 1d arrays containing the approximate positions of the vectors
-- 
2.43.0


From 9f92f197a8e4d6fc22425bf9017dce7e17a9da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 41/59] fix: MultipassPIVResults.make_light_result for a given
 pass

---
 src/fluidimage/data_objects/piv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index a492c23..d470736 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -715,7 +715,7 @@ class MultipassPIVResults(DataObject):
 
     def make_light_result(self, ind_pass=-1):
         piv = self.passes[ind_pass]
-        if ind_pass == -1:
+        if ind_pass in (-1, len(self.passes) - 1):
             deltaxs = piv.deltaxs_final
             deltays = piv.deltays_final
             ixvec = piv.ixvecs_final
@@ -725,7 +725,7 @@ class MultipassPIVResults(DataObject):
             deltaxs = piv.deltaxs_approx
             deltays = piv.deltays_approx
             ixvec = piv.ixvecs_approx
-            iyvec = piv.ixvecs_approx
+            iyvec = piv.iyvecs_approx
 
         if hasattr(self, "file_name"):
             file_name = self.file_name
-- 
2.43.0


From 922f2a7a54f57e77cebc724ca6cdff6785348345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 42/59] fix: save PIV results which have been loaded or
 computed from arrays

---
 src/fluidimage/data_objects/piv.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index d470736..a675905 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -198,6 +198,9 @@ class ArrayCouple(DataObject):
 
         assert isinstance(self.names, tuple)
 
+        self.name = self._compute_name_from_names()
+        self.serie = None
+
         try:
             self.shape_images = hdf5_object["shape_images"][...]
         except KeyError:
@@ -350,6 +353,9 @@ class HeavyPIVResults(DataObject):
         )
 
     def _get_name(self, kind):
+        if hasattr(self, "file_name"):
+            return self.file_name
+
         serie = self.couple.serie
 
         if kind is None:
@@ -822,12 +828,18 @@ class LightPIVResults(DataObject):
 
         serie = self.couple.serie
 
+        if serie is None:
+            return self.couple.name + "_light.h5"
+
         str_ind0 = serie.compute_str_indices_from_indices(
             *[inds[0] for inds in serie.get_slicing_tuples()]
         )
 
         str_ind1 = serie.compute_str_indices_from_indices(
-            *[inds[1] - 1 for inds in serie.get_slicing_tuples()]
+            *[
+                range(*inds)[-1] if len(inds) > 1 else inds[0]
+                for inds in serie.get_slicing_tuples()
+            ]
         )
 
         name = "piv_" + serie.base_name + str_ind0 + "-" + str_ind1 + "_light.h5"
@@ -880,7 +892,9 @@ class LightPIVResults(DataObject):
 
         with h5py.File(path, "r") as file:
             keys = [(key) for key in file.keys() if "piv" in key]
-            self._load_from_hdf5_object(file[max(keys)])
+            self._load_from_hdf5_object(
+                file[max(keys, key=lambda key: (len(key), key))]
+            )
 
     def _load_from_hdf5_object(self, g_piv):
         file = g_piv.parent
-- 
2.43.0


From f509d74a396427122bc87a36c78bbce649540b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 43/59] fix: get_grid_pixel for images with a mask
 (params.mask.strcrop)

---
 src/fluidimage/postproc/piv.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/postproc/piv.py b/src/fluidimage/postproc/piv.py
index 9d351f2..d3420f8 100644
--- a/src/fluidimage/postproc/piv.py
+++ b/src/fluidimage/postproc/piv.py
@@ -18,6 +18,7 @@
 import h5py
 
 from fluiddyn.util.paramcontainer import ParamContainer
+from fluidimage.data_objects.piv import get_slices_from_strcrop
 from fluidimage.works.piv.multipass import WorkPIV
 
 from .vector_field import ArrayOfVectorFieldsOnGrid, VectorFieldOnGrid
@@ -99,14 +100,22 @@ def get_grid_pixel(params, shape_images, index_pass=-1):
     params_default = WorkPIV.create_default_params()
     params_default._modif_from_other_params(params)
 
+    shape_images = tuple(int(length) for length in shape_images)
+    imshape = shape_images
+    if params_default.mask.strcrop is not None:
+        slices = get_slices_from_strcrop(params_default.mask.strcrop)
+        imshape = tuple(
+            len(range(*_slice.indices(length)))
+            for _slice, length in zip(slices, shape_images)
+        )
+
     work_multi = WorkPIV(params_default)
-    work_multi._prepare_with_image(imshape=shape_images)
+    work_multi._prepare_with_image(imshape=imshape)
 
     work = work_multi.works_piv[index_pass]
-    xs1d = work.ixvecs
-    ys1d = work.iyvecs
+    work.shape_images = shape_images
 
-    return xs1d, ys1d
+    return work._xyoriginalimage_from_xymasked(work.ixvecs, work.iyvecs)
 
 
 class ArrayPIV(ArrayOfVectorFieldsOnGrid):
-- 
2.43.0


From bf440bf6331ea21d1ec9d507aa2735bebc3968d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 44/59] fix: save and load vector fields without z or with a
 number vz

---
 src/fluidimage/postproc/vector_field.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 3ada5a3..1286dbf 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -108,6 +108,9 @@ class VectorFieldOnGrid:
         if isinstance(z, np.ndarray) and z.ndim == 0:
             z = z.item()
 
+        if isinstance(vz, np.ndarray) and vz.ndim == 0:
+            vz = vz.item()
+
         self.x = x
         self.y = y
         self.z = z
@@ -185,7 +188,9 @@ class VectorFieldOnGrid:
             file.attrs["module_name"] = cls.__module__
 
             for attr_name in self._attr_saved_as_dataset:
-                file.create_dataset(attr_name, data=getattr(self, attr_name))
+                value = getattr(self, attr_name)
+                if value is not None:
+                    file.create_dataset(attr_name, data=value)
 
             for attr_name in self._attr_saved_as_attr:
                 file.attrs[attr_name] = getattr(self, attr_name)
@@ -251,7 +256,9 @@ class VectorFieldOnGrid:
             kwargs = {}
             with h5py.File(path, "r") as file:
                 for attr_name in cls._attr_saved_as_dataset:
-                    kwargs[attr_name] = file[attr_name][...]
+                    kwargs[attr_name] = (
+                        file[attr_name][...] if attr_name in file else None
+                    )
                 for attr_name in cls._attr_saved_as_attr:
                     attr = file.attrs[attr_name]
                     if isinstance(attr, np.ndarray):
-- 
2.43.0


From 1c855b14f0980a11cb80f849838731097702d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 45/59] fix: extract_square for fields with more lines than
 columns

---
 src/fluidimage/postproc/vector_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 1286dbf..b2dfa3a 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -537,7 +537,7 @@ class VectorFieldOnGrid:
             start1 = cut
             stop1 = cut + n
             start0 = (n0 - n) // 2
-            stop0 = start1 + n
+            stop0 = start0 + n
 
         return self.extract(start0, stop0, start1, stop1)
 
-- 
2.43.0


From 03102e38ed4cf06fda8a4f8edddd89cdae6e74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 46/59] fix: gaussian_filter applied to vz

---
 src/fluidimage/postproc/vector_field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index b2dfa3a..0f8550f 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -457,8 +457,10 @@ class VectorFieldOnGrid:
         ret.vy = _gaussianf(self.vy)
 
         if hasattr(self, "vz"):
-            # ret.vz = _gaussianf(self.vz)
-            pass
+            if isinstance(self.vz, Number):
+                ret.vz = self.vz
+            else:
+                ret.vz = _gaussianf(self.vz)
 
         if valid:
             mf = int(np.floor((2 * int(truncate * max(sigma) + 0.5) + 1) / 2))
-- 
2.43.0


From 88a5475b8f1b204a5427b6f505429cb26f4c2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 47/59] fix: apply_function_to_spatiotemp_data for an array
 containing a field twice

---
 src/fluidimage/postproc/vector_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 0f8550f..4a90355 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -781,6 +781,7 @@ class ArrayOfVectorFieldsOnGrid:
             fields[it, :, :] = piv.vy
         retvy = func(fields)
         result = deepcopy(self)
+        result._list = [deepcopy(v) for v in self._list]
         for it, v in enumerate(result):
             v.vx = retvx[it]
             v.vy = retvy[it]
-- 
2.43.0


From 6547ffd540b245fae1fb149873b4d27772563ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 48/59] fix: apply_function_to_spatiotemp_data with a function
 returning a view

---
 src/fluidimage/postproc/vector_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 4a90355..28c4d35 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -777,6 +777,8 @@ class ArrayOfVectorFieldsOnGrid:
         for it, piv in enumerate(self._list):
             fields[it, :, :] = piv.vx
         retvx = func(fields)
+        # the result can be a view of the array given to the function
+        fields = np.empty_like(fields)
         for it, piv in enumerate(self._list):
             fields[it, :, :] = piv.vy
         retvy = func(fields)
-- 
2.43.0


From 5f7427bd57006fbd8b37ae0a579ed6d486bf1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 49/59] fix: PIV works with parameters loaded from a file (two
 sizes of windows)

---
 src/fluidimage/works/piv/multipass.py  | 8 ++++++--
 src/fluidimage/works/piv/singlepass.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/works/piv/multipass.py b/src/fluidimage/works/piv/multipass.py
index 77eedc6..1c3ba4c 100644
--- a/src/fluidimage/works/piv/multipass.py
+++ b/src/fluidimage/works/piv/multipass.py
@@ -9,6 +9,8 @@
 
 from copy import copy
 
+import numpy as np
+
 from ...data_objects.piv import MultipassPIVResults
 from .. import BaseWorkFromSerie
 from .fix import WorkFIX
@@ -131,7 +133,8 @@ class WorkPIV(BaseWorkFromSerie):
         if isinstance(shape_crop_im0, int):
             shape_crop_im0 = (shape_crop_im0, shape_crop_im0)
         elif (
-            isinstance(shape_crop_im0, (list, tuple)) and len(shape_crop_im0) == 2
+            isinstance(shape_crop_im0, (list, tuple, np.ndarray))
+            and len(shape_crop_im0) == 2
         ):
             shape_crop_im0 = tuple(shape_crop_im0)
         else:
@@ -142,7 +145,8 @@ class WorkPIV(BaseWorkFromSerie):
         if isinstance(shape_crop_im1, int):
             shape_crop_im1 = (shape_crop_im1, shape_crop_im1)
         elif (
-            isinstance(shape_crop_im1, (list, tuple)) and len(shape_crop_im1) == 2
+            isinstance(shape_crop_im1, (list, tuple, np.ndarray))
+            and len(shape_crop_im1) == 2
         ):
             shape_crop_im1 = tuple(shape_crop_im1)
         else:
diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 2d5d07c..7030fe1 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -56,7 +56,8 @@ class BaseWorkPIV(BaseWorkWithMask):
         if _isint(shape_crop_im0):
             shape_crop_im0 = (shape_crop_im0, shape_crop_im0)
         elif (
-            isinstance(shape_crop_im0, (tuple, list)) and len(shape_crop_im0) == 2
+            isinstance(shape_crop_im0, (tuple, list, np.ndarray))
+            and len(shape_crop_im0) == 2
         ):
             shape_crop_im0 = tuple(shape_crop_im0)
         else:
@@ -67,7 +68,8 @@ class BaseWorkPIV(BaseWorkWithMask):
         if _isint(shape_crop_im1):
             shape_crop_im1 = (shape_crop_im1, shape_crop_im1)
         elif (
-            isinstance(shape_crop_im1, (tuple, list)) and len(shape_crop_im1) == 2
+            isinstance(shape_crop_im1, (tuple, list, np.ndarray))
+            and len(shape_crop_im1) == 2
         ):
             shape_crop_im1 = tuple(shape_crop_im1)
         else:
-- 
2.43.0


From db26baf6e277be5f28d92c84fbf92f2be8dc77b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 50/59] fix: surface tracking with crop_edge (the reference was
 modified by each image)

---
 src/fluidimage/works/surface_tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/surface_tracking.py b/src/fluidimage/works/surface_tracking.py
index 51a8620..b5d8554 100644
--- a/src/fluidimage/works/surface_tracking.py
+++ b/src/fluidimage/works/surface_tracking.py
@@ -356,7 +356,7 @@ class WorkSurfaceTracking(BaseWork):
         if x_min <= self.xmin:
             x_min = self.xmin
             print("INFO:x_min adjusted")
-        calc_frame = self.ref
+        calc_frame = self.ref.copy()
         calc_frame[:, x_min - self.xmin : -(self.xmax - x_max)] = frame[
             self.ymin : self.ymax, x_min:x_max
         ]
-- 
2.43.0


From 5f93339a4e35a012d202d9083095b05b792cf671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 51/59] fix: surface tracking with strides, one image, images
 not read, mode 'complete', names of the results

---
 src/fluidimage/topologies/surface_tracking.py | 87 ++++++++++---------
 1 file changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index 93c75e3..2cde4c9 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -112,15 +112,14 @@ Parameters indicating the input image set.
         self.serie = SerieOfArraysFromFiles(
             params.images.path, params.images.str_subset
         )
+        ind_start, ind_stop, ind_step = self.serie.get_slicing_tuples()[0]
+        # one result per image
         self.series = SeriesOfArrays(
             params.images.path,
-            "i:i+"
-            + str(self.serie.get_slicing_tuples()[0][2] + 1)
-            + ":"
-            + str(self.serie.get_slicing_tuples()[0][2]),
-            ind_start=self.serie.get_slicing_tuples()[0][0],
-            ind_stop=self.serie.get_slicing_tuples()[0][1] - 1,
-            ind_step=self.serie.get_slicing_tuples()[0][2],
+            "i",
+            ind_start=ind_start,
+            ind_stop=ind_stop,
+            ind_step=ind_step,
         )
         self.surface_tracking_work = WorkSurfaceTracking(params)
 
@@ -216,6 +215,7 @@ Parameters indicating the input image set.
             input_queue=queue_heights,
             kind=("io", "eat key value"),
         )
+        self.results = []
 
     def make_couples(self, input_queues, output_queues):
         """correctphase"""
@@ -237,7 +237,7 @@ Parameters indicating the input image set.
                     array1 = queue_angles[couple[0]]
                     array2 = queue_angles[couple[0]]
 
-                    queue_couple[couple[0]] = (array1, array2)
+                    queue_couple[couple[0]] = self._make_couple(array1, array2)
                     del queue_angles[couple[0]]
                     del queue_couples_of_names[key]
             elif (
@@ -247,17 +247,40 @@ Parameters indicating the input image set.
                 array1 = queue_mod0_angles[couple[0]]
                 array2 = queue_angles[couple[1]]
 
-                queue_couple[couple[1]] = (array1, array2)
+                queue_couple[couple[1]] = self._make_couple(array1, array2)
                 del queue_angles[couple[1]]
                 del queue_couples_of_names[key]
                 output_queues[0][couple[0]] = queue_mod0_angles[couple[0]]
                 del queue_mod0_angles[couple[0]]
 
+    def _make_couple(self, array1, array2):
+        """Couple of arrays, or the exception raised for one of them"""
+        for array in (array1, array2):
+            if isinstance(array, Exception):
+                return array
+        return (array1, array2)
+
+    def _get_path_result(self, name):
+        # ".h5" is added by imsave_h5
+        return self.path_dir_result / (name + ".h5")
+
     def save_image(self, tuple_path_image):
         path, image = tuple_path_image
         name_file = Path(path).name
+        path_result = self._get_path_result(name_file)
+        if self.how_saving == "complete" and path_result.exists():
+            return
         path_out = self.path_dir_result / name_file
         imsave_h5(path_out, image, splitext=False)
+        self.results.append(path_result.name)
+
+    def compute_indices_to_be_computed(self):
+        """Compute the indices of the images without saved result"""
+        return [
+            ind_serie
+            for ind_serie, serie in self.series.items()
+            if not self._get_path_result(serie.get_name_arrays()[0]).exists()
+        ]
 
     def fill_queue_paths(self, input_queue, output_queues):
         assert input_queue is None
@@ -269,23 +292,21 @@ Parameters indicating the input image set.
             logger.warning("add 0 image. No image to process.")
             return
 
+        if (
+            self.how_saving == "complete"
+            and not self.compute_indices_to_be_computed()
+        ):
+            logger.warning('topology in mode "complete" and work already done.')
+            return
+
+        # even in mode "complete", all images are needed since each phase is
+        # corrected with the previous one
         names = serie.get_name_arrays()
         for name in names:
-            path_im_output = self.path_dir_result / name
-            path_im_input = str(self.path_dir_src / name)
-            if self.how_saving == "complete":
-                if not path_im_output.exists():
-                    queue_paths[name] = path_im_input
-            else:
-                queue_paths[name] = path_im_input
+            queue_paths[name] = str(self.path_dir_src / name)
 
         if len(names) == 0:
-            if self.how_saving == "complete":
-                logger.warning(
-                    'topology in mode "complete" and work already done.'
-                )
-            else:
-                logger.warning("Nothing to do")
+            logger.warning("Nothing to do")
             return
 
         nb_names = len(names)
@@ -294,26 +315,10 @@ Parameters indicating the input image set.
 
         logger.debug("All files: %s", names)
 
-        series = self.series
-        if not series:
-            logger.warning("add 0 couple. No phase to correct.")
-            return
-
-        nb_series = len(series)
-        logger.info(f"Add {nb_series} phase to correct.")
-
-        for iserie, serie in enumerate(series):
-            if iserie > 1:
-                break
-            logger.info(
-                "Files of serie {}: {}".format(iserie, serie.get_name_arrays())
-            )
         # for the first corrected angle : corrected_angle = angle
-        ind_serie, serie = next(series.items())
-        name = serie.get_name_arrays()[0]
-        queue_couples_of_names[ind_serie - 1] = (name, name)
-        for ind_serie, serie in series.items():
-            queue_couples_of_names[ind_serie] = serie.get_name_arrays()
+        queue_couples_of_names[0] = (names[0], names[0])
+        for ind in range(1, nb_names):
+            queue_couples_of_names[ind] = (names[ind - 1], names[ind])
 
 
 Topology = TopologySurfaceTracking
-- 
2.43.0


From 3aeddaf7ac2d954c965fc2b341c9430c5b8f27b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 52/59] fix: preprocessing tools with an integer as weight
 (overflow for images of integers)

---
 src/fluidimage/works/preproc/_toolbox_cv.py |  4 ++--
 src/fluidimage/works/preproc/_toolbox_py.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_cv.py b/src/fluidimage/works/preproc/_toolbox_cv.py
index d7fa7cd..91b2ed0 100644
--- a/src/fluidimage/works/preproc/_toolbox_cv.py
+++ b/src/fluidimage/works/preproc/_toolbox_cv.py
@@ -46,7 +46,7 @@ def sliding_median(img=None, weight=1.0, window_size=3):
 
     """
     try:
-        img_out = img - weight * cv2.medianBlur(
+        img_out = img - float(weight) * cv2.medianBlur(
             img.astype(np.uint8), int(window_size)
         )
     except:
@@ -86,7 +86,7 @@ def sliding_minima(
     """
     kernel = np.ones((window_size, window_size), np.uint8)
     border = getattr(cv2, f"BORDER_{boundary_condition.upper()}")
-    img_out = img - weight * cv2.erode(
+    img_out = img - float(weight) * cv2.erode(
         img.astype(np.uint8), kernel=kernel, borderType=border
     )
     return img_out
diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 9cf3132..b781a34 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -84,7 +84,7 @@ def sliding_median(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.median_filter(
+    img_out = img - float(weight) * ndi.median_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -119,7 +119,7 @@ def sliding_percentile(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -148,7 +148,7 @@ def sliding_minima(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.minimum_filter(
+    img_out = img - float(weight) * ndi.minimum_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -204,7 +204,7 @@ def temporal_median(img=None, weight=1.0, window_shape=None):
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.median_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.median_filter(img, size=window_shape)
     return img_out
 
 
@@ -230,7 +230,7 @@ def temporal_percentile(img=None, percentile=10.0, weight=1.0, window_shape=None
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_shape
     )
     return img_out
@@ -252,7 +252,7 @@ def temporal_minima(img=None, weight=1.0, window_shape=None):
 
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
-    img_out = img - weight * ndi.minimum_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.minimum_filter(img, size=window_shape)
     return img_out
 
 
-- 
2.43.0


From faf00d35b42f78a9beda43b9b5c54fd83200f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 53/59] fix: rescale_intensity_tanh for images of integers
 (overflow of the squares) and black images

---
 src/fluidimage/works/preproc/_toolbox_py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index b781a34..a20f2b9 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -345,9 +345,9 @@ def rescale_intensity_tanh(img=None, threshold=None):
 
     """
     if threshold is None:
-        threshold = 2 * np.sqrt(np.mean(img**2))
+        threshold = 2 * np.sqrt(np.mean(img.astype(float) ** 2))
 
-    if threshold == 0:
+    if threshold == 0 or np.max(img) == 0:
         return img
 
     img_out = np.tanh(img / threshold)
-- 
2.43.0


From 71e0223c5e626e7bd5da7eb9580a316314324a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 54/59] fix: global_threshold with a threshold out of the range
 of the type of the images

---
 src/fluidimage/works/preproc/_toolbox_py.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index a20f2b9..ebd9fb0 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -284,8 +284,13 @@ def global_threshold(img=None, minima=0, maxima=None):
             maxima = 65535
         else:
             maxima = info.max
-    img_out[img_out < minima] = minima
-    img_out[img_out > maxima] = maxima
+    for mask, value in (
+        (img_out < minima, minima),
+        (img_out > maxima, maxima),
+    ):
+        # no assignment if useless: value can be out of the range of dtype
+        if mask.any():
+            img_out[mask] = value
     return img_out
 
 
-- 
2.43.0


From 8278d6d976302e84459d870dca00ac3644b99c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 55/59] fix: adaptive_threshold (backend python) gives the
 binary image (not the thresholds)

---
 src/fluidimage/works/preproc/_toolbox_py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index ebd9fb0..3ef7c11 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -310,8 +310,8 @@ def adaptive_threshold(img=None, window_size=5, offset=0):
         Constant to be subtracted from the mean.
 
     """
-    img_out = filters.threshold_local(img, window_size, offset=offset)
-    return img_out
+    threshold = filters.threshold_local(img, window_size, offset=offset)
+    return np.where(img > threshold, img.max(), 0)
 
 
 @iterate_multiple_imgs
-- 
2.43.0


From 34445d840938c1f937b4181bf625b68d95784993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 56/59] fix: saving of preprocessed images with negative values
 (overflow)

---
 src/fluidimage/data_objects/preproc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a3bf068..e0618a5 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -15,6 +15,7 @@ import math
 import os
 
 import h5py
+import numpy as np
 
 from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
 from fluidimage.util import imsave, imsave_h5
@@ -158,6 +159,8 @@ class PreprocResults(LightPIVResults):
         out_format = self.params.saving.format
         for k, v in self.data.items():
             path_file = os.path.join(path, k)
+            # negative values can not be saved as (unsigned) integers
+            v = np.maximum(v, 0)
             if out_format == "img":
                 imsave(path_file, v, as_int=True)
             elif out_format in ("h5", "hdf5"):
-- 
2.43.0


From 010aed4737938367b33a39f692a35eab5b8923a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 57/59] fix: middle images of subsets with 2 indices and an
 even number of first indices

---
 src/fluidimage/data_objects/preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index e0618a5..fbda7db 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -56,7 +56,7 @@ def get_ind_middle(serie):
     ind_middle_start = int(math.floor(Ni / 2.0)) * Nj
     ind_middle_end = int(math.ceil(Ni / 2.0)) * Nj
     if Ni % 2 == 0:
-        ind_middle_start -= 1
+        ind_middle_start -= Nj
 
     return ind_middle_start, ind_middle_end
 
-- 
2.43.0


From 2c1bb855986891cd91b0fda5b311a55a681128ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 58/59] fix: sharpen for images of integers (overflow of the
 differences)

---
 src/fluidimage/works/preproc/_toolbox_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 3ef7c11..d385152 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -488,7 +488,7 @@ def sharpen(img=None, sigma1=3.0, sigma2=1.0, alpha=30.0):
         Factor by which the image will be sharpened
 
     """
-    blurred = ndi.gaussian_filter(img, sigma1)
+    blurred = ndi.gaussian_filter(img.astype(float), sigma1)
     filter_blurred = ndi.gaussian_filter(blurred, sigma2)
 
     img_out = blurred + alpha * (blurred - filter_blurred)
-- 
2.43.0


From fad0217ae7c38a9f4b8e463caa9647f50930b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 59/59] fix: temporal preprocessing tools with window_shape
 given as a list of 2 numbers

---
 src/fluidimage/works/preproc/_toolbox_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index d385152..872ecb1 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -176,7 +176,7 @@ def _calcul_windowshape(arr_shape, window_shape):
         raise ValueError("window_shape must be a tuple or a list.")
 
     elif len(window_shape) == 2:
-        window_shape = (nb_imgs,) + window_shape
+        window_shape = (nb_imgs,) + tuple(window_shape)
     elif window_shape[0] <= 1:
         raise ValueError(
             "Cannot perform temporal filtering, try spatial filtering."
-- 
2.43.0

