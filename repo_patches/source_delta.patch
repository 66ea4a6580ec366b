From 89a4944ccfdc8b3c35f12e7411bc999771df1ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:03 +0000
Subject: [PATCH 01/14] fix: find all downstream blocks of tasks with
 asymmetric context

get_subgraph_blocks(read_roi=True) grew the region by (context_ul, context_lr)
instead of (context_lr, context_ul). With an asymmetric context, downstream()
was not the inverse of upstream() across tasks, such that dependent blocks were
never released or released early.
---
 daisy/dependency_graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..e8927bc 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -503,10 +503,12 @@ class BlockwiseDependencyGraph:
         if read_roi:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
-            # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # only need to check if a blocks write_roi overlaps with sub_roi.
+            # This is the same behavior as when we want write_roi overlap.
+            # A block reaches down by context[0] and up by context[1], so
+            # sub_roi has to grow by the opposite amounts.
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
             )
 
         # TODO: handle unsatisfiable sub_rois
-- 
2.43.0


From 37e4efa9717e37950efdc7662446184896259d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:03 +0000
Subject: [PATCH 02/14] fix: do not crash on dependencies outside of a task's
 total ROI

get_subgraph_blocks() raised a TypeError if the requested region does not
overlap the total write ROI, e.g., for chained tasks with different total ROIs.
---
 daisy/dependency_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index e8927bc..b818743 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -511,11 +511,12 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
-        # after accounting for padding
         sub_roi = sub_roi.intersect(self.total_write_roi)
 
+        # sub_roi is outside of *total_write_roi after accounting for padding
+        if sub_roi.empty:
+            return []
+
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
         end = sub_roi.end - self.total_write_roi.offset
-- 
2.43.0


From b9e8404e4c05720028fda23bba8e4c59690d13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:03 +0000
Subject: [PATCH 03/14] fix: consider overhanging write ROIs in dependencies
 between tasks

With fit="overhang", boundary blocks write beyond the total write ROI. Blocks
of other tasks that overlap only with this part were ignored by one of
upstream() and downstream(), such that both were not inverse to each other.
---
 daisy/dependency_graph.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index b818743..20027f0 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -155,6 +155,21 @@ class BlockwiseDependencyGraph:
             num_blocks += self._num_level_blocks(level)
         return num_blocks
 
+    @property
+    def covered_write_roi(self):
+        """The area covered by the write ROIs of all blocks."""
+        if self.fit == "shrink":
+            return self.total_write_roi
+        shape = self.total_write_roi.shape
+        block_shape = self.block_write_roi.shape
+        if self.fit == "overhang":
+            # boundary blocks leave total_write_roi, round up
+            num_blocks = -(-shape // block_shape)
+        else:
+            # round down to full blocks
+            num_blocks = shape // block_shape
+        return Roi(self.total_write_roi.offset, num_blocks * block_shape)
+
     @property
     def inclusion_criteria(self):
         # TODO: Can't we remove this entirely by pre computing the write_roi
@@ -511,9 +526,9 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        sub_roi = sub_roi.intersect(self.covered_write_roi)
 
-        # sub_roi is outside of *total_write_roi after accounting for padding
+        # sub_roi is outside of the written area after accounting for padding
         if sub_roi.empty:
             return []
 
-- 
2.43.0


From 25b4c601f8d92e65848c07dccee49e98c5783238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:18 +0000
Subject: [PATCH 04/14] fix: handle tasks whose total ROI is too small for a
 single block

Such tasks have no levels (num_roots() raised an IndexError) or a negative
number of blocks per axis (two negative axes resulted in a positive block
count, although there are no blocks to process).
---
 daisy/dependency_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 20027f0..fadf275 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -192,13 +192,16 @@ class BlockwiseDependencyGraph:
         return fit_block
 
     def num_roots(self):
+        if self.num_levels == 0:
+            # total ROI is too small to contain a single block
+            return 0
         return self._num_level_blocks(0)
 
     def _num_level_blocks(self, level):
         level_offset = self._level_offsets[level]
 
         axis_blocks = [
-            (e - lo + s - r) // s
+            max(0, (e - lo + s - r) // s)
             for lo, e, s, r in zip(
                 level_offset,
                 self.total_write_roi.shape,
@@ -237,6 +240,8 @@ class BlockwiseDependencyGraph:
                 raise RuntimeError("Unreachable!")
 
     def root_gen(self):
+        if self.num_levels == 0:
+            return
         blocks = self.level_blocks(level=0)
         for block in blocks:
             yield self.fit_block(block)
-- 
2.43.0


From b18ba5a67de4ae8e51608872c5be167aa402cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:18 +0000
Subject: [PATCH 05/14] fix: schedule blocks of dependent tasks that have no
 upstream blocks

Only blocks of tasks without upstream tasks were considered as roots. Blocks of
a dependent task that read outside of the area written by its upstream tasks
never became ready, and the run did not terminate.
---
 daisy/dependency_graph.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index fadf275..e36588a 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -638,10 +638,29 @@ class DependencyGraph:
 
     def roots(self):
         root_tasks = self.root_tasks()
-        return {
+        roots = {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
             for task_id in root_tasks
         }
+        # dependent tasks can have blocks without any upstream blocks, if they
+        # read from an area that is not covered by their upstream tasks
+        for task_id in self.task_ids:
+            if task_id in roots or self.__reads_only_upstream(task_id):
+                continue
+            blocks = [b for b in self.root_gen(task_id) if len(self.upstream(b)) == 0]
+            roots[task_id] = (len(blocks), iter(blocks))
+        return roots
+
+    def __reads_only_upstream(self, task_id):
+        """Quick test whether all reads of a task fall into the area written by
+        one of its upstream tasks, i.e., every block has upstream blocks."""
+        total_read_roi = self.task_dependency_graphs[task_id].total_read_roi
+        return any(
+            self.task_dependency_graphs[upstream_task].covered_write_roi.contains(
+                total_read_roi
+            )
+            for upstream_task in self.upstream_tasks[task_id]
+        )
 
     def __add_task(self, task):
         if task.task_id not in self.task_map:
-- 
2.43.0


From 1295e0c1c173821d45db9b2ba69483aaaca9ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 06/14] fix: do not count orphans more than once

Orphans were removed from the boundary as soon as none of their upstream nodes
was in the surface, even if some upstream nodes were not processed yet. If one
of those failed later, the orphan was counted again. The orphan count could
exceed the number of blocks, such that the task was never considered done.
---
 daisy/ready_surface.py | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..fee13a1 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -15,8 +15,10 @@ class ReadySurface:
         1) it has been marked as successfully completed
         2) it has downstream dependencies marked as OTHER
     A node is a BOUNDARY node iff
-        1) it has been marked as failed
-        2) it has upstream dependencies marked as SURFACE
+        1) it has been marked as failed, or
+        2) it is downstream of a node that has been marked as failed
+    Nodes never leave the boundary, otherwise they would be reported as orphans
+    again if another one of their upstream dependencies fails later.
     """
 
     def __init__(self, get_downstream_nodes, get_upstream_nodes):
@@ -66,10 +68,6 @@ class ReadySurface:
             ]
             if all(abs(x) > 0 for x in contained):
                 self.surface.remove(up_node)
-                for down_node, c in zip(down_nodes, contained):
-                    if c < 0:
-                        # node was in boundary. maybe we can remove it
-                        self.__remove_from_boundary(down_node)
 
         if len(list(self.downstream(node))) == 0:
             self.surface.remove(node)
@@ -123,13 +121,6 @@ class ReadySurface:
             ]
             if all(abs(x) > 0 for x in contained):
                 self.surface.remove(up_node)
-                for down_node, c in zip(down_nodes, contained):
-                    if c < 0:
-                        # node was in boundary. maybe we can remove it
-                        self.__remove_from_boundary(down_node)
-
-        if len(list(self.upstream(node))) == 0:
-            self.boundary.remove(node)
 
         return orphans
 
@@ -142,13 +133,3 @@ class ReadySurface:
             return True
         else:
             return False
-
-    def __remove_from_boundary(self, node):
-        up_nodes = self.upstream(node)
-        if node in self.boundary and all(
-            up_node not in self.surface for up_node in up_nodes
-        ):
-            self.boundary.remove(node)
-            return True
-        else:
-            return False
-- 
2.43.0


From b282c2f96ec6917d3bdf5e406d4e9b87df3aa2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 07/14] fix: serial server stopped if all ready blocks were
 skipped

If the check function skipped all blocks of the ready tasks, the serial server
stopped without processing the blocks of downstream tasks that became available.
---
 daisy/serial_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..97b4189 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -34,6 +34,10 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
+                    if len(scheduler.get_ready_tasks()) > 0:
+                        # all ready blocks were skipped by their check
+                        # function, which made other blocks available
+                        continue
                     break
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
-- 
2.43.0


From 5ed5d7ac836c76a0a3798e313ead9bbd3b53ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 08/14] fix: serial server counted successful retries as
 failures

A block that failed keeps its FAILED status when it is queued again. Since the
serial server only looks for this status after processing, a successful retry
was released as failed again.
---
 daisy/serial_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index 97b4189..f4e9f85 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -47,6 +47,8 @@ class SerialServer(ServerObservee):
                 self.notify_acquire_block(
                     block.task_id, scheduler.task_states[block.task_id]
                 )
+                # a retried block still has the status of its previous attempt
+                block.status = BlockStatus.PROCESSING
                 process_funcs[block.task_id](block)
                 if not block.status == BlockStatus.FAILED:
                     # unless explicitly set to failed, we assume the block is successful
-- 
2.43.0


From 8cb45c7e0363486b0b7f790f1d117e91bbff9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 09/14] fix: run_blockwise returns True only if all blocks were
 successful

As documented, run_blockwise should return False if there are blocks that were
not successfully run. is_done() is also true for failed and orphaned blocks.
---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From 11b2e03d97de820dae14c7a32d4459c51443a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 10/14] fix: report a lost block only once

A block whose stream closed after the processing timed out was listed twice,
which raised a KeyError.
---
 daisy/block_bookkeeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..dbb02a3 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -75,7 +75,7 @@ class BlockBookkeeper:
                 lost_block_ids.append(block_id)
 
             # did processing time out?
-            if self.processing_timeout is not None:
+            elif self.processing_timeout is not None:
                 if time.time() - log.time_sent > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
-- 
2.43.0


From 2e9c9b0bc3b8cc06e39641c01c09d410fe81a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 11/14] fix: do not replace a failing worker that is already
 gone

If the last failure of a worker is handled after the worker died and was
replaced, another replacement was started and the pool exceeded num_workers.
---
 daisy/task_worker_pools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..30ebc7e 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,6 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            if worker_id in worker_pool.workers:
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
-- 
2.43.0


From b6e7653075e06b17acbbe82176fc3735de6d9f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:05 +0000
Subject: [PATCH 12/14] fix: escape separators in the context passed to workers

A value with = or : given to the constructor of Context (task ID, hostname, or
log directory) could not be parsed by the worker that received the context.
---
 daisy/context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index b53dec0..4008fe9 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -1,6 +1,7 @@
 import copy
 import logging
 import os
+from urllib.parse import quote, unquote
 from .logging import get_log_basedir
 
 logger = logging.getLogger(__name__)
@@ -16,7 +17,11 @@ class Context:
         return copy.deepcopy(self)
 
     def to_env(self):
-        return ":".join("%s=%s" % (k, v) for k, v in self.__dict.items())
+        # values given to the constructor (e.g., a log directory or an IPv6
+        # address) can contain = or :
+        return ":".join(
+            "%s=%s" % (quote(str(k)), quote(str(v))) for k, v in self.__dict.items()
+        )
 
     def __setitem__(self, k, v):
         k = str(k)
@@ -51,6 +56,6 @@ class Context:
 
         for token in tokens:
             k, v = token.split("=")
-            context[k] = v
+            context.__dict[unquote(k)] = unquote(v)
 
         return context
-- 
2.43.0


From 3cbd9cd7aa489fa74a1a7a86fa7a449acb57c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:13 +0000
Subject: [PATCH 13/14] fix: answer delayed requests of all tasks

Only the delayed requests of the first task were tried again. If they could
not be answered yet, the requests for other tasks were never considered and a
chain of three tasks could run forever.
---
 daisy/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..1f00c35 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -93,6 +93,12 @@ class Server(ServerObservee):
             if self.pending_requests[task_id].empty():
                 continue
 
+            # requests that have to be delayed further must not keep the
+            # requests for other tasks from being answered
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
+                continue
+
             logger.debug("Answering delayed request for task %s", task_id)
             return self.pending_requests[task_id].get()
 
-- 
2.43.0


From feaa288ba1e59998b9576818533e3490b2ef4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 14/14] fix: stop workers and connections if recruiting the
 first workers fails

Server.run_blockwise recruited the first workers before entering the block
that stops all workers and closes all connections on exit. If an init
callback or the start of a worker raised, workers that were already started
and the TCP connections were left behind and observers were not told about
the exit.
---
 daisy/server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 1f00c35..f83de9c 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -54,9 +54,8 @@ class Server(ServerObservee):
             task.task_id: Queue() for task in tasks
         }
 
-        self._recruit_workers()
-
         try:
+            self._recruit_workers()
             self._event_loop()
         finally:
             logger.debug("Stopping worker pools...")
-- 
2.43.0

