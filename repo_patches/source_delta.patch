From d2eec5ccd5b346d484ae7ff2353f0edc141f7b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 01/70] fix: keep tasks waiting in the scheduler in submission
 order

deque.extendleft reverses its input, so every scan of the queue which
put tasks back reversed their order.
---
 ipyparallel/controller/task_scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index b354b96..70a2430 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -760,7 +760,8 @@ class TaskScheduler(Scheduler):
 
         # put back any tasks we popped but didn't run
         if using_queue:
-            self.queue.extendleft(to_restore)
+            # (extendleft inserts one at a time, reversing its input)
+            self.queue.extendleft(reversed(to_restore))
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From 23101e31c917920f22d141864f8a40fa760eeac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 02/70] fix: do not submit a waiting task twice

A task run because its dependencies were met (rather than by a scan of the
queue) stayed in the queue and was submitted again by the next scan.
---
 ipyparallel/controller/task_scheduler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 70a2430..bb8591d 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -717,14 +717,22 @@ class TaskScheduler(Scheduler):
             using_queue = True
         else:
             using_queue = False
-            jobs = deque(sorted(self.queue_map[msg_id] for msg_id in msg_ids))
+            jobs = deque(
+                sorted(
+                    self.queue_map[msg_id]
+                    for msg_id in msg_ids
+                    if msg_id in self.queue_map
+                )
+            )
 
         to_restore = []
         while jobs:
             job = jobs.popleft()
-            if job.removed:
-                continue
             msg_id = job.msg_id
+            if job.removed or self.queue_map.get(msg_id) is not job:
+                # no longer waiting: failed, or already submitted.
+                # jobs submitted via the dependency graph are not removed from the queue.
+                continue
 
             put_it_back = True
 
-- 
2.43.0


From 9f57bcf17ba10041f387f744bd548993f760437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 03/70] fix: update the task graph one finished task at a time

Failing an unreachable task while the graph is being updated updated the
graph recursively, when the outer update had taken tasks out of the queue:
those were not found by the inner update and stayed in the queue forever
(and a long chain of dependent tasks hit the recursion limit).
Dependencies already finished when a task was queued are not in the graph.
---
 ipyparallel/controller/task_scheduler.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index bb8591d..325d8f7 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -184,6 +184,9 @@ class TaskScheduler(Scheduler):
     def _queue_default(self):
         return deque()
 
+    # finished tasks (or None) for which the graph is still to be updated
+    graph_updates = Instance(deque, ())
+
     queue_map = Dict()  # dict by msg_id of Jobs (for O(1) access to the Queue)
     graph = Dict()  # dict by msg_id of [ msg_ids that depend on key ]
     retries = Dict()  # dict by msg_id of retries remaining (non-neg ints)
@@ -463,7 +466,7 @@ class TaskScheduler(Scheduler):
         job.removed = True
         for mid in job.dependents:
             if mid in self.graph:
-                self.graph[mid].remove(msg_id)
+                self.graph[mid].discard(msg_id)
 
         try:
             raise why()
@@ -694,6 +697,20 @@ class TaskScheduler(Scheduler):
 
         Called with dep_id=None to update entire graph for hwm, but without finishing a task.
         """
+        # failing a task while updating the graph leads back here:
+        # finish the current update first, its queue is incomplete while it runs
+        self.graph_updates.append(dep_id)
+        if len(self.graph_updates) > 1:
+            return
+        try:
+            while self.graph_updates:
+                self._update_graph(self.graph_updates[0])
+                self.graph_updates.popleft()
+        finally:
+            self.graph_updates.clear()
+
+    def _update_graph(self, dep_id):
+        """Perform one update of the graph"""
         # print ("\n\n***********")
         # pprint (dep_id)
         # pprint (self.graph)
@@ -750,7 +767,7 @@ class TaskScheduler(Scheduler):
                     self.queue_map.pop(msg_id)
                     for mid in job.dependents:
                         if mid in self.graph:
-                            self.graph[mid].remove(msg_id)
+                            self.graph[mid].discard(msg_id)
 
                     # abort the loop if we just filled up all of our engines.
                     # avoids an O(N) operation in situation of full queue,
-- 
2.43.0


From 98a3bada17b10419cd4ef7aeb94feb1437035692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 04/70] fix: fail tasks which can only run on an engine that is
 gone

A waiting task which has to follow a task that ran on an engine which died,
or one that failed without running at all (KeyError), or is restricted to
engines which have all died, stayed in the queue forever.
---
 ipyparallel/controller/task_scheduler.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 325d8f7..c9a1abc 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -301,6 +301,9 @@ class TaskScheduler(Scheduler):
             self.completed.pop(uid)
             self.failed.pop(uid)
 
+        # tasks which can only run on this engine have become impossible
+        self.update_graph(None)
+
     def handle_stranded_tasks(self, engine):
         """Deal with jobs resident in an engine that died."""
         lost = self.pending[engine]
@@ -529,17 +532,25 @@ class TaskScheduler(Scheduler):
 
             if not indices:
                 # couldn't run
-                if job.follow.all:
+                if job.follow:
                     # check follow for impossibility
-                    dests = set()
                     relevant = set()
                     if job.follow.success:
                         relevant = self.all_completed
                     if job.follow.failure:
                         relevant = relevant.union(self.all_failed)
-                    for m in job.follow.intersection(relevant):
-                        dests.add(self.destinations[m])
-                    if len(dests) > 1:
+                    # no destination if a task failed without running
+                    dests = {
+                        self.destinations.get(m)
+                        for m in job.follow.intersection(relevant)
+                    }
+                    # engines that are gone don't come back
+                    alive = dests.intersection(self.targets) - job.blacklist
+                    if job.follow.all:
+                        impossible = len(dests) > 1 or len(alive) < len(dests)
+                    else:
+                        impossible = not alive and job.follow <= self.all_done
+                    if impossible:
                         self.queue_map[msg_id] = job
                         self.fail_unreachable(msg_id)
                         return False
-- 
2.43.0


From 3e7c0b74723f824a777e8118e9754df23d710a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 05/70] fix: ignore late results of tasks already given up on

The result of a task from an engine considered dead, arriving after the task
had been resubmitted to another engine, was relayed to the client, but
left tasks depending on it waiting forever.
---
 ipyparallel/controller/task_scheduler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index c9a1abc..675bc73 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -636,6 +636,12 @@ class TaskScheduler(Scheduler):
 
         md = msg['metadata']
         parent = msg['parent_header']
+        if parent['msg_id'] not in self.pending.get(engine, {}):
+            # engine was considered dead, and the task handled already
+            self.log.warning(
+                "task::Ignoring late result of %r from %r", parent['msg_id'], engine
+            )
+            return
         if md.get('dependencies_met', True):
             success = md['status'] == 'ok'
             msg_id = parent['msg_id']
-- 
2.43.0


From 1e5a46df6f6c6be40b7c0049b9b3215fe2da7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 06/70] fix: don't register the same engine twice in the task
 scheduler

An engine registering while the scheduler starts is listed in the reply to the
scheduler's connection request as well as in a registration notification.
---
 ipyparallel/controller/task_scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 675bc73..17ae27f 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -261,6 +261,10 @@ class TaskScheduler(Scheduler):
 
     def _register_engine(self, uid):
         """New engine with ident `uid` became available."""
+        if uid in self.targets:
+            # registered while our initial connection request was in flight,
+            # in which case we hear about it twice
+            return
         # head of the line:
         self.targets.insert(0, uid)
         self.loads.insert(0, 0)
-- 
2.43.0


From 25de62cafa88bc772b5ab0d60e5a8fdc13c7f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 07/70] fix: fail tasks whose follow dependency ran outside
 their targets

---
 ipyparallel/controller/task_scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 17ae27f..37b9115 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -550,6 +550,8 @@ class TaskScheduler(Scheduler):
                     }
                     # engines that are gone don't come back
                     alive = dests.intersection(self.targets) - job.blacklist
+                    if job.targets:
+                        alive &= job.targets
                     if job.follow.all:
                         impossible = len(dests) > 1 or len(alive) < len(dests)
                     else:
-- 
2.43.0


From 895cab2f763c53df9de88eab7103618ef307f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 08/70] fix: keep (un)registering engines when their state
 can't be saved

---
 ipyparallel/controller/hub.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 282ffa1..c8a750a 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1103,8 +1103,17 @@ class Hub(LoggingConfigurable):
 
         state['next_id'] = self._idcounter
 
-        with open(self.engine_state_file, 'w') as f:
-            json.dump(state, f)
+        try:
+            with open(self.engine_state_file, 'w') as f:
+                json.dump(state, f)
+        except OSError:
+            # e.g. disk full. The state is only needed to restore engines,
+            # it must not interrupt (un)registering them
+            self.log.error(
+                "Couldn't save engine state to %s",
+                self.engine_state_file,
+                exc_info=True,
+            )
 
     def _load_engine_state(self):
         """load engine mapping from JSON file"""
-- 
2.43.0


From 6ae704aeb9676006687f2be9366bfb11c1f8e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 09/70] fix: save the engine state atomically

---
 ipyparallel/controller/hub.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index c8a750a..1ae71eb 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1103,9 +1103,13 @@ class Hub(LoggingConfigurable):
 
         state['next_id'] = self._idcounter
 
+        tmp_file = self.engine_state_file + ".tmp"
         try:
-            with open(self.engine_state_file, 'w') as f:
+            # write to a temporary file first:
+            # the state must survive a crash while it is being saved
+            with open(tmp_file, 'w') as f:
                 json.dump(state, f)
+            os.replace(tmp_file, self.engine_state_file)
         except OSError:
             # e.g. disk full. The state is only needed to restore engines,
             # it must not interrupt (un)registering them
@@ -1127,6 +1131,9 @@ class Hub(LoggingConfigurable):
 
         save_notifier = self.notifier
         self.notifier = None
+        # don't overwrite the state while only some engines are restored
+        save_file = self.engine_state_file
+        self.engine_state_file = ""
         for eid, uuid in state['engines'].items():
             heart = uuid.encode('ascii')
 
@@ -1136,6 +1143,7 @@ class Hub(LoggingConfigurable):
             self.finish_registration(heart)
 
         self.notifier = save_notifier
+        self.engine_state_file = save_file
 
         self._idcounter = state['next_id']
 
-- 
2.43.0


From b2dbfa872ea76cf0ddf51b245112a7700f93f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 10/70] fix: unregister restored engines which don't come back

---
 ipyparallel/controller/hub.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 1ae71eb..f5041d3 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -178,6 +178,9 @@ class Hub(LoggingConfigurable):
     _idcounter = Integer(0)
     distributed_scheduler = Any()
 
+    # restored engines that have not been heard from yet
+    _unconfirmed_hearts = Set()
+
     expect_stopped_hearts = Instance(deque)
 
     @default("expect_stopped_hearts")
@@ -416,6 +419,7 @@ class Hub(LoggingConfigurable):
     def handle_new_heart(self, heart):
         """Handle a new heart that just started beating"""
         self.log.debug("heartbeat::handle_new_heart(%r)", heart)
+        self._unconfirmed_hearts.discard(heart)
         if heart not in self.incoming_registrations:
             self.log.info("heartbeat::ignoring new heart: %r", heart)
         else:
@@ -1141,12 +1145,32 @@ class Hub(LoggingConfigurable):
                 id=int(eid), uuid=uuid, ident=heart
             )
             self.finish_registration(heart)
+            self._unconfirmed_hearts.add(heart)
 
         self.notifier = save_notifier
         self.engine_state_file = save_file
 
         self._idcounter = state['next_id']
 
+        # the heart monitor only notices the end of hearts it has heard before,
+        # so check that restored engines are really there
+        self.loop.add_timeout(
+            self.loop.time() + self.registration_timeout,
+            self._purge_unconfirmed_engines,
+        )
+
+    def _purge_unconfirmed_engines(self):
+        """unregister restored engines whose heart didn't start beating"""
+        # first heartbeat might be waiting to be handled
+        self.monitor.flush()
+        while self._unconfirmed_hearts:
+            heart = self._unconfirmed_hearts.pop()
+            if heart in self.hearts:
+                self.log.warning(
+                    f"registration::restored engine {heart} did not come back"
+                )
+                self.handle_stopped_heart(heart)
+
     # -------------------------------------------------------------------------
     # Client Requests
     # -------------------------------------------------------------------------
-- 
2.43.0


From 6a49d32fc3a70198e1bc05d95637e2c71135b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 11/70] fix: don't unregister an engine on behalf of another
 one

---
 ipyparallel/controller/hub.py | 7 +++++--
 ipyparallel/engine/app.py     | 8 ++++++--
 ipyparallel/engine/nanny.py   | 6 +++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index f5041d3..28ed0ff 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -958,12 +958,15 @@ class Hub(LoggingConfigurable):
                 f"registration::bad request for engine for unregistration: {msg['content']}",
             )
             return
-        if eid not in self.engines:
+        # the id may be one that an engine asked for, but was not given:
+        # leave other engines alone
+        uuid = msg['content'].get('uuid')
+        if eid not in self.engines or (uuid and self.engines[eid].uuid != uuid):
             # engine not registered
             # first, check for still-pending registration
             remove_heart_id = None
             for heart_id, ec in self.incoming_registrations.items():
-                if ec.id == eid:
+                if ec.uuid == uuid if uuid else ec.id == eid:
                     remove_heart_id = heart_id
                     break
             if remove_heart_id is not None:
diff --git a/ipyparallel/engine/app.py b/ipyparallel/engine/app.py
index 64d100d..3636fc5 100755
--- a/ipyparallel/engine/app.py
+++ b/ipyparallel/engine/app.py
@@ -855,7 +855,9 @@ class IPEngine(BaseParallelApplication):
             """
             )
         self.session.send(
-            self.registrar, "unregistration_request", content=dict(id=self.id)
+            self.registrar,
+            "unregistration_request",
+            content=dict(id=self.id, uuid=self.ident),
         )
         time.sleep(1)
         sys.exit(255)
@@ -881,7 +883,9 @@ class IPEngine(BaseParallelApplication):
                 self.hb_check_period,
             )
             self.session.send(
-                self.registrar, "unregistration_request", content=dict(id=self.id)
+                self.registrar,
+                "unregistration_request",
+                content=dict(id=self.id, uuid=self.ident),
             )
             self.loop.stop()
 
diff --git a/ipyparallel/engine/nanny.py b/ipyparallel/engine/nanny.py
index deb8a24..e880374 100644
--- a/ipyparallel/engine/nanny.py
+++ b/ipyparallel/engine/nanny.py
@@ -123,7 +123,11 @@ class KernelNanny:
             curve_secretkey=self.curve_secretkey,
             curve_publickey=self.curve_publickey,
         )
-        self.session.send(s, "unregistration_request", content={"id": self.engine_id})
+        self.session.send(
+            s,
+            "unregistration_request",
+            content={"id": self.engine_id, "uuid": self.identity.decode("utf8")},
+        )
         s.close()
 
     def finish(self):
-- 
2.43.0


From 0608dbf3073a73650fc5e3622a8548f09f6b2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 12/70] fix: broadcast scheduler's coalescing state was shared
 between schedulers

accumulated_replies and accumulated_targets were class-level dicts. Schedulers
of one broadcast tree that run in one process (use_threads, the default) shared them,
so a coalescing broadcast through a tree of depth >= 1 raised KeyError in the
parent scheduler, or forwarded a mixture of levels, and never resolved.
---
 ipyparallel/controller/broadcast_scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 667b9b1..4b93212 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -1,7 +1,7 @@
 import logging
 
 import zmq
-from traitlets import Bool, Bytes, Integer, List, Unicode
+from traitlets import Bool, Bytes, Dict, Integer, List, Unicode
 
 from ipyparallel import util
 from ipyparallel.controller.scheduler import (
@@ -13,8 +13,8 @@ from ipyparallel.controller.scheduler import (
 
 class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
-    accumulated_replies = {}
-    accumulated_targets = {}
+    accumulated_replies = Dict()
+    accumulated_targets = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
-- 
2.43.0


From 759c4e90626702baac52fd404b3bf7877214433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 13/70] fix: a broadcast message stayed outstanding forever

Replies to a non-coalescing broadcast refer to the per-target messages only,
so the broadcast's own message id was never removed from client.outstanding,
and client.wait() after a broadcast never returned.
---
 ipyparallel/client/view.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f5ca23b..a6f7659 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -24,6 +24,7 @@ from .. import serialize
 from ..serialize import PrePickled
 from . import map as Map
 from .asyncresult import AsyncMapResult, AsyncResult
+from .futures import multi_future
 from .remotefunction import ParallelFunction, getname, parallel, remote
 
 # -----------------------------------------------------------------------------
@@ -948,6 +949,17 @@ class BroadcastView(DirectView):
                 futures.append(future[0])
             if original_msg_id in self.outstanding:
                 self.outstanding.remove(original_msg_id)
+
+            # replies only refer to the per-target messages:
+            # the broadcast message itself is done when they all are
+            def _broadcast_done(_):
+                self.client.outstanding.discard(original_msg_id)
+                if not message_future.done():
+                    message_future.set_result(None)
+                if not message_future.output.done():
+                    message_future.output.set_result(None)
+
+            multi_future(futures).add_done_callback(_broadcast_done)
         else:
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
-- 
2.43.0


From a9151f26e6aaaac525d4b577c92848d4c0a602a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 14/70] fix: resolve an AsyncResult whose results can't be
 assembled

When _reconstruct_result raised (e.g. gathering partitions of mixed types),
the exception was lost in the future's callback and the AsyncResult never resolved.
---
 ipyparallel/client/asyncresult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3478d34..d9d4c11 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -528,12 +528,13 @@ class AsyncResult(Future):
                     raise r
             else:
                 results = self._collect_exceptions(results)
+            result = self._reconstruct_result(results)
         except Exception as e:
             self._success = False
             self.set_exception(e)
         else:
             self._success = True
-            self.set_result(self._reconstruct_result(results))
+            self.set_result(result)
 
     def _collect_exceptions(self, results):
         """Wrap Exceptions in a CompositeError
-- 
2.43.0


From 3160322a3831b48c06be46814e0b41d51e44cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 15/70] fix: a late reply must not break the handling of others

A result that arrives after its engine was reported dead (or a second report of
the death) raised InvalidStateError in the client's IO thread,
abandoning the rest of the handler: when handling an unregistration, every
other message on that engine stayed unresolved.
---
 ipyparallel/client/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0e7fd64..cb1bb66 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -955,7 +955,7 @@ class Client(HasTraits):
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
-        if future:
+        if future and not future.done():
             future.set_result(self.results[msg_id])
 
     def _should_use_metadata_msg_id(self, msg):
@@ -974,7 +974,7 @@ class Client(HasTraits):
         if msg_id not in self.outstanding:
             if msg_id in self.history:
                 print(f"got stale result: {msg_id}")
-                print(self.results[msg_id])
+                print(self.results.get(msg_id))
                 print(msg)
             else:
                 print(f"got unknown result: {msg_id}")
@@ -1024,7 +1024,7 @@ class Client(HasTraits):
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
-        if future:
+        if future and not future.done():
             future.set_result(self.results[msg_id])
 
     def _make_io_loop(self):
-- 
2.43.0


From aacc41bae002a77700a7ff5aeae52941373d7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 16/70] fix: messages sent to an engine that has just
 unregistered never resolved

If the unregistration was handled in the IO thread between building a message's
targets and sending it, the message was not tracked (or tracked too late) and
its AsyncResult never resolved. Check again in the IO thread once it is sent.
---
 ipyparallel/client/client.py | 23 +++++++++++++++++++----
 ipyparallel/client/view.py   |  3 +++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index cb1bb66..47d4153 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -897,6 +897,18 @@ class Client(HasTraits):
             msg['metadata']['engine'] = uuid
             self._handle_apply_reply(msg)
 
+    def _check_stranded(self, engine_uuids):
+        """Handle messages sent to engines that have already unregistered
+
+        Must run in the IO thread, after the messages are marked as outstanding
+        and their futures exist: unregistration is handled in the same thread,
+        so one of us will see them.
+        """
+        registered = set(self._engines.values())
+        for engine_uuid in engine_uuids:
+            if engine_uuid not in registered:
+                self._handle_stranded_msgs(engine_uuid, engine_uuid)
+
     def _handle_execute_reply(self, msg):
         """Save the reply to an execute_request into our results.
 
@@ -1268,6 +1280,8 @@ class Client(HasTraits):
         )
         msg_id = msg['header']['msg_id']
 
+        # the engine this message is sent to, if we must track it
+        engine_uuid = None
         expect_reply = msg_type not in {"comm_msg", "comm_close", "comm_open"}
         label = metadata["label"] if metadata and "label" in metadata else None
 
@@ -1281,10 +1295,9 @@ class Client(HasTraits):
                 ident_str = ident
                 if isinstance(ident_str, list):
                     ident_str = ident_str[-1]
-                ident_str = ident_str.decode("utf-8")
-                if ident_str in self._engines.values():
-                    # save for later, in case of engine death
-                    self._outstanding_dict[ident_str].add(msg_id)
+                engine_uuid = ident_str.decode("utf-8")
+                # save for later, in case of engine death
+                self._outstanding_dict[engine_uuid].add(msg_id)
             self.metadata['submitted'] = util.utcnow()
 
         if expect_reply:
@@ -1313,6 +1326,8 @@ class Client(HasTraits):
             )
             if track:
                 futures[0].tracker.set_result(sent['tracker'])
+            if engine_uuid is not None:
+                self._check_stranded([engine_uuid])
 
         # hand off actual send to IO thread
         self._io_loop.add_callback(_really_send)
diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index a6f7659..9bf1e48 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -966,6 +966,9 @@ class BroadcastView(DirectView):
                 self.client._outstanding_dict[ident].add(original_msg_id)
             futures = message_future
 
+        # the engines may be gone by now
+        self.client._io_loop.add_callback(self.client._check_stranded, s_idents)
+
         ar = AsyncResult(self.client, futures, owner=True, **kwargs)
 
         if self.is_coalescing:
-- 
2.43.0


From e4b27eeba6ecfa3881f17edb0724239bbc8fd44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 17/70] fix: propagate an exception of imap's input iterator

The mocked get() did not accept return_exceptions, so the consumer
of the imap got a TypeError in place of the input's own exception.
---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 9bf1e48..9552acf 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1672,7 +1672,7 @@ class LoadBalancedView(View):
                 # exception consuming iterator, propagate
                 ar = concurrent.futures.Future()
                 # mock get so it gets re-raised when awaited
-                ar.get = lambda *args: ar.result()
+                ar.get = lambda *args, **kwargs: ar.result()
                 ar.set_exception(e)
                 with outstanding_lock:
                     add_outstanding(ar)
-- 
2.43.0


From 1210e70848847413c6c8976a9dc3f06e7d591513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 18/70] fix: coalesced broadcast results were attributed to the
 wrong engines

---
 ipyparallel/controller/broadcast_scheduler.py | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 4b93212..2afef93 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -34,11 +34,11 @@ class BroadcastScheduler(Scheduler):
     def send_to_targets(self, msg, original_msg_id, targets, idents, is_coalescing):
         if is_coalescing:
             self.accumulated_replies[original_msg_id] = {
-                target.encode('utf8'): None for target in targets
+                target.encode('utf8'): None for target, _ in targets
             }
             self.accumulated_targets[original_msg_id] = targets
 
-        for target in targets:
+        for target, _ in targets:
             new_msg = self.append_new_msg_id_to_msg(
                 self.get_new_msg_id(original_msg_id, target), target, idents, msg
             )
@@ -68,13 +68,8 @@ class BroadcastScheduler(Scheduler):
 
         for i, scheduler_id in enumerate(self.connected_sub_scheduler_ids):
             targets_for_scheduler = targets_by_scheduler[i]
-            if is_coalescing:
-                if targets_for_scheduler:
-                    self.accumulated_targets[original_msg_id][scheduler_id] = (
-                        targets_for_scheduler
-                    )
-                else:
-                    del self.accumulated_replies[original_msg_id][scheduler_id]
+            if is_coalescing and not targets_for_scheduler:
+                del self.accumulated_replies[original_msg_id][scheduler_id]
             msg['metadata']['targets'] = targets_for_scheduler
 
             new_msg = self.append_new_msg_id_to_msg(
@@ -88,6 +83,9 @@ class BroadcastScheduler(Scheduler):
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
         # accumulate buffers
         self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        if not self.is_leaf:
+            targets = self.accumulated_targets[original_msg_id]
+            targets[outgoing_id] = msg['metadata']['broadcast_targets']
         if all(
             msg_buffers is not None
             for msg_buffers in self.accumulated_replies[original_msg_id].values()
@@ -95,21 +93,21 @@ class BroadcastScheduler(Scheduler):
             replies = self.accumulated_replies.pop(original_msg_id)
             self.log.debug(f"Coalescing {len(replies)} reply to {original_msg_id}")
             targets = self.accumulated_targets.pop(original_msg_id)
+            if not self.is_leaf:
+                # sub-schedulers report targets in the order of their buffers
+                targets = [
+                    target for sub_target in replies for target in targets[sub_target]
+                ]
 
             new_msg = msg.copy()
             # begin rebuilding message
             # metadata['targets']
-            if self.is_leaf:
-                new_msg['metadata']['broadcast_targets'] = targets
-            else:
-                new_msg['metadata']['broadcast_targets'] = []
+            new_msg['metadata']['broadcast_targets'] = targets
 
             # avoid duplicated msg buffers
             buffers = []
-            for sub_target, msg_buffers in replies.items():
+            for msg_buffers in replies.values():
                 buffers.extend(msg_buffers)
-                if not self.is_leaf:
-                    new_msg['metadata']['broadcast_targets'].extend(targets[sub_target])
 
             new_raw_msg = self.session.serialize(new_msg)
             self.client_stream.send_multipart(
@@ -137,10 +135,7 @@ class BroadcastScheduler(Scheduler):
 
         original_msg_id = metadata['original_msg_id']
         if self.is_leaf:
-            target_idents = [t[0] for t in targets]
-            self.send_to_targets(
-                msg, original_msg_id, target_idents, idents, is_coalescing
-            )
+            self.send_to_targets(msg, original_msg_id, targets, idents, is_coalescing)
         else:
             self.send_to_sub_schedulers(
                 msg, original_msg_id, targets, idents, is_coalescing
-- 
2.43.0


From 458a81f4cb2a0544a4da0d2905308dfffda8a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 19/70] fix: errors were dropped from coalesced broadcast
 results

---
 ipyparallel/controller/broadcast_scheduler.py | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 2afef93..b430cf9 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -81,15 +81,13 @@ class BroadcastScheduler(Scheduler):
             self.outgoing_streams[i].send_multipart(new_msg, copy=False)
 
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
-        # accumulate buffers
-        self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        # accumulate replies
+        accumulated_replies = self.accumulated_replies[original_msg_id]
+        accumulated_replies[outgoing_id] = msg
         if not self.is_leaf:
             targets = self.accumulated_targets[original_msg_id]
             targets[outgoing_id] = msg['metadata']['broadcast_targets']
-        if all(
-            msg_buffers is not None
-            for msg_buffers in self.accumulated_replies[original_msg_id].values()
-        ):
+        if all(reply is not None for reply in accumulated_replies.values()):
             replies = self.accumulated_replies.pop(original_msg_id)
             self.log.debug(f"Coalescing {len(replies)} reply to {original_msg_id}")
             targets = self.accumulated_targets.pop(original_msg_id)
@@ -99,6 +97,12 @@ class BroadcastScheduler(Scheduler):
                     target for sub_target in replies for target in targets[sub_target]
                 ]
 
+            # if any engine failed, so does the whole request
+            for reply in replies.values():
+                if reply['metadata'].get('status', 'ok') != 'ok':
+                    msg = reply
+                    break
+
             new_msg = msg.copy()
             # begin rebuilding message
             # metadata['targets']
@@ -106,8 +110,8 @@ class BroadcastScheduler(Scheduler):
 
             # avoid duplicated msg buffers
             buffers = []
-            for msg_buffers in replies.values():
-                buffers.extend(msg_buffers)
+            for reply in replies.values():
+                buffers.extend(reply['buffers'])
 
             new_raw_msg = self.session.serialize(new_msg)
             self.client_stream.send_multipart(
-- 
2.43.0


From 484bc42c3fce743c97d0ea0370a7356e2d321c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 20/70] fix: aborting an empty list of jobs aborted those of
 other clients

---
 ipyparallel/engine/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index f346371..4d8edb7 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -225,10 +225,11 @@ class IPythonParallelKernel(IPythonKernel):
         msg_ids = parent['content'].get('msg_ids', None)
         if isinstance(msg_ids, str):
             msg_ids = [msg_ids]
-        if not msg_ids:
+        if msg_ids is None:
             f = self._abort_queues()
             if inspect.isawaitable(f):
                 asyncio.ensure_future(f)
+            msg_ids = []
         for mid in msg_ids:
             self.aborted.add(str(mid))
 
-- 
2.43.0


From 10cb0e8c71a2865b2883681214c263f20680ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 21/70] fix: waiting for output of an engine that died never
 finished

---
 ipyparallel/client/client.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 47d4153..9696066 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -356,6 +356,7 @@ class Client(HasTraits):
             return 'default'
 
     _outstanding_dict = Instance('collections.defaultdict', (set,))
+    _unregistered_engines = Set()
     _ids = List()
     _connected = Bool(False)
     _ssh = Bool(False)
@@ -862,6 +863,7 @@ class Client(HasTraits):
             uuid = self._engines.pop(eid)
 
             self._handle_stranded_msgs(eid, uuid)
+            self._handle_stranded_output(uuid)
 
         if self._task_socket and self._task_scheme == 'pure':
             self._stop_scheduling_tasks()
@@ -897,6 +899,17 @@ class Client(HasTraits):
             msg['metadata']['engine'] = uuid
             self._handle_apply_reply(msg)
 
+    def _handle_stranded_output(self, uuid):
+        """Stop waiting for the output of an engine that has unregistered"""
+        self._unregistered_engines.add(uuid)
+        for msg_id, future in list(self._output_futures.items()):
+            if (
+                not future.done()
+                and msg_id not in self.outstanding
+                and self.metadata[msg_id]['engine_uuid'] == uuid
+            ):
+                future.set_result(None)
+
     def _check_stranded(self, engine_uuids):
         """Handle messages sent to engines that have already unregistered
 
@@ -962,8 +975,10 @@ class Client(HasTraits):
             pass
         else:
             self.results[msg_id] = self._unwrap_exception(content)
-        if content['status'] != 'ok' and not content.get('engine_info'):
-            # not an engine failure, don't expect output
+        if (
+            content['status'] != 'ok' and not content.get('engine_info')
+        ) or not self._unregistered_engines.isdisjoint(engine_uuids):
+            # not an engine failure or the engine is gone, don't expect output
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
@@ -1031,8 +1046,10 @@ class Client(HasTraits):
             pass
         else:
             self.results[msg_id] = self._unwrap_exception(content)
-        if content['status'] != 'ok' and not content.get('engine_info'):
-            # not an engine failure, don't expect output
+        if (
+            content['status'] != 'ok' and not content.get('engine_info')
+        ) or not self._unregistered_engines.isdisjoint(engine_uuids):
+            # not an engine failure or the engine is gone, don't expect output
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
-- 
2.43.0


From a7419606b478ff88200e97a6ade8b02b5fe73bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 22/70] fix: waiting for the output of a coalesced broadcast
 never finished

---
 ipyparallel/client/view.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 9552acf..0405fe0 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -966,6 +966,14 @@ class BroadcastView(DirectView):
                 self.client._outstanding_dict[ident].add(original_msg_id)
             futures = message_future
 
+            # output belongs to the per-target messages,
+            # there is none to wait for beyond the coalesced reply
+            def _output_done(_):
+                if not message_future.output.done():
+                    message_future.output.set_result(None)
+
+            message_future.add_done_callback(_output_done)
+
         # the engines may be gone by now
         self.client._io_loop.add_callback(self.client._check_stranded, s_idents)
 
-- 
2.43.0


From b0c7adda9e81e5fc1f3d59a4cd0b0b2272ed90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 23/70] fix: a result the client can't load never resolved

---
 ipyparallel/client/client.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 9696066..3f056ae 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1027,15 +1027,19 @@ class Client(HasTraits):
 
         # construct result:
         if content['status'] == 'ok':
-            if md.get('is_coalescing', False):
-                deserialized_bufs = []
-                bufs = msg['buffers']
-                while bufs:
-                    deserialized, bufs = serialize.deserialize_object(bufs)
-                    deserialized_bufs.append(deserialized)
-                self.results[msg_id] = deserialized_bufs
-            else:
-                self.results[msg_id] = serialize.deserialize_object(msg['buffers'])[0]
+            try:
+                if md.get('is_coalescing', False):
+                    result = []
+                    bufs = msg['buffers']
+                    while bufs:
+                        deserialized, bufs = serialize.deserialize_object(bufs)
+                        result.append(deserialized)
+                else:
+                    result = serialize.deserialize_object(msg['buffers'])[0]
+            except Exception:
+                # the result can't be loaded here: that's the result
+                result = self._unwrap_exception(error.wrap_exception())
+            self.results[msg_id] = result
         elif content['status'] == 'aborted':
             self.results[msg_id] = error.TaskAborted(msg_id)
             out_future = self._output_futures.get(msg_id)
-- 
2.43.0


From 1db06de77783f2360254585ce2740b7731741928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 24/70] fix: waiting could finish before the result was
 available

---
 ipyparallel/client/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 3f056ae..0837e7a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -940,8 +940,6 @@ class Client(HasTraits):
                 print(f"got stale result: {msg_id}")
             else:
                 print(f"got unknown result: {msg_id}")
-        else:
-            self.outstanding.remove(msg_id)
 
         content = msg['content']
         header = msg['header']
@@ -982,6 +980,8 @@ class Client(HasTraits):
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
+        # the result must be available when it's no longer outstanding
+        self.outstanding.discard(msg_id)
         if future and not future.done():
             future.set_result(self.results[msg_id])
 
@@ -1005,8 +1005,6 @@ class Client(HasTraits):
                 print(msg)
             else:
                 print(f"got unknown result: {msg_id}")
-        else:
-            self.outstanding.remove(msg_id)
         content = msg['content']
         header = msg['header']
 
@@ -1057,6 +1055,8 @@ class Client(HasTraits):
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
+        # the result must be available when it's no longer outstanding
+        self.outstanding.discard(msg_id)
         if future and not future.done():
             future.set_result(self.results[msg_id])
 
-- 
2.43.0


From 180071f169be9c6f5e12f422ffb7e0b30064192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 25/70] fix: AsyncMapResult.get(return_exceptions=True) raised
 TypeError

---
 ipyparallel/client/asyncresult.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index d9d4c11..c2b85f8 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1088,18 +1088,17 @@ class AsyncMapResult(AsyncResult):
 
     def _reconstruct_result(self, res):
         """Perform the gather on the actual results."""
-        if self._return_exceptions:
-            if any(isinstance(r, Exception) for r in res):
-                # running with _return_exceptions,
-                # cannot reconstruct original
-                # use simple chain iterable
-                flattened = []
-                for r in res:
-                    if isinstance(r, Exception):
-                        flattened.append(r)
-                    else:
-                        flattened.extend(r)
-                return flattened
+        if any(isinstance(r, Exception) for r in res):
+            # returning exceptions,
+            # cannot reconstruct original
+            # use simple chain iterable
+            flattened = []
+            for r in res:
+                if isinstance(r, Exception):
+                    flattened.append(r)
+                else:
+                    flattened.extend(r)
+            return flattened
         return self._mapObject.joinPartitions(res)
 
     # asynchronous iterator:
-- 
2.43.0


From 8ba3c7012691a1b4467570342479feb29bd723a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 26/70] fix: a failed or abandoned imap blocked
 Executor.shutdown forever

---
 ipyparallel/client/view.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 0405fe0..05eddc1 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1718,10 +1718,14 @@ class LoadBalancedView(View):
         def iter_results():
             nonlocal outstanding
             with consumer_pool:
-                while not iterator_done:
-                    # yield results as they become ready
-                    for ready_ar in wait_for_ready():
-                        yield ready_ar.get(return_exceptions=return_exceptions)
+                try:
+                    while not iterator_done:
+                        # yield results as they become ready
+                        for ready_ar in wait_for_ready():
+                            yield ready_ar.get(return_exceptions=return_exceptions)
+                finally:
+                    # finished, failed, or abandoned: no more submissions
+                    signal_done()
 
             # yield any remaining results
             if ordered:
-- 
2.43.0


From e25ef810f9484b344fd6c4836b59320cb96b3ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 27/70] fix: a result made of futures finishing in several
 threads was set twice

---
 ipyparallel/client/futures.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/futures.py b/ipyparallel/client/futures.py
index 1b76bf1..37d06da 100644
--- a/ipyparallel/client/futures.py
+++ b/ipyparallel/client/futures.py
@@ -4,7 +4,7 @@
 # Distributed under the terms of the Modified BSD License.
 import sys
 from concurrent.futures import Future
-from threading import Event
+from threading import Event, Lock
 
 from tornado.log import app_log
 
@@ -95,9 +95,14 @@ def multi_future(children):
     if not children:
         future_set_result_unless_cancelled(future, [])
 
+    # children may finish in different threads
+    lock = Lock()
+
     def callback(f):
-        unfinished_children.remove(f)
-        if not unfinished_children:
+        with lock:
+            unfinished_children.remove(f)
+            all_finished = not unfinished_children
+        if all_finished:
             result_list = []
             for f in children:
                 try:
-- 
2.43.0


From bc578af852839be3340a834926dfa0a07792949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 28/70] fix: an engine unregistering while a message to it is
 submitted left it unresolved

---
 ipyparallel/client/client.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0837e7a..1fe35b8 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1306,21 +1306,6 @@ class Client(HasTraits):
         expect_reply = msg_type not in {"comm_msg", "comm_close", "comm_open"}
         label = metadata["label"] if metadata and "label" in metadata else None
 
-        if expect_reply and track_outstanding:
-            # add to outstanding, history
-            self.outstanding.add(msg_id)
-            self.history.append(msg_id)
-
-            if ident:
-                # possibly routed to a specific engine
-                ident_str = ident
-                if isinstance(ident_str, list):
-                    ident_str = ident_str[-1]
-                engine_uuid = ident_str.decode("utf-8")
-                # save for later, in case of engine death
-                self._outstanding_dict[engine_uuid].add(msg_id)
-            self.metadata['submitted'] = util.utcnow()
-
         if expect_reply:
             futures = self.create_message_futures(
                 msg_id,
@@ -1341,6 +1326,23 @@ class Client(HasTraits):
 
             multi_future(futures).add_done_callback(cleanup)
 
+        # the futures must exist before the message is outstanding:
+        # the engine may be unregistered in the IO thread at any time
+        if expect_reply and track_outstanding:
+            # add to outstanding, history
+            self.outstanding.add(msg_id)
+            self.history.append(msg_id)
+
+            if ident:
+                # possibly routed to a specific engine
+                ident_str = ident
+                if isinstance(ident_str, list):
+                    ident_str = ident_str[-1]
+                engine_uuid = ident_str.decode("utf-8")
+                # save for later, in case of engine death
+                self._outstanding_dict[engine_uuid].add(msg_id)
+            self.metadata['submitted'] = util.utcnow()
+
         def _really_send():
             sent = self.session.send(
                 socket, msg, track=track, buffers=buffers, ident=ident
-- 
2.43.0


From 92811d08a39418de08472848e61cec95fd68f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 29/70] fix: a done AsyncResult could briefly claim not to be
 ready

---
 ipyparallel/client/asyncresult.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index c2b85f8..1e6d20b 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -487,6 +487,9 @@ class AsyncResult(Future):
         if return_when is None:
             if self._ready:
                 return True
+            if self.done():
+                # resolved in another thread, which is about to make us ready
+                timeout = None
             self._ready_event.wait(timeout)
             self.wait_for_output(0)
             return self._ready
-- 
2.43.0


From c0c3d3baf1a166dcaa756076ac6b0f6fb5c94049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 30/70] fix: get_result for several results dropped some of
 them

Asking for results some of which are only known to the Hub gave only those,
and get_result(AsyncResult of several messages) gave only the first.
---
 ipyparallel/client/client.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 1fe35b8..53d2c34 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2409,38 +2409,37 @@ class Client(HasTraits):
             jobs = [jobs]
         else:
             single = False
-        futures = []
-        msg_ids = []
+        # futures, or msg_ids if only the Hub knows about them
+        children = []
         for job in jobs:
             if isinstance(job, int):
                 job = self.history[job]
             if isinstance(job, str):
                 if job in self._futures:
-                    futures.append(job)
+                    children.append(self._futures[job])
                 elif job in self.results:
                     f = MessageFuture(job)
                     f.set_result(self.results[job])
                     f.output = Future()
                     f.output.metadata = self.metadata[job]
                     f.output.set_result(None)
-                    futures.append(f)
+                    children.append(f)
                 else:
-                    msg_ids.append(job)
+                    children.append(job)
             elif isinstance(job, AsyncResult):
-                if job._children:
-                    futures.extend(job._children)
-                else:
-                    msg_ids.extend(job.msg_ids)
+                children.extend(job._children or job.msg_ids)
             else:
                 raise TypeError(f"Expected msg_id, int, or AsyncResult, got {job!r}")
-        if msg_ids:
-            if single:
-                msg_ids = msg_ids[0]
-            return AsyncHubResult(self, msg_ids, owner=owner)
-        else:
-            if single and futures:
-                futures = futures[0]
-            return AsyncResult(self, futures, owner=owner)
+        cls = AsyncResult
+        if any(isinstance(child, str) for child in children):
+            # at least one result has to be requested from the Hub
+            cls = AsyncHubResult
+            children = [
+                child if isinstance(child, str) else child.msg_id for child in children
+            ]
+        if single and len(children) == 1:
+            children = children[0]
+        return cls(self, children, owner=owner)
 
     def purge_local_results(self, jobs=[], targets=[]):
         """Clears the client caches of results and their metadata.
-- 
2.43.0


From 0fcbd8a0379f960107398c9d9723ca78622dc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 31/70] fix: waiting for hub results raised the results' own
 errors

AsyncHubResult.wait() raised instead of telling that the failed results are
ready, ignoring return_exceptions, and result_status, when given several ids,
requested results it already had and listed them twice.
---
 ipyparallel/client/asyncresult.py |  5 ++--
 ipyparallel/client/client.py      | 48 +++++++++++++++++++------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 1e6d20b..a64ff15 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1178,12 +1178,13 @@ class AsyncHubResult(AsyncResult):
             if not remote_ids:
                 self._ready = True
             else:
-                rdict = self._client.result_status(remote_ids, status_only=False)
+                # a failure is a result, don't raise it while waiting
+                rdict, _ = self._client._request_results(remote_ids)
                 pending = rdict['pending']
                 while pending and (
                     timeout is None or time.perf_counter() < start + timeout
                 ):
-                    rdict = self._client.result_status(remote_ids, status_only=False)
+                    rdict, _ = self._client._request_results(pending)
                     pending = rdict['pending']
                     if pending:
                         time.sleep(0.1)
diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 53d2c34..96eb6f7 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2262,18 +2262,39 @@ class Client(HasTraits):
             be lists of msg_ids that are incomplete or complete. If `status_only`
             is False, then completed results will be keyed by their `msg_id`.
         """
-        theids = self._msg_ids_from_jobs(msg_ids)
-
-        completed = []
+        theids = []
         local_results = {}
 
         # comment this block out to temporarily disable local shortcut:
-        for msg_id in theids:
+        for msg_id in self._msg_ids_from_jobs(msg_ids):
             if msg_id in self.results:
-                completed.append(msg_id)
                 local_results[msg_id] = self.results[msg_id]
-                theids.remove(msg_id)
+            elif msg_id not in theids:
+                theids.append(msg_id)
+
+        content, failures = self._request_results(theids, status_only)
+
+        content['completed'].extend(local_results)
+
+        if status_only:
+            return content
+
+        # load cached results into result:
+        content.update(local_results)
+
+        if len(theids) == 1 and failures:
+            raise failures[0]
+
+        error.collect_exceptions(failures, "result_status")
+        return content
 
+    def _request_results(self, theids, status_only=False):
+        """Request status and results for msg_ids from the Hub
+
+        Unless status_only, the results are stored in our cache.
+
+        Returns the content of the reply and the list of results which are errors.
+        """
         if theids:  # some not locally cached
             content = dict(msg_ids=theids, status_only=status_only)
             reply = self._send_recv(
@@ -2286,14 +2307,9 @@ class Client(HasTraits):
         else:
             content = dict(completed=[], pending=[])
 
-        content['completed'].extend(completed)
-
-        if status_only:
-            return content
-
         failures = []
-        # load cached results into result:
-        content.update(local_results)
+        if status_only:
+            return content, failures
 
         # update cache with results:
         for msg_id in sorted(theids):
@@ -2334,11 +2350,7 @@ class Client(HasTraits):
                 self.results[msg_id] = res
                 content[msg_id] = res
 
-        if len(theids) == 1 and failures:
-            raise failures[0]
-
-        error.collect_exceptions(failures, "result_status")
-        return content
+        return content, failures
 
     def queue_status(self, targets='all', verbose=False):
         """Fetch the status of engine queues.
-- 
2.43.0


From 52351ef7a326590e4e9271503c7ca74dc609fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 32/70] fix: the Hub's result of an aborted task could not be
 retrieved

---
 ipyparallel/client/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 96eb6f7..4f20504 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2344,7 +2344,10 @@ class Client(HasTraits):
                             "unhandled msg type: {!r}".format(header['msg_type'])
                         )
                 else:
-                    res = self._unwrap_exception(rcontent)
+                    if rcontent['status'] == 'aborted':
+                        res = error.TaskAborted(msg_id)
+                    else:
+                        res = self._unwrap_exception(rcontent)
                     failures.append(res)
 
                 self.results[msg_id] = res
-- 
2.43.0


From 021fb2596b6575c8dfc894fcb21809c9e25a6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 33/70] fix: messages of an engine that left could not be
 retrieved from the Hub

The record of a message stranded on a dead engine lacked metadata, without
which clients can't load it. A result relayed after its engine unregistered
was discarded, and if the engine's id was in use again by then, stranded
messages stayed pending and those of the new engine were failed instead.
---
 ipyparallel/controller/hub.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 28ed0ff..9b3b095 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -522,10 +522,8 @@ class Hub(LoggingConfigurable):
             )
             return
 
+        # None if the engine unregistered before its reply arrived
         eid = self.by_ident.get(queue_id, None)
-        if eid is None:
-            self.log.error("queue::unknown engine %r is sending a reply: ", queue_id)
-            return
 
         parent = msg['parent_header']
         if not parent:
@@ -534,8 +532,10 @@ class Hub(LoggingConfigurable):
         if msg_id in self.pending:
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            self.queues[eid].remove(msg_id)
-            self.completed[eid].append(msg_id)
+            if eid is not None:
+                if msg_id in self.queues[eid]:
+                    self.queues[eid].remove(msg_id)
+                self.completed[eid].append(msg_id)
             self.log.info("queue::request %r completed on %s", msg_id, eid)
         elif msg_id not in self.all_completed:
             # it could be a result from a dead engine that died before delivering the
@@ -987,9 +987,11 @@ class Hub(LoggingConfigurable):
         self.hearts.pop(ec.ident, None)
         self.expect_stopped_hearts.append(ec.ident)
 
+        # the id may be in use by another engine by then
+        queue = self.queues[eid]
         self.loop.add_timeout(
             self.loop.time() + self.registration_timeout,
-            lambda: self._handle_stranded_msgs(eid, ec.uuid),
+            lambda: self._handle_stranded_msgs(eid, ec.uuid, queue),
         )
 
         # cleanup mappings
@@ -1003,7 +1005,7 @@ class Hub(LoggingConfigurable):
                 self.notifier, "unregistration_notification", content=content
             )
 
-    def _handle_stranded_msgs(self, eid, uuid):
+    def _handle_stranded_msgs(self, eid, uuid, outstanding):
         """Handle messages known to be on an engine when the engine unregisters.
 
         It is possible that this will fire prematurely - that is, an engine will
@@ -1011,9 +1013,10 @@ class Hub(LoggingConfigurable):
         that the result failed and later receive the actual result.
         """
 
-        outstanding = self.queues[eid]
-
         for msg_id in outstanding:
+            if msg_id not in self.pending:
+                # the result did arrive
+                continue
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
             try:
@@ -1026,7 +1029,12 @@ class Hub(LoggingConfigurable):
             header = {}
             header['engine'] = uuid
             header['date'] = util.utcnow()
-            rec = dict(result_content=content, result_header=header, result_buffers=[])
+            rec = dict(
+                result_content=content,
+                result_header=header,
+                result_metadata={'engine': uuid, 'status': 'error'},
+                result_buffers=[],
+            )
             rec['completed'] = util.ensure_timezone(header['date'])
             rec['engine_uuid'] = uuid
             try:
-- 
2.43.0


From da0dc15a3716508ac11224c826659940bbd93e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 34/70] fix: the Hub listed retried and rescheduled tasks on
 every engine they visited

queue_status showed tasks as pending on engines they had left long ago.
The destination of a task on an engine that just unregistered was not recorded.
---
 ipyparallel/controller/hub.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 9b3b095..4539b12 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -170,6 +170,7 @@ class Hub(LoggingConfigurable):
     pending = Set()
     queues = Dict()  # pending msg_ids keyed by engine_id
     tasks = Dict()  # pending msg_ids submitted as tasks, keyed by client_id
+    task_destinations = Dict()  # engine_id of each of these tasks
     completed = Dict()  # completed msg_ids keyed by engine_id
     all_completed = Set()  # completed msg_ids keyed by engine_id
     unassigned = Set()  # set of task msg_ids not yet assigned a destination
@@ -734,11 +735,9 @@ class Hub(LoggingConfigurable):
             self.log.info("task::task %r finished on %s", msg_id, eid)
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            if eid is not None:
-                if status != 'aborted':
-                    self.completed[eid].append(msg_id)
-                if msg_id in self.tasks[eid]:
-                    self.tasks[eid].remove(msg_id)
+            self._remove_task_destination(msg_id)
+            if eid is not None and status != 'aborted':
+                self.completed[eid].append(msg_id)
             ensure_date_is_parsed(header)
             completed = util.ensure_timezone(header['date'])
             started = extract_dates(md.get('started', None))
@@ -771,7 +770,8 @@ class Hub(LoggingConfigurable):
         # print (content)
         msg_id = content['msg_id']
         engine_uuid = content['engine_id']
-        eid = self.by_ident[engine_uuid.encode("utf8")]
+        # None if the engine unregistered meanwhile
+        eid = self.by_ident.get(engine_uuid.encode("utf8"), None)
 
         self.log.info("task::task %r arrived on %r", msg_id, eid)
         if msg_id in self.unassigned:
@@ -779,12 +779,22 @@ class Hub(LoggingConfigurable):
         # else:
         #     self.log.debug("task::task %r not listed as MIA?!"%(msg_id))
 
-        self.tasks[eid].append(msg_id)
+        # the task may have been on another engine before
+        self._remove_task_destination(msg_id)
+        if eid is not None:
+            self.tasks[eid].append(msg_id)
+            self.task_destinations[msg_id] = eid
         try:
             self.db.update_record(msg_id, dict(engine_uuid=engine_uuid))
         except Exception:
             self.log.error("DB Error saving task destination %r", msg_id, exc_info=True)
 
+    def _remove_task_destination(self, msg_id):
+        """The task is no longer on the engine it was assigned to, if any"""
+        eid = self.task_destinations.pop(msg_id, None)
+        if eid is not None and msg_id in self.tasks[eid]:
+            self.tasks[eid].remove(msg_id)
+
     # --------------------- IOPub Traffic ------------------------------
 
     def monitor_iopub_message(self, topics, msg):
-- 
2.43.0


From 9412cf4007860976dc66b75d10382a5f4a2ef19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 35/70] fix: purged and earlier results confused the Hub's
 replies about results

Requesting a purged result failed inside the Hub, so that no reply was sent
and the client waited forever; late output of a purged task created a new
record which is pending forever; results of a previous session in the
database were judged by an unrelated record, and unknown to status_only.
---
 ipyparallel/controller/hub.py | 37 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 4539b12..940158e 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -861,6 +861,9 @@ class Hub(LoggingConfigurable):
             return
 
         if rec is None:
+            if msg_id in self.all_completed:
+                # late output of a task whose record has been purged
+                return
             # new record
             rec = empty_record()
             rec['msg_id'] = msg_id
@@ -1453,11 +1456,22 @@ class Hub(LoggingConfigurable):
         content['pending'] = pending
         content['completed'] = completed
         buffers = []
-        if not statusonly:
+        records = {}
+        if statusonly:
+            # only look up messages of previous sessions
+            keys = ['msg_id', 'completed']
+            lookup = [
+                msg_id
+                for msg_id in msg_ids
+                if msg_id not in self.pending and msg_id not in self.all_completed
+            ]
+        else:
+            keys = None
+            lookup = msg_ids
+        if lookup:
             try:
-                matches = self.db.find_records(dict(msg_id={'$in': msg_ids}))
+                matches = self.db.find_records(dict(msg_id={'$in': lookup}), keys)
                 # turn match list into dict, for faster lookup
-                records = {}
                 for rec in matches:
                     records[rec['msg_id']] = rec
             except Exception:
@@ -1471,23 +1485,18 @@ class Hub(LoggingConfigurable):
                     ident=client_id,
                 )
                 return
-        else:
-            records = {}
         for msg_id in msg_ids:
             if msg_id in self.pending:
                 pending.append(msg_id)
-            elif msg_id in self.all_completed:
+            elif statusonly and msg_id in self.all_completed:
                 completed.append(msg_id)
-                if not statusonly:
-                    c, bufs = self._extract_record(records[msg_id])
-                    content[msg_id] = c
-                    buffers.extend(bufs)
             elif msg_id in records:
-                if rec['completed']:
+                if msg_id in self.all_completed or records[msg_id]['completed']:
                     completed.append(msg_id)
-                    c, bufs = self._extract_record(records[msg_id])
-                    content[msg_id] = c
-                    buffers.extend(bufs)
+                    if not statusonly:
+                        c, bufs = self._extract_record(records[msg_id])
+                        content[msg_id] = c
+                        buffers.extend(bufs)
                 else:
                     pending.append(msg_id)
             else:
-- 
2.43.0


From 4d01decdb8cab2d38c05ad051a9dc887c157913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 36/70] fix: AsyncHubResult.get(return_exceptions=True) failed
 if there are exceptions

It looked for results that were never stored. An owner also failed if the
results are not (or no longer) in the client's cache.
---
 ipyparallel/client/asyncresult.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index a64ff15..97e1e44 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1194,6 +1194,7 @@ class AsyncHubResult(AsyncResult):
             self._output_ready = True
             try:
                 results = list(map(self._client.results.get, self.msg_ids))
+                self._raw_results = results
                 if self._single_result:
                     r = results[0]
                     if isinstance(r, Exception) and not self._return_exceptions:
@@ -1207,8 +1208,8 @@ class AsyncHubResult(AsyncResult):
                 self.set_exception(e)
             finally:
                 if self.owner:
-                    [self._client.metadata.pop(mid) for mid in self.msg_ids]
-                    [self._client.results.pop(mid) for mid in self.msg_ids]
+                    [self._client.metadata.pop(mid, None) for mid in self.msg_ids]
+                    [self._client.results.pop(mid, None) for mid in self.msg_ids]
 
         return self._ready
 
-- 
2.43.0


From 6634f761fade9132cdb8c81b44aef1889c5c4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 37/70] fix: SQLite task queries with empty lists or no
 conditions failed

Conditions like {'$in': []}, as used to purge the results of engines, and the
query {} were rendered to invalid SQL. The caller's list of keys was modified.
---
 ipyparallel/controller/sqlitedb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8eb42ff..e7aec2b 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -352,6 +352,10 @@ class SQLiteDB(BaseDB):
                     else:
                         expr = f"{name} {op} ?"
                         if isinstance(value, (tuple, list)):
+                            if not value:
+                                # nothing is in an empty list
+                                expressions.append("0" if test == '$in' else "1")
+                                continue
                             if op in null_operators and any([v is None for v in value]):
                                 # equality tests don't work with NULL
                                 raise ValueError(
@@ -370,7 +374,8 @@ class SQLiteDB(BaseDB):
                     expressions.append(f"{name} = ?")
                     args.append(sub_check)
 
-        expr = " AND ".join(expressions)
+        # no condition matches everything
+        expr = " AND ".join(expressions) or "1"
         return expr, args
 
     def add_record(self, msg_id, rec):
@@ -440,9 +445,7 @@ class SQLiteDB(BaseDB):
 
         if keys:
             # ensure msg_id is present and first:
-            if 'msg_id' in keys:
-                keys.remove('msg_id')
-            keys.insert(0, 'msg_id')
+            keys = ['msg_id'] + [key for key in keys if key != 'msg_id']
             req = ', '.join(keys)
         else:
             req = '*'
-- 
2.43.0


From be9ad40ce63f7e14ec57552c8a11409ad152c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 38/70] fix: DictDB queries with several conditions only used
 the last value

All equality tests of a query compared with the value of its last condition,
e.g. purging the results of an engine never found any.
---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index e9e67e7..b5b2e29 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -158,7 +158,7 @@ class DictDB(BaseDB):
             if isinstance(v, dict):
                 tests[k] = CompositeFilter(v)
             else:
-                tests[k] = lambda o: _add_tz(o) == _add_tz(v)
+                tests[k] = lambda o, v=v: _add_tz(o) == _add_tz(v)
 
         for rec in self._records.values():
             if self._match_one(rec, tests):
-- 
2.43.0


From dad40a4845fb813be6025b55f79e009b1879d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 39/70] fix: DictDB's $gt queries selected smaller values

and comparing with a value that is not yet set, e.g. of records which aren't
completed, made the query fail instead of not matching.
---
 ipyparallel/controller/dictdb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index b5b2e29..7aa68fe 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -49,12 +49,13 @@ from ..util import ensure_timezone
 copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
 filters = {
-    '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: b > a,
+    # missing values have no order
+    '$lt': lambda a, b: a is not None and a < b,
+    '$gt': lambda a, b: a is not None and a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
-    '$lte': lambda a, b: a <= b,
-    '$gte': lambda a, b: a >= b,
+    '$lte': lambda a, b: a is not None and a <= b,
+    '$gte': lambda a, b: a is not None and a >= b,
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
     '$all': lambda a, b: all([a in bb for bb in b]),
-- 
2.43.0


From 02533b2e9d70b9cbff035aae418ece6f80e96b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 40/70] fix: DictDB never culled if record_limit *
 cull_fraction is less than 1

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 7aa68fe..c1c6aa5 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -198,7 +198,7 @@ class DictDB(BaseDB):
     def _maybe_cull(self):
         # cull by count:
         if len(self._records) > self.record_limit:
-            to_cull = int(self.cull_fraction * self.record_limit)
+            to_cull = max(1, int(self.cull_fraction * self.record_limit))
             self.log.info(
                 "%i records exceeds limit of %i, culling oldest %i",
                 len(self._records),
-- 
2.43.0


From 0a555ebf29cd938733640c9d7e14f960a5fe4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 41/70] fix: the Hub kept showing failed messages in the queue
 of a dead engine

---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 940158e..c020ba5 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1056,6 +1056,7 @@ class Hub(LoggingConfigurable):
                 self.log.error(
                     "DB Error handling stranded msg %r", msg_id, exc_info=True
                 )
+        outstanding.clear()
 
     def finish_registration(self, heart):
         """Second half of engine registration, called after our HeartMonitor
-- 
2.43.0


From 6492ecec2db20b8c820f961d8094d7d5be0a1df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 42/70] fix: errors among several results could be hidden or
 replaced

If some of the messages of an AsyncResult were aborted, get() returned the
TaskAborted exceptions as if they were results, and the result counted as
successful. A CompositeError raised by a task itself became an AttributeError.
---
 ipyparallel/error.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index d09144e..1d676ac 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -230,17 +230,16 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
     else:
         rlist = rdict_or_list
     for r in rlist:
-        if isinstance(r, RemoteError):
-            en, ev, etb, ei = r.ename, r.evalue, r.traceback, r.engine_info
+        if isinstance(r, CompositeError):
             # Sometimes we could have CompositeError in our list.  Just take
             # the errors out of them and put them in our new list.  This
             # has the effect of flattening lists of CompositeErrors into one
             # CompositeError
-            if en == 'CompositeError':
-                for e in ev.elist:
-                    elist.append(e)
-            else:
-                elist.append((en, ev, etb, ei))
+            elist.extend(r.elist)
+        elif isinstance(r, RemoteError):
+            elist.append((r.ename, r.evalue, r.traceback, r.engine_info))
+        elif isinstance(r, TaskAborted):
+            elist.append((type(r).__name__, str(r), None, None))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From 63dccf58265dcd7e5bbcb67ac017e9f3dbec7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 43/70] fix: SQLite task queries with $ne or $nin missed
 records without the value

e.g. {'engine_uuid': {'$ne': uuid}} did not match tasks not yet on any engine.
---
 ipyparallel/controller/sqlitedb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index e7aec2b..407ea90 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -39,11 +39,11 @@ operators = {
     '$gt': ">",
     # null is handled weird with ==,!=
     '$eq': "=",
-    '$ne': "!=",
+    '$ne': "IS NOT",
     '$lte': "<=",
     '$gte': ">=",
     '$in': ('=', ' OR '),
-    '$nin': ('!=', ' AND '),
+    '$nin': ('IS NOT', ' AND '),
     # '$all': None,
     # '$mod': None,
     # '$exists' : None
@@ -51,7 +51,6 @@ operators = {
 }
 null_operators = {
     '=': "IS NULL",
-    '!=': "IS NOT NULL",
 }
 
 
-- 
2.43.0


From 1e4dd2e3fddc301d92fd38be04d31bc8c8355078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 44/70] fix: SQLite task queries compared times of different
 timezones as text

---
 ipyparallel/controller/sqlitedb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 407ea90..3951716 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     import pickle
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 try:
     import sqlite3
@@ -89,8 +89,11 @@ def _convert_bufs(bs):
 
 
 def _adapt_timestamp(dt):
-    """Adapt datetime to text"""
-    return ensure_timezone(dt).isoformat()
+    """Adapt datetime to text
+
+    always UTC, so that comparing text compares times
+    """
+    return ensure_timezone(dt).astimezone(timezone.utc).isoformat()
 
 
 def _convert_timestamp(s):
-- 
2.43.0


From c90012c5660df5c7385ed09f6c8267347ff8b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 45/70] fix: SQLite returned errors and execute results of
 tasks as JSON text

---
 ipyparallel/controller/sqlitedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 3951716..ed0cdea 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -324,6 +324,9 @@ class SQLiteDB(BaseDB):
         keys = self._keys if keys is None else keys
         d = self._defaults(keys)
         for key, value in zip(keys, line):
+            if key in ('execute_result', 'error'):
+                # message content in text columns, see _adapt_dict
+                value = _convert_dict(value)
             d[key] = value
 
         return d
-- 
2.43.0


From b59837c36f17de35fe284fca654b68eef3e7acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 46/70] fix: late output of a task culled from DictDB brought a
 part of its record back

---
 ipyparallel/controller/dictdb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index c1c6aa5..83a81b6 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -241,6 +241,8 @@ class DictDB(BaseDB):
 
     def add_record(self, msg_id, rec):
         """Add a new Task Record, by msg_id."""
+        if msg_id in self._culled_ids:
+            raise KeyError(f"Record {msg_id!r} has been culled for size")
         if msg_id in self._records:
             raise KeyError(f"Already have msg_id {msg_id!r}")
         self._check_dates(rec)
-- 
2.43.0


From 4b632a9468575ae074955b94cc49c4445d358922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 47/70] fix: SQLite results of previous sessions were not found
 with recent SQLite

---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index ed0cdea..e160ee0 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -250,7 +250,8 @@ class SQLiteDB(BaseDB):
             self.log.warning('keys mismatch')
             return False
         for key in self._keys:
-            if types[key] != self._types[key]:
+            # recent SQLite reports standard types in upper case
+            if types[key].lower() != self._types[key]:
                 self.log.warning(
                     f'type mismatch: {key}: {types[key]} != {self._types[key]}'
                 )
-- 
2.43.0


From 691797fc78b2841d8836702d9f5b44400e83aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 48/70] fix: stopping the controller lost results of the last
 seconds

---
 ipyparallel/controller/app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 8de42a0..82ff143 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -1251,6 +1251,8 @@ class IPController(BaseParallelApplication):
         finally:
             self.loop.close(all_fds=True)
             self.cleanup_connection_files()
+            # don't lose what has not been committed yet
+            self.db.close()
 
 
 def main(*args, **kwargs):
-- 
2.43.0


From b379746162eda6cf08383f81f8ea329dcd1a96b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 49/70] fix: control requests to an engine that dies never
 returned

---
 ipyparallel/client/client.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 4f20504..79bf8d7 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -356,6 +356,8 @@ class Client(HasTraits):
             return 'default'
 
     _outstanding_dict = Instance('collections.defaultdict', (set,))
+    # control requests without a reply: {engine uuid: {msg_id: Future}}
+    _control_requests = Instance('collections.defaultdict', (dict,))
     _unregistered_engines = Set()
     _ids = List()
     _connected = Bool(False)
@@ -899,6 +901,17 @@ class Client(HasTraits):
             msg['metadata']['engine'] = uuid
             self._handle_apply_reply(msg)
 
+        for future in list(self._control_requests[uuid].values()):
+            if future.done():
+                continue
+            try:
+                raise error.EngineError(
+                    f"Engine {eid!r} died before replying to {future.header['msg_type']}"
+                )
+            except Exception:
+                content = error.wrap_exception()
+            future.set_result(self.session.msg('control_reply', content=content))
+
     def _handle_stranded_output(self, uuid):
         """Stop waiting for the output of an engine that has unregistered"""
         self._unregistered_engines.add(uuid)
@@ -1128,7 +1141,7 @@ class Client(HasTraits):
         """Dispatch single (non-execution) replies"""
         msg_id = msg['parent_header'].get('msg_id', None)
         future = self._futures.get(msg_id)
-        if future is not None:
+        if future is not None and not future.done():
             future.set_result(msg)
 
     @unpack_message
@@ -1326,6 +1339,13 @@ class Client(HasTraits):
 
             multi_future(futures).add_done_callback(cleanup)
 
+            if ident and socket is self._control_stream:
+                # save for later, in case of engine death
+                engine_uuid = ident.decode("utf-8")
+                requests = self._control_requests[engine_uuid]
+                requests[msg_id] = futures[0]
+                futures[0].add_done_callback(lambda f: requests.pop(msg_id, None))
+
         # the futures must exist before the message is outstanding:
         # the engine may be unregistered in the IO thread at any time
         if expect_reply and track_outstanding:
@@ -1846,7 +1866,11 @@ class Client(HasTraits):
             for f in futures:
                 f.wait()
                 msg = f.result()
-                if msg['content']['status'] != 'ok':
+                if (
+                    msg['content']['status'] != 'ok'
+                    # an engine that is gone doesn't need to be shut down
+                    and msg['content'].get('ename') != 'EngineError'
+                ):
                     error = self._unwrap_exception(msg['content'])
 
         if hub:
-- 
2.43.0


From 9b9b35d464113c1be516f1f3e03b64c06aeea74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 50/70] fix: output of a task was lost if an engine
 unregistered during its submission

When an engine unregisters, the IO thread looks up the metadata of all
pending outputs. It could find the output of a task being submitted
before its metadata: both threads then created one,
and the output ended up in the one that was thrown away.
---
 ipyparallel/client/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 79bf8d7..1abeed9 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1280,13 +1280,14 @@ class Client(HasTraits):
         self._futures[msg_id] = msg_future
         if async_result:
             output = MessageFuture(msg_id, header=header)
-            # add future for output
-            self._output_futures[msg_id] = output
             # hook up metadata
             output.metadata = self.metadata[msg_id]
             output.metadata['submitted'] = util.utcnow()
             output.metadata['label'] = label
             msg_future.output = output
+            # add future for output,
+            # now that its metadata is there for the IO thread to find
+            self._output_futures[msg_id] = output
             futures.append(output)
         return futures
 
-- 
2.43.0


From 2916a0ddd25f5caa5dd8f89c7bca1a684f525b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 51/70] fix: get(return_when=FIRST_EXCEPTION) could raise
 TimeoutError for a complete result

All parts of the result may be done a little before the result is ready.
---
 ipyparallel/client/asyncresult.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 97e1e44..3cede11 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -358,12 +358,16 @@ class AsyncResult(Future):
         else:
             if return_when == FIRST_EXCEPTION:
                 # this should only occur if there was an exception
-                # any other situation should have triggered the ready branch above
+                # or if we are about to be ready
 
                 done, pending = wait_result
                 for ar in done:
                     if not ar._success:
                         return ar.get(return_exceptions=return_exceptions)
+                if not pending:
+                    # resolved in another thread, which is about to make us ready
+                    self.wait()
+                    return self.get(return_exceptions=return_exceptions)
             raise TimeoutError("Result not ready.")
 
     def _check_ready(self):
-- 
2.43.0


From 00f0a2f1ba708184502e497b4707ba25791eae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:33 +0000
Subject: [PATCH 52/70] fix: wait_for_engines missed engines when another
 waiter finished

A waiter that is satisfied removes its callback from the list while the
list is being iterated, so the next waiter was not told of the event.
---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 1abeed9..f636057 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -853,7 +853,8 @@ class Client(HasTraits):
         self._update_engines(d)
         event = {'event': 'register'}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # copy: callbacks may remove themselves when called
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _unregister_engine(self, msg):
@@ -872,7 +873,8 @@ class Client(HasTraits):
 
         event = {"event": "unregister"}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # copy: callbacks may remove themselves when called
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _handle_stranded_msgs(self, eid, uuid):
-- 
2.43.0


From 27f32af8bf5a87ae672589ceaedbc0acb74b7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:33 +0000
Subject: [PATCH 53/70] fix: wait_for_engines could miss the last engine to
 register

An engine registering between the first count and the registration of
the callback was not noticed until the next event, or never.
---
 ipyparallel/client/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index f636057..f9ad939 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1644,6 +1644,14 @@ class Client(HasTraits):
         self._registration_callbacks.append(notify)
         future.add_done_callback(lambda f: self._registration_callbacks.remove(notify))
 
+        def check_ready():
+            """Engines may have registered before we started listening"""
+            if not future.done() and len(self.ids) >= n:
+                notify({"event": "ready"})
+
+        # in the IO thread, where engines are registered
+        self._io_loop.add_callback(check_ready)
+
         def on_timeout():
             """Called when timeout is reached"""
             if future.done():
-- 
2.43.0


From 948ceade33e603bec0d8a3517975f9b5b3f77758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 54/70] fix: a hub result of an own message could turn into
 None

The result may leave the client's cache (its own AsyncResult having
retrieved it) while an AsyncHubResult naming it waits for others.
---
 ipyparallel/client/asyncresult.py | 15 +++++++++++++--
 ipyparallel/client/client.py      | 16 ++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3cede11..9119d8e 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1178,17 +1178,28 @@ class AsyncHubResult(AsyncResult):
         local_ids = [m for m in self.msg_ids if m in self._client.outstanding]
         local_ready = self._client.wait(local_ids, timeout)
         if local_ready:
-            remote_ids = [m for m in self.msg_ids if m not in self._client.results]
+            # keep the results:
+            # those with an owner may leave the client's cache at any time
+            found = {}
+            remote_ids = []
+            for msg_id in self.msg_ids:
+                result = self._client.results.get(msg_id, _default)
+                if result is _default:
+                    remote_ids.append(msg_id)
+                else:
+                    found[msg_id] = result
             if not remote_ids:
                 self._ready = True
             else:
                 # a failure is a result, don't raise it while waiting
                 rdict, _ = self._client._request_results(remote_ids)
+                found.update((m, rdict[m]) for m in rdict['completed'])
                 pending = rdict['pending']
                 while pending and (
                     timeout is None or time.perf_counter() < start + timeout
                 ):
                     rdict, _ = self._client._request_results(pending)
+                    found.update((m, rdict[m]) for m in rdict['completed'])
                     pending = rdict['pending']
                     if pending:
                         time.sleep(0.1)
@@ -1197,7 +1208,7 @@ class AsyncHubResult(AsyncResult):
         if self._ready:
             self._output_ready = True
             try:
-                results = list(map(self._client.results.get, self.msg_ids))
+                results = [found[msg_id] for msg_id in self.msg_ids]
                 self._raw_results = results
                 if self._single_result:
                     r = results[0]
diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index f9ad939..8a15462 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -55,6 +55,9 @@ from .asyncresult import AsyncHubResult, AsyncResult
 from .futures import MessageFuture, multi_future
 from .view import BroadcastView, DirectView, LoadBalancedView
 
+# stands for results we don't have (None is a result)
+_no_result = object()
+
 pjoin = os.path.join
 jupyter_client.session.extract_dates = lambda obj: obj
 # --------------------------------------------------------------------------
@@ -2302,8 +2305,10 @@ class Client(HasTraits):
 
         # comment this block out to temporarily disable local shortcut:
         for msg_id in self._msg_ids_from_jobs(msg_ids):
-            if msg_id in self.results:
-                local_results[msg_id] = self.results[msg_id]
+            # a single lookup: results may be removed in another thread
+            result = self.results.get(msg_id, _no_result)
+            if result is not _no_result:
+                local_results[msg_id] = result
             elif msg_id not in theids:
                 theids.append(msg_id)
 
@@ -2467,9 +2472,12 @@ class Client(HasTraits):
             if isinstance(job, str):
                 if job in self._futures:
                     children.append(self._futures[job])
-                elif job in self.results:
+                    continue
+                # a single lookup: results may be removed in another thread
+                result = self.results.get(job, _no_result)
+                if result is not _no_result:
                     f = MessageFuture(job)
-                    f.set_result(self.results[job])
+                    f.set_result(result)
                     f.output = Future()
                     f.output.metadata = self.metadata[job]
                     f.output.set_result(None)
-- 
2.43.0


From 97d4068bcc637bc30cef7e6d7e07918febfbf3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 55/70] fix: building targets raced with the unregistration of
 engines

---
 ipyparallel/client/client.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 8a15462..5b9d036 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -707,23 +707,26 @@ class Client(HasTraits):
                     "Can't build targets without any engines"
                 )
 
+        # engines may be unregistered meanwhile, in the IO thread
+        engines = dict(self._engines)
+        ids = [eid for eid in self.ids if eid in engines]
+
         if targets is None:
-            targets = self._ids
+            targets = ids
         elif isinstance(targets, str):
             if targets.lower() == 'all':
-                targets = self._ids
+                targets = ids
             else:
                 raise TypeError(f"{targets!r} not valid str target, must be 'all'")
         elif isinstance(targets, int):
             if targets < 0:
-                targets = self.ids[targets]
-            if targets not in self._ids:
+                targets = ids[targets]
+            if targets not in ids:
                 raise IndexError(f"No such engine: {targets}")
             targets = [targets]
 
         if isinstance(targets, slice):
-            indices = list(range(len(self._ids))[targets])
-            ids = self.ids
+            indices = list(range(len(ids))[targets])
             targets = [ids[i] for i in indices]
 
         if not isinstance(targets, (tuple, list, range)):
@@ -731,7 +734,7 @@ class Client(HasTraits):
                 f"targets by int/slice/collection of ints only, not {type(targets)}"
             )
 
-        return [self._engines[t].encode("utf8") for t in targets], list(targets)
+        return [engines[t].encode("utf8") for t in targets], list(targets)
 
     def _connect(self, sshserver, ssh_kwargs, timeout):
         """setup all our socket connections to the cluster. This is called from
-- 
2.43.0


From 6bb10ed76ed766ff1911e5868498834faeb8b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 56/70] fix: resubmitting a task whose output arrived first
 broke the hub's reply

---
 ipyparallel/controller/hub.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index c020ba5..e23723d 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1352,6 +1352,8 @@ class Hub(LoggingConfigurable):
             records = self.db.find_records(
                 {'msg_id': {'$in': msg_ids}}, keys=['header', 'content', 'buffers']
             )
+            # only the output of the others has arrived here so far
+            records = [rec for rec in records if rec['header']]
         except Exception:
             self.log.error('db::db error finding tasks to resubmit', exc_info=True)
             return finish(error.wrap_exception())
-- 
2.43.0


From e7a1526b8a42bb029bfcd7ad22134011b08f4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 57/70] fix: cluster methods moved between event loops at
 process exit

---
 ipyparallel/_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/_async.py b/ipyparallel/_async.py
index 489f53c..a5e7f51 100644
--- a/ipyparallel/_async.py
+++ b/ipyparallel/_async.py
@@ -69,7 +69,9 @@ class AsyncFirst:
         except RuntimeError:
             # not in a running loop
             loop = None
-        if loop:
+        if loop or self._async_thread is not None:
+            # stay in the thread if there is one:
+            # whatever was started there keeps using its loop
             return self._in_thread(async_f, *args, **kwargs)
         else:
             return _asyncio_run(async_f(*args, **kwargs))
-- 
2.43.0


From 32182e59622883ce687f56a7b06f0b1e8a077fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 58/70] fix: concurrent calls of stop_engines raised KeyError

---
 ipyparallel/cluster/cluster.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 1b30630..65ca8e1 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -789,9 +789,15 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         all engines are stopped.
         """
         if engine_set_id is None:
+
+            async def stop_one(engine_set_id):
+                # skip if another call has stopped it by now
+                if engine_set_id in self.engines:
+                    await self.stop_engines(engine_set_id)
+
             futures = []
             for engine_set_id in list(self.engines):
-                futures.append(self.stop_engines(engine_set_id))
+                futures.append(stop_one(engine_set_id))
             if futures:
                 await asyncio.gather(*futures)
             return
@@ -802,7 +808,9 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             await r
         # retrieve and cleanup output files
         engine_set.get_output(remove=True)
-        self.engines.pop(engine_set_id)
+        # may have been stopped (and even started again) by another call meanwhile
+        if self.engines.get(engine_set_id) is engine_set:
+            self.engines.pop(engine_set_id)
         self.update_cluster_file()
 
     async def stop_engine(self, engine_id):
-- 
2.43.0


From 73abd78648fde68887f6642701fab2fa99410db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 59/70] fix: a controller that failed to start was kept and
 never retried

---
 ipyparallel/cluster/cluster.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 65ca8e1..20770b1 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -653,9 +653,15 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             self.controller.controller_args = list(controller_args)
 
         self.controller.on_stop(self._controller_stopped)
-        r = self.controller.start()
-        if inspect.isawaitable(r):
-            await r
+        try:
+            r = self.controller.start()
+            if inspect.isawaitable(r):
+                await r
+        except BaseException:
+            if controller.state == 'before' and self.controller is controller:
+                # never started, there is nothing to stop
+                self.controller = None
+            raise
 
         self.update_cluster_file()
 
-- 
2.43.0


From a32a8c3eb4f52e6f28d4e543f0aff2b03be4c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 60/70] fix: other processes could see a half-written cluster
 file

---
 ipyparallel/cluster/cluster.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 20770b1..b0b8b46 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -562,8 +562,18 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         """Write cluster info to disk for later loading"""
         os.makedirs(os.path.dirname(self.cluster_file), exist_ok=True)
         self.log.debug(f"Updating {self.cluster_file}")
-        with open(self.cluster_file, "w") as f:
-            json.dump(self.to_dict(), f)
+        # never leave a partial file behind, or show one to other processes
+        tmp_file = f"{self.cluster_file}.{os.getpid()}.tmp"
+        try:
+            with open(tmp_file, "w") as f:
+                json.dump(self.to_dict(), f)
+            os.replace(tmp_file, self.cluster_file)
+        except BaseException:
+            try:
+                os.remove(tmp_file)
+            except OSError:
+                pass
+            raise
 
     def remove_cluster_file(self):
         """Remove my cluster file."""
-- 
2.43.0


From faa1bca8c87e22ba8881b422127bc33fd475470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 61/70] fix: clean_cluster_files without a log raised
 AttributeError

---
 ipyparallel/cluster/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index b0b8b46..c133421 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -1090,7 +1090,8 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
         try:
             os.remove(f)
         except OSError as e:
-            log.error(f"Error removing {f}: {e}")
+            if log:
+                log.error(f"Error removing {f}: {e}")
 
     for profile_dir in profile_dirs:
         if log:
-- 
2.43.0


From 1686884fb46cb8727c4817527c0ed833aef82982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 62/70] fix: a cluster could not be loaded from its file on a
 full disk

---
 ipyparallel/cluster/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index c133421..d830ff0 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -521,7 +521,11 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         # check if state changed
         if self.to_dict() != d:
             # if so, update our cluster file
-            self.update_cluster_file()
+            try:
+                self.update_cluster_file()
+            except OSError as e:
+                # e.g. full disk: the cluster is there all the same
+                self.log.warning(f"Could not update cluster file: {e}")
         return self
 
     @classmethod
-- 
2.43.0


From b8c9e9dc5425faede832dfc5d74f33f524b36502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 63/70] fix: signalling an engine set stopped at an engine that
 had just exited

---
 ipyparallel/cluster/launcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 325858e..51c35b2 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -645,7 +645,11 @@ class LocalProcessLauncher(BaseLauncher):
                 cmd = ['taskkill', '/pid', str(self.process.pid), '/t', '/F']
                 check_output(cmd)
             else:
-                self.process.send_signal(sig)
+                try:
+                    self.process.send_signal(sig)
+                except psutil.NoSuchProcess as e:
+                    # exited, but we have not been notified yet
+                    self.log.debug(f"Not sending signal {sig}: {e}")
 
     # callbacks, etc:
 
-- 
2.43.0


From 91e86d96c76b8cf6fee0a03c86a879d14052abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 64/70] fix: engines started without a controller were left
 running at exit

---
 ipyparallel/cluster/cluster.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index d830ff0..15b7960 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -611,6 +611,13 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         else:
             self.write_cluster_file()
 
+    def _register_atexit(self):
+        """Make sure we are stopped at process exit, if we should be"""
+        if self.shutdown_atexit:
+            _atexit_clusters.add(self)
+            if not _atexit_cleanup_clusters.registered:
+                atexit.register(_atexit_cleanup_clusters)
+
     async def start_controller(self, **kwargs):
         """Start the controller
 
@@ -624,10 +631,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
                 "controller is already running. Call stopcontroller() first."
             )
 
-        if self.shutdown_atexit:
-            _atexit_clusters.add(self)
-            if not _atexit_cleanup_clusters.registered:
-                atexit.register(_atexit_cleanup_clusters)
+        self._register_atexit()
 
         self.controller = controller = self.controller_launcher_class(
             work_dir='.',
@@ -703,6 +707,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         Returns an engine set id which can be used in stop_engines
         """
         # TODO: send engines connection info
+        self._register_atexit()
         if engine_set_id is None:
             engine_set_id = self._new_engine_set_id()
         engine_set = self.engines[engine_set_id] = self.engine_launcher_class(
-- 
2.43.0


From ac992fc6d5d7274f0ce75a467576e36a4743ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 65/70] fix: ipcluster engines did not stop its engines on
 SIGTERM

---
 ipyparallel/cluster/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 13c92b3..c4c2a2f 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -423,7 +423,7 @@ class IPClusterEngines(BaseParallelApplication):
                 self.log.debug(f"Forwarding {signame} to engines")
                 signal.signal(signum, self.relay_signal)
         signal.signal(signal.SIGINT, self.sigint_handler)
-        signal.signal(signal.SIGTERM, self.sigint_handler)
+        signal.signal(signal.SIGTERM, self.sigterm_handler)
 
     def relay_signal(self, signum, frame):
         self.log.debug(f"Received signal {signum} received, relaying to engines...")
-- 
2.43.0


From 874ef6985617224933b50c0fdfe6dbb67dc6ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 66/70] fix: ipcluster start hung when the cluster failed to
 start

---
 ipyparallel/cluster/app.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index c4c2a2f..23a53d6 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -566,7 +566,13 @@ class IPClusterStart(IPClusterEngines):
         pass
 
     async def start_cluster(self):
-        await self.cluster.start_cluster()
+        try:
+            await self.cluster.start_cluster()
+        except Exception:
+            self.log.exception("Cluster start failed")
+            # don't leave behind what did start
+            await self.cluster.stop_cluster()
+            self.exit(1)
         if self.daemonize:
             print(
                 f"Leaving cluster running: {self.cluster.cluster_file}", file=sys.stderr
-- 
2.43.0


From 7389e15b7a4c6357f347179510a5731bcb56d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 67/70] fix: ipcluster start refused to start because of the
 file of a dead cluster

---
 ipyparallel/cluster/app.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 23a53d6..8b0bfc0 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -596,6 +596,7 @@ class IPClusterStart(IPClusterEngines):
         # First see if the cluster is already running
         cluster_file = self.cluster.cluster_file
         if os.path.isfile(cluster_file):
+            already_running = False
             try:
                 cluster = Cluster.from_file(cluster_file)
             except Exception as e:
@@ -604,6 +605,8 @@ class IPClusterStart(IPClusterEngines):
                     f"Error loading cluster from file {cluster_file}: {e}. Assuming stopped cluster."
                 )
             else:
+                already_running = cluster._is_running()
+            if already_running:
                 self.log.critical(
                     f'Cluster is already running at {self.cluster.cluster_file}. '
                     'use `ipcluster stop` to stop the cluster.'
-- 
2.43.0


From 4609068eb82138baf1661c10012786c7ca225bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 68/70] fix: a controller's connection files could be partial
 or readable by others

---
 ipyparallel/controller/app.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 82ff143..1f90294 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -676,9 +676,20 @@ class IPController(BaseParallelApplication):
         """save a connection dict to json file."""
         fname = os.path.join(self.profile_dir.security_dir, fname)
         self.log.info("writing connection info to %s", fname)
-        with open(fname, 'w') as f:
-            f.write(json.dumps(cdict, indent=2))
-        os.chmod(fname, stat.S_IRUSR | stat.S_IWUSR)
+        # others wait for this file to appear:
+        # it must be complete, and private, from the start
+        tmp_file = f"{fname}.{os.getpid()}.tmp"
+        try:
+            with open(tmp_file, 'w') as f:
+                os.chmod(tmp_file, stat.S_IRUSR | stat.S_IWUSR)
+                f.write(json.dumps(cdict, indent=2))
+            os.replace(tmp_file, fname)
+        except BaseException:
+            try:
+                os.remove(tmp_file)
+            except OSError:
+                pass
+            raise
 
     def load_config_from_json(self):
         """load config from existing json connector files."""
@@ -745,7 +756,7 @@ class IPController(BaseParallelApplication):
         if self.reuse_files:
             try:
                 self.load_config_from_json()
-            except (AssertionError, OSError) as e:
+            except (AssertionError, KeyError, OSError, ValueError) as e:
                 self.log.error(f"Could not load config from JSON: {e}")
             else:
                 # successfully loaded config from JSON, and reuse=True
-- 
2.43.0


From ffcaf8d3d5667c76af16ea0579146a03b3131155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 69/70] fix: clusters connected to the files of a killed
 controller

---
 ipyparallel/cluster/launcher.py | 34 ++++++++++++++++++++++++++++++---
 ipyparallel/controller/app.py   | 13 +++++++++++++
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 51c35b2..e9985b3 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -365,6 +365,33 @@ class ControllerLauncher(BaseLauncher):
         """,
     )
 
+    # state of connection files left by an earlier controller
+    _stale_connection_files = Dict()
+
+    @staticmethod
+    def _connection_file_state(path):
+        """Identify one version of a connection file, None if there is none"""
+        try:
+            st = os.stat(path)
+        except OSError:
+            return None
+        return (st.st_mtime_ns, st.st_ino, st.st_size)
+
+    def _note_stale_connection_files(self):
+        """Call before starting the controller
+
+        Files that are there already, e.g. because the last controller was killed,
+        are not those of this controller until it has written (or touched) them.
+        """
+        self._stale_connection_files = {
+            path: self._connection_file_state(path)
+            for path in self.connection_files.values()
+        }
+
+    def _connection_file_ready(self, path):
+        state = self._connection_file_state(path)
+        return state is not None and state != self._stale_connection_files.get(path)
+
     async def get_connection_info(self, timeout=None):
         """Retrieve connection info for the controller
 
@@ -383,11 +410,11 @@ class ControllerLauncher(BaseLauncher):
         else:
             deadline = None
 
-        if not all(os.path.exists(f) for f in paths):
+        if not all(self._connection_file_ready(f) for f in paths):
             self.log.debug(f"Waiting for {paths}")
-        while not all(os.path.exists(f) for f in paths):
+        while not all(self._connection_file_ready(f) for f in paths):
             if deadline is not None and time.monotonic() > deadline:
-                missing_files = [f for f in paths if not os.path.exists(f)]
+                missing_files = [f for f in paths if not self._connection_file_ready(f)]
                 raise TimeoutError(
                     f"Connection files {missing_files} did not arrive in {timeout}s"
                 )
@@ -696,6 +723,7 @@ class LocalControllerLauncher(LocalProcessLauncher, ControllerLauncher):
 
     def start(self):
         """Start the controller by profile_dir."""
+        self._note_stale_connection_files()
         return super().start()
 
 
diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 1f90294..a0bce58 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -737,6 +737,18 @@ class IPController(BaseParallelApplication):
         self.engine_info = ecfg
         self.client_info = ccfg
 
+    def touch_connection_files(self):
+        """Mark reused connection files as current
+
+        Those waiting for this controller can tell them from files left behind.
+        """
+        now = time.time_ns()
+        for f in (self.client_json_file, self.engine_json_file):
+            try:
+                os.utime(os.path.join(self.profile_dir.security_dir, f), ns=(now, now))
+            except OSError as e:
+                self.log.warning(f"Could not update time of connection file: {e}")
+
     def cleanup_connection_files(self):
         if self.reuse_files:
             self.log.debug("leaving JSON connection files for reuse")
@@ -762,6 +774,7 @@ class IPController(BaseParallelApplication):
                 # successfully loaded config from JSON, and reuse=True
                 # no need to write back the same file
                 self.write_connection_files = False
+                self.touch_connection_files()
 
     def init_hub(self):
         if self.enable_curve:
-- 
2.43.0


From 5190534a758ca6f996d96480afab5f61354442a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:56 +0000
Subject: [PATCH 70/70] fix: engines that were never started counted as running

A cluster file written after an engine of a set failed to start
lists that engine with no pid, and loading it took the engine to be
running for ever.
---
 ipyparallel/cluster/launcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index e9985b3..f2ba49f 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -767,6 +767,8 @@ class LocalEngineSetLauncher(LocalEngineLauncher):
         n = 0
         for i, engine_dict in d['engines'].items():
             try:
+                if engine_dict.get("state") == "before":
+                    raise NotRunning("Never started")
                 self.launchers[i] = el = self.launcher_class.from_dict(
                     engine_dict, identifier=i, parent=self
                 )
-- 
2.43.0

