From a03dbab01610b2272fba5182be22b3ed0c1bf686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 01/49] fix: live streams deliver events to every observer in
 order of arrival

The events were submitted independently to a pool of threads, so two events
could be processed by the same observer in the reverse order.
---
 pm4py/streaming/stream/live_event_stream.py | 7 ++++---
 pm4py/streaming/stream/live_trace_stream.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 53aec69..de1ce68 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -16,7 +16,7 @@
 '''
 import collections
 import threading
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import ThreadPoolExecutor, wait
 from enum import Enum
 from pm4py.util import exec_utils
 
@@ -60,9 +60,10 @@ class LiveEventStream:
                     self._cond.release()
                     return
             event = self._dq.popleft()
-            for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+            deliveries = [self._tp.submit(algo.receive, event) for algo in self._observers]
             self._cond.release()
+            # the next event is handed out only after this one: the pool does not keep the order by itself
+            wait(deliveries)
 
     def start(self):
         self._cond.acquire()
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index c9e56ec..939383c 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -16,7 +16,7 @@
 '''
 import collections
 import threading
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import ThreadPoolExecutor, wait
 from enum import Enum
 from pm4py.util import exec_utils
 
@@ -60,9 +60,10 @@ class LiveTraceStream:
                     self._cond.release()
                     return
             event = self._dq.popleft()
-            for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+            deliveries = [self._tp.submit(algo.receive, event) for algo in self._observers]
             self._cond.release()
+            # the next event is handed out only after this one: the pool does not keep the order by itself
+            wait(deliveries)
 
     def start(self):
         self._cond.acquire()
-- 
2.43.0


From 1f4150ea63ee317eed47bdb81a3d91763bdda478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 02/49] fix: stopping a live stream from several threads, or
 while observers append

A notification could wake another waiting thread than the one it was meant
for, leaving the mail man (and the callers of stop) waiting forever; and the
lock was held while waiting for deliveries that could need it.
---
 pm4py/streaming/stream/live_event_stream.py | 10 ++++++----
 pm4py/streaming/stream/live_trace_stream.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index de1ce68..e511b23 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -46,14 +46,14 @@ class LiveEventStream:
         self._cond.acquire()
         if self._state != StreamState.FINISHED:
             self._dq.append(event)
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
             while len(self._dq) == 0:
-                self._cond.notify()
+                self._cond.notify_all()
                 if self._state != StreamState.FINISHED:
                     self._cond.wait()
                 else:
@@ -76,11 +76,13 @@ class LiveEventStream:
         self._cond.acquire()
         while len(self._dq) > 0:
             self._cond.wait()
-        self._tp.shutdown()
         if self._state == StreamState.ACTIVE:
             self._state = StreamState.FINISHED
-            self._cond.notify()
+        # both the mail man and other threads stopping the stream could be waiting
+        self._cond.notify_all()
         self._cond.release()
+        # outside of the lock: the pending deliveries could need it
+        self._tp.shutdown()
 
     def register(self, algo):
         self._cond.acquire()
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index 939383c..c5cc0e6 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -46,14 +46,14 @@ class LiveTraceStream:
         self._cond.acquire()
         if self._state != StreamState.FINISHED:
             self._dq.append(event)
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
             while len(self._dq) == 0:
-                self._cond.notify()
+                self._cond.notify_all()
                 if self._state != StreamState.FINISHED:
                     self._cond.wait()
                 else:
@@ -76,11 +76,13 @@ class LiveTraceStream:
         self._cond.acquire()
         while len(self._dq) > 0:
             self._cond.wait()
-        self._tp.shutdown()
         if self._state == StreamState.ACTIVE:
             self._state = StreamState.FINISHED
-            self._cond.notify()
+        # both the mail man and other threads stopping the stream could be waiting
+        self._cond.notify_all()
         self._cond.release()
+        # outside of the lock: the pending deliveries could need it
+        self._tp.shutdown()
 
     def register(self, algo):
         self._cond.acquire()
-- 
2.43.0


From 89a3fb1e5c9f80bb34ac4635ee241cc3e9a18001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 03/49] fix: thread-safe dictionaries of the streaming package
 blocking their callers

values() and itervalues() acquired the (non reentrant) lock twice, an iteration
failed when another thread inserted a key, and a failing operation left the
lock acquired.
---
 pm4py/streaming/util/dictio/versions/redis.py | 41 +++++++------------
 .../util/dictio/versions/thread_safe.py       | 28 ++++---------
 2 files changed, 24 insertions(+), 45 deletions(-)

diff --git a/pm4py/streaming/util/dictio/versions/redis.py b/pm4py/streaming/util/dictio/versions/redis.py
index 1f1d708..956dbfd 100644
--- a/pm4py/streaming/util/dictio/versions/redis.py
+++ b/pm4py/streaming/util/dictio/versions/redis.py
@@ -36,44 +36,33 @@ class ThreadSafeRedisDict(dict):
     def __setitem__(self, key, value):
         # TODO: what should happen to the order if
         #       the key is already in the dict
-        self.lock.acquire()
-        self.redis_connection[key] = value
-        super(ThreadSafeRedisDict, self).__setitem__(key, value)
-        self.lock.release()
+        with self.lock:
+            self.redis_connection[key] = value
+            super(ThreadSafeRedisDict, self).__setitem__(key, value)
 
     def __iter__(self):
-        self.lock.acquire()
-        ret = iter(list(self.redis_connection.keys()))
-        self.lock.release()
-        return ret
+        with self.lock:
+            return iter(list(self.redis_connection.keys()))
 
     def keys(self):
-        self.lock.acquire()
-        ret = list(self.redis_connection.keys())
-        self.lock.release()
-        return ret
+        with self.lock:
+            return list(self.redis_connection.keys())
 
     def values(self):
-        self.lock.acquire()
-        ret = self.redis_connection.values()
-        self.lock.release()
-        return ret
+        with self.lock:
+            return self.redis_connection.values()
 
     def itervalues(self):
-        self.lock.acquire()
-        ret = self.redis_connection.itervalues()
-        self.lock.release()
-        return ret
+        with self.lock:
+            return self.redis_connection.itervalues()
 
     def flushdb(self):
-        self.lock.acquire()
-        self.redis_connection.flushdb()
-        self.lock.release()
+        with self.lock:
+            self.redis_connection.flushdb()
 
     def flushall(self):
-        self.lock.acquire()
-        self.redis_connection.flushall()
-        self.lock.release()
+        with self.lock:
+            self.redis_connection.flushall()
 
 
 # typing not applied, since redis is not installed by default
diff --git a/pm4py/streaming/util/dictio/versions/thread_safe.py b/pm4py/streaming/util/dictio/versions/thread_safe.py
index 7492c77..c0fec9c 100644
--- a/pm4py/streaming/util/dictio/versions/thread_safe.py
+++ b/pm4py/streaming/util/dictio/versions/thread_safe.py
@@ -27,33 +27,23 @@ class ThreadSafeDict(dict):
     def __setitem__(self, key, value):
         # TODO: what should happen to the order if
         #       the key is already in the dict
-        self.lock.acquire()
-        super(ThreadSafeDict, self).__setitem__(key, value)
-        self.lock.release()
+        with self.lock:
+            super(ThreadSafeDict, self).__setitem__(key, value)
 
     def __iter__(self):
-        self.lock.acquire()
-        ret = iter(self.itemlist)
-        self.lock.release()
-        return ret
+        with self.lock:
+            return iter(list(self.itemlist))
 
     def keys(self):
-        self.lock.acquire()
-        ret = set(self.itemlist)
-        self.lock.release()
-        return ret
+        with self.lock:
+            return set(self.itemlist)
 
     def values(self):
-        self.lock.acquire()
-        ret = [self[key] for key in self]
-        self.lock.release()
-        return ret
+        with self.lock:
+            return list(super(ThreadSafeDict, self).values())
 
     def itervalues(self):
-        self.lock.acquire()
-        ret = (self[key] for key in self)
-        self.lock.release()
-        return ret
+        return iter(self.values())
 
 
 def apply(parameters: Optional[Dict[Any, Any]] = None):
-- 
2.43.0


From 8f050b0e4f068a2b128e312b078622a2fda9fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 04/49] fix: streaming conformance checking queried while
 events are processed

get_status, terminate and terminate_all accessed the state of the cases without
the lock owned by the processing of the events.
---
 .../footprints/variants/classic.py            | 29 ++++++++++++-------
 .../algo/conformance/tbr/variants/classic.py  | 24 ++++++++++-----
 pm4py/streaming/algo/interface.py             |  4 +--
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9342c53..9c7f634 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -174,14 +174,15 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
-            num_dev = int(self.dev_dict[case])
-            if num_dev == 0:
-                return True
+        with self._lock:
+            if case in self.case_dict.keys():
+                num_dev = int(self.dev_dict[case])
+                if num_dev == 0:
+                    return True
+                else:
+                    return False
             else:
-                return False
-        else:
-            self.message_case_not_in_dictionary(case)
+                self.message_case_not_in_dictionary(case)
 
     def terminate(self, case):
         """
@@ -197,6 +198,13 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
+        with self._lock:
+            return self._terminate(case)
+
+    def _terminate(self, case):
+        """
+        Terminates a case (the lock is already owned)
+        """
         if case in self.case_dict.keys():
             curr = self.case_dict[case]
             if curr not in self.end_activities:
@@ -216,9 +224,10 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         Terminate all cases
         """
-        cases = list(self.case_dict.keys())
-        for case in cases:
-            self.terminate(case)
+        with self._lock:
+            cases = list(self.case_dict.keys())
+            for case in cases:
+                self.terminate(case)
 
     def message_case_or_activity_not_in_event(self, event):
         """
diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 1c0b491..12c7dfa 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -271,10 +271,11 @@ class TbrStreamingConformance(StreamingAlgorithm):
         case
             Case
         """
-        if case in self.case_dict:
-            return {"marking": self.decode_marking(self.case_dict[case]), "missing": int(self.missing[case])}
-        else:
-            self.message_case_not_in_dictionary(case)
+        with self._lock:
+            if case in self.case_dict:
+                return {"marking": self.decode_marking(self.case_dict[case]), "missing": int(self.missing[case])}
+            else:
+                self.message_case_not_in_dictionary(case)
 
     def terminate(self, case):
         """
@@ -290,7 +291,13 @@ class TbrStreamingConformance(StreamingAlgorithm):
         dictio
             Dictionary containing: the marking, the count of missing and remaining tokens
         """
-        case = self.encode_str(case)
+        with self._lock:
+            return self._terminate(self.encode_str(case))
+
+    def _terminate(self, case):
+        """
+        Terminates a case (the lock is already owned)
+        """
         if case in self.case_dict:
             remaining = 0
             if not self.decode_marking(self.case_dict[case]) == self.fm:
@@ -322,9 +329,10 @@ class TbrStreamingConformance(StreamingAlgorithm):
         """
         Terminate all open cases
         """
-        cases = list(self.case_dict.keys())
-        for case in cases:
-            self.terminate(case)
+        with self._lock:
+            cases = list(self.case_dict.keys())
+            for case in cases:
+                self.terminate(case)
 
     def reach_fm_with_invisibles(self, marking):
         """
diff --git a/pm4py/streaming/algo/interface.py b/pm4py/streaming/algo/interface.py
index 7707825..02f3e23 100644
--- a/pm4py/streaming/algo/interface.py
+++ b/pm4py/streaming/algo/interface.py
@@ -15,13 +15,13 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import abc
-from threading import Lock
+from threading import RLock
 import traceback
 
 
 class StreamingAlgorithm(abc.ABC):
     def __init__(self, parameters=None):
-        self._lock = Lock()
+        self._lock = RLock()
 
     @abc.abstractmethod
     def _process(self, event):
-- 
2.43.0


From ccc314d3a63e9ff0599eed2c712d9c877fac3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 05/49] fix: missing and remaining tokens in the streaming
 token-based replay

- terminate() looked for the final marking starting from an encoded marking, and
  along paths without their last invisible transition: it was never reached;
- missing/remaining tokens of the final marking could be decreased by the tokens
  of other places;
- an event whose transition had only some of its input places marked was lost.
---
 .../algo/conformance/tbr/variants/classic.py  | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 12c7dfa..07073cc 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -119,7 +119,9 @@ class TbrStreamingConformance(StreamingAlgorithm):
         for el in shortest_path:
             if type(el[0]) is PetriNet.Place:
                 for sel in el[1]:
-                    spath = [x for x in el[1][sel][1:-2] if type(x) is PetriNet.Transition]
+                    # the last transition of a path to a place needs to be fired, the one of a path to a transition not
+                    last = -1 if type(sel) is PetriNet.Place else -2
+                    spath = [x for x in el[1][sel][1:last] if type(x) is PetriNet.Transition]
                     if spath:
                         if not el[0] in dictio_spaths:
                             dictio_spaths[el[0]] = {}
@@ -216,7 +218,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
                 for a in t.in_arcs:
                     pl = a.source
                     mark = a.weight
-                    if pl not in marking or new_marking[pl] < mark:
+                    if marking[pl] < mark:
                         self.missing[case] = int(self.missing[case]) + (mark - marking[pl])
                         marking[pl] = mark
                 new_marking = semantics.weak_execute(t, marking)
@@ -301,20 +303,15 @@ class TbrStreamingConformance(StreamingAlgorithm):
         if case in self.case_dict:
             remaining = 0
             if not self.decode_marking(self.case_dict[case]) == self.fm:
-                new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
+                new_marking = self.reach_fm_with_invisibles(self.decode_marking(self.case_dict[case]))
                 if new_marking is None:
                     new_marking = self.decode_marking(self.case_dict[case])
                 if not new_marking == self.fm:
                     self.message_final_marking_not_reached(case, new_marking)
-                    fm_copy = copy(self.fm)
-                    for m in fm_copy:
-                        if not m in new_marking:
-                            new_marking[m] = 0
-                        self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
+                    for m in self.fm:
+                        self.missing[case] = int(self.missing[case]) + max(0, self.fm[m] - new_marking[m])
                     for m in new_marking:
-                        if not m in fm_copy:
-                            fm_copy[m] = 0
-                        remaining += new_marking[m] - fm_copy[m]
+                        remaining += max(0, new_marking[m] - self.fm[m])
             missing = int(self.missing[case])
             is_fit = missing == 0 and remaining == 0
             ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
-- 
2.43.0


From 84df3deb793fa76a51390dcaf3cc40ebdefcbcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 06/49] fix: deviations forgotten by the streaming footprints
 conformance checking

The deviations of a case were reset while the case had no activity of the
footprints, and such a case was not reported.
---
 .../footprints/variants/classic.py            | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9c7f634..20450f5 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -116,7 +116,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         activity
             Activity
         """
-        if case not in self.case_dict.keys():
+        if case not in self.dev_dict.keys():
             self.dev_dict[case] = 0
         if activity in self.activities:
             if case not in self.case_dict.keys():
@@ -175,7 +175,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
             Boolean value (True if there are no deviations)
         """
         with self._lock:
-            if case in self.case_dict.keys():
+            if case in self.dev_dict.keys():
                 num_dev = int(self.dev_dict[case])
                 if num_dev == 0:
                     return True
@@ -205,13 +205,14 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         Terminates a case (the lock is already owned)
         """
-        if case in self.case_dict.keys():
-            curr = self.case_dict[case]
-            if curr not in self.end_activities:
-                self.message_end_activity_not_possible(curr, case)
-                self.dev_dict[case] = int(self.dev_dict[case]) + 1
+        if case in self.dev_dict.keys():
+            if case in self.case_dict.keys():
+                curr = self.case_dict[case]
+                if curr not in self.end_activities:
+                    self.message_end_activity_not_possible(curr, case)
+                    self.dev_dict[case] = int(self.dev_dict[case]) + 1
+                del self.case_dict[case]
             num_dev = int(self.dev_dict[case])
-            del self.case_dict[case]
             del self.dev_dict[case]
             if num_dev == 0:
                 return True
@@ -225,7 +226,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         Terminate all cases
         """
         with self._lock:
-            cases = list(self.case_dict.keys())
+            cases = list(self.dev_dict.keys())
             for case in cases:
                 self.terminate(case)
 
@@ -312,7 +313,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         import pandas as pd
 
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
 
         diagn_stream = []
 
-- 
2.43.0


From 9479c43bfe67abdc56a798923313ce5d21df1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 07/49] fix: traces of an unsorted dataframe converted to a
 trace stream

The sorted dataframe was discarded, and dataframes carrying attrs (which
survive any reordering of the rows) were not sorted at all: a case received
the events of its neighbours whenever its rows were not consecutive.
---
 pm4py/streaming/conversion/from_pandas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index ecb911e..9ccd681 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -43,10 +43,9 @@ class PandasDataframeAsIterable(object):
                                                    xes_constants.DEFAULT_TIMESTAMP_KEY)
         index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, constants.DEFAULT_INDEX_KEY)
 
-        if not (hasattr(dataframe, "attrs") and dataframe.attrs):
-            # dataframe has not been initialized through format_dataframe
-            dataframe = pandas_utils.insert_index(dataframe, index_key)
-            dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        # the events of each case shall be consecutive, and in order of time
+        dataframe = pandas_utils.insert_index(dataframe, index_key)
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
         cases = dataframe[case_id_key].to_numpy()
 
-- 
2.43.0


From 5c1c05757a8389d987a744b9a288afd15dd563f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 08/49] fix: nested attributes and lists lost at the chunk
 boundaries of XES files

The iterparse importers and the streaming XES readers looked at the children
of an attribute when its start tag was read: when the parser had not received
the children yet (chunks of 32 KB) the attribute was stored without them.
The memory-compressed importer also mixed up equal values of different types.
---
 .../log/importer/xes/variants/iterparse.py    | 25 ++++-----
 .../log/importer/xes/variants/iterparse_20.py | 54 ++++++++++++-------
 .../xes/variants/iterparse_mem_compressed.py  | 53 +++++++++---------
 pm4py/objects/log/util/xes.py                 | 36 +++++++++++++
 .../importer/xes/variants/xes_event_stream.py | 24 ++++-----
 .../importer/xes/variants/xes_trace_stream.py | 24 ++++-----
 6 files changed, 122 insertions(+), 94 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index 28702eb..2891820 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -22,7 +22,7 @@ from enum import Enum
 from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
-from pm4py.objects.log.util import sorting
+from pm4py.objects.log.util import sorting, xes as xes_util
 from pm4py.util import exec_utils, constants
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing import parser as dt_parser
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = xes_util.get_parent_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -413,19 +413,12 @@ def import_from_string(log_string, parameters=None):
 
 
 def __parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        else:
-            store[key] = value
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # the attribute could have children, see get_parent_store
+    tree[elem] = (store, key, value)
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 585d730..585eda6 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_parent_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -413,23 +413,39 @@ def import_from_string(log_string, parameters=None):
 
 
 def __parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        elif type(store) is set:
-            store.add((key, value))
-        else:
-            store[key] = value
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+    elif type(store) is set:
+        store.add((key, value))
     else:
-        if elem.tag.endswith(xes_constants.TAG_LIST):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-        elif elem.tag.endswith(xes_constants.TAG_CONTAINER):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: set()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # the attribute could have children, see __get_parent_store
+    tree[elem] = (store, key, value)
     return tree
+
+
+def __get_parent_store(elem, tree):
+    """
+    Gets the object in which an attribute that is being read shall be stored. An attribute becomes a
+    list / container / nested attribute with its first child: this cannot be decided when the attribute is opened,
+    since the file is parsed in chunks and the children could be not available yet.
+    """
+    parent = elem.getparent()
+    store = tree[parent] if parent in tree else None
+    if type(store) is tuple:
+        container, key, value = store
+        if parent.tag.endswith(xes_constants.TAG_LIST):
+            store = list()
+        elif parent.tag.endswith(xes_constants.TAG_CONTAINER):
+            store = set()
+        else:
+            store = dict()
+        nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(container) is list:
+            container[-1] = (key, nested_value)
+        elif type(container) is not set:
+            container[key] = nested_value
+        tree[parent] = store
+    return store
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index dfb8627..5429034 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -22,7 +22,7 @@ from enum import Enum
 from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
-from pm4py.objects.log.util import sorting
+from pm4py.objects.log.util import sorting, xes as xes_util
 from pm4py.util import exec_utils, constants
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing import parser as dt_parser
@@ -113,7 +113,7 @@ def import_from_context(context, num_traces, log, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = xes_util.get_parent_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -413,33 +413,28 @@ def import_from_string(log_string, parameters=None):
 
 
 def __parse_attribute(elem, store, key, value, tree, compression_dict):
-    if len(elem.getchildren()) == 0:
-        if key in compression_dict:
-            # using existing istantiations of existing objects
-            key = compression_dict[key]
-        else:
-            # set up a new instantiation
-            compression_dict[key] = key
-
-        if value in compression_dict:
-            # using existing istantiations of existing objects
-            value = compression_dict[value]
-        else:
-            # set up a new instantiation
-            compression_dict[value] = value
+    if key in compression_dict:
+        # using existing istantiations of existing objects
+        key = compression_dict[key]
+    else:
+        # set up a new instantiation
+        compression_dict[key] = key
+
+    # values of different types can be equal (1, 1.0, True)
+    typed_value = (type(value), value)
+    if typed_value in compression_dict:
+        # using existing istantiations of existing objects
+        value = compression_dict[typed_value]
+    else:
+        # set up a new instantiation
+        compression_dict[typed_value] = value
 
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        else:
-            store[key] = value
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # the attribute could have children, see get_parent_store
+    tree[elem] = (store, key, value)
     return tree
diff --git a/pm4py/objects/log/util/xes.py b/pm4py/objects/log/util/xes.py
index 536ea4f..d1ee6e9 100644
--- a/pm4py/objects/log/util/xes.py
+++ b/pm4py/objects/log/util/xes.py
@@ -53,3 +53,39 @@ DEFAULT_TRANSITION_KEY = "lifecycle:transition"
 VALUE_XES_VERSION = '1849-2016'
 VALUE_XES_FEATURES = "nested-attributes"
 VALUE_XMLNS = 'http://www.xes-standard.org/'
+
+
+def get_parent_store(elem, tree):
+    """
+    Gets the object (dictionary or list) in which an attribute that is being read shall be stored.
+    When the parent is itself an attribute, it becomes a nested attribute (or a list) with its first child:
+    this cannot be decided when the parent is opened, since the file is parsed in chunks
+    and the children could be not available yet.
+
+    Parameters
+    ---------------
+    elem
+        XML element that has been opened
+    tree
+        Dictionary associating to the XML elements that are currently open: the store of their children,
+        or (for the attributes without children so far) the store containing the attribute, its key and its value
+
+    Returns
+    ---------------
+    store
+        Store for the element (None if there is not any)
+    """
+    parent = elem.getparent()
+    store = tree[parent] if parent in tree else None
+    if type(store) is tuple:
+        container, key, value = store
+        store = list() if elem.tag.endswith(TAG_VALUES) else dict()
+        nested_value = {KEY_VALUE: value, KEY_CHILDREN: store}
+        if type(container) is list:
+            container[-1] = (key, nested_value)
+        else:
+            container[key] = nested_value
+        tree[parent] = store
+    if type(store) is list and elem.tag.endswith(TAG_VALUES):
+        tree[elem] = store
+    return store
diff --git a/pm4py/streaming/importer/xes/variants/xes_event_stream.py b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
index 1018fc1..5ad8616 100644
--- a/pm4py/streaming/importer/xes/variants/xes_event_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
@@ -18,6 +18,7 @@ import logging
 from enum import Enum
 
 from pm4py.objects.log.obj import Event, Trace
+from pm4py.objects.log.util import xes as xes_util
 from pm4py.util import xes_constants, exec_utils, constants
 from pm4py.util.dt_parsing import parser as dt_parser
 
@@ -31,21 +32,14 @@ _EVENT_START = 'start'
 
 
 def parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        else:
-            store[key] = value
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # the attribute could have children, see get_parent_store
+    tree[elem] = (store, key, value)
     return tree
 
 
@@ -127,7 +121,7 @@ class StreamingEventXesReader:
             tree_event, elem = next(self.context)
 
             if tree_event == _EVENT_START:
-                parent = tree[elem.getparent()] if elem.getparent() in tree else None
+                parent = xes_util.get_parent_store(elem, tree)
 
                 if elem.tag.endswith(xes_constants.TAG_TRACE):
                     self.trace = Trace()
diff --git a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
index e15b100..070ec3f 100644
--- a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
@@ -18,6 +18,7 @@ import logging
 from enum import Enum
 
 from pm4py.objects.log.obj import Trace, Event
+from pm4py.objects.log.util import xes as xes_util
 from pm4py.util import xes_constants, exec_utils
 from pm4py.util.dt_parsing import parser as dt_parser
 
@@ -31,21 +32,14 @@ _EVENT_START = 'start'
 
 
 def parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        else:
-            store[key] = value
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # the attribute could have children, see get_parent_store
+    tree[elem] = (store, key, value)
     return tree
 
 
@@ -127,7 +121,7 @@ class StreamingTraceXesReader:
             tree_event, elem = next(self.context)
 
             if tree_event == _EVENT_START:
-                parent = tree[elem.getparent()] if elem.getparent() in tree else None
+                parent = xes_util.get_parent_store(elem, tree)
 
                 if elem.tag.endswith(xes_constants.TAG_TRACE):
                     self.trace = Trace()
-- 
2.43.0


From 44ef59dc75fd2bd9356e1123c9fa4a5fca95d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 09/49] fix: characters split between two chunks by the
 chunk_regex XES importer

A multi-byte character across the boundary of two chunks of 4096 bytes made
the import of a valid file fail.
---
 pm4py/objects/log/importer/xes/variants/chunk_regex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 8bf8853..9ada6c9 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import codecs
 import gzip
 import os
 import sys
@@ -59,13 +60,15 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
     nb = 2 ** 12 # bytes per chunk
     rex = re.compile(r"(<|>)")
     parser = dt_parser.get()
+    # a character could be split between two chunks
+    decoder = codecs.getincrementaldecoder(encoding)()
     cont = F.read(nb)
     curr_els_attrs = []
     fk_dict = {}
     log = EventLog()
     trace = None
     while cont:
-        lst = deque(rex.split(cont.decode(encoding)))
+        lst = deque(rex.split(decoder.decode(cont)))
         while lst:
             el = lst.popleft()
             if len(el.rstrip()) > 0:
@@ -77,7 +80,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     # need to read more
                     cont = F.read(nb)
                     if cont:
-                        lst2 = rex.split(cont.decode(encoding))
+                        lst2 = rex.split(decoder.decode(cont))
                         el = el + lst2[0]
                         lst = deque(lst2[1:])
                     else:
-- 
2.43.0


From e7061e80e1582befaa83f8e04a79a279579e3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 10/49] fix: markup characters in the names and values written
 by the line-by-line XES exporter and read by the text-based importers

---
 .../log/exporter/xes/variants/line_by_line.py    | 16 ++++++++++------
 .../log/importer/xes/variants/chunk_regex.py     |  3 ++-
 .../log/importer/xes/variants/line_by_line.py    | 13 ++++++++-----
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 2c8e2bd..3e1da1d 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -117,7 +117,8 @@ def escape(stru):
     escaped_stru
         Escaped string
     """
-    return quoteattr(stru)
+    # the value is always enclosed by double quotes, which are expected by some of the importers
+    return quoteattr(stru, {"\"": "&quot;"})
 
 
 def export_attribute(attr_name, attr_value, indent_level):
@@ -222,15 +223,18 @@ def export_log_line_by_line(log, fp_obj, encoding, parameters=None):
         encoding))
     fp_obj.write(("<log "+xes_util.TAG_VERSION+"=\""+xes_util.VALUE_XES_VERSION+"\" "+xes_util.TAG_FEATURES+"=\""+xes_util.VALUE_XES_FEATURES+"\" "+xes_util.TAG_XMLNS+"=\""+xes_util.VALUE_XMLNS+"\">\n").encode(encoding))
     for ext_name, ext_value in log.extensions.items():
-        fp_obj.write((get_tab_indent(1) + "<extension name=\"%s\" prefix=\"%s\" uri=\"%s\" />\n" % (
-            ext_name, ext_value[xes_util.KEY_PREFIX], ext_value[xes_util.KEY_URI])).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<extension name=%s prefix=%s uri=%s />\n" % (
+            escape(ext_name), escape(ext_value[xes_util.KEY_PREFIX]),
+            escape(ext_value[xes_util.KEY_URI]))).encode(encoding))
     for clas_name, clas_attributes in log.classifiers.items():
-        fp_obj.write((get_tab_indent(1) + "<classifier name=\"%s\" keys=\"%s\" />\n" % (
-            clas_name, " ".join(clas_attributes))).encode(encoding))
+        if any(" " in x for x in clas_attributes):
+            clas_attributes = ["'" + x + "'" for x in clas_attributes]
+        fp_obj.write((get_tab_indent(1) + "<classifier name=%s keys=%s />\n" % (
+            escape(clas_name), escape(" ".join(clas_attributes)))).encode(encoding))
     for attr_name, attr_value in log.attributes.items():
         fp_obj.write(export_attribute(attr_name, attr_value, 1).encode(encoding))
     for scope in log.omni_present:
-        fp_obj.write((get_tab_indent(1) + "<global scope=\"%s\">\n" % (scope)).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<global scope=%s>\n" % (escape(scope))).encode(encoding))
         for attr_name, attr_value in log.omni_present[scope].items():
             fp_obj.write(export_attribute(attr_name, attr_value, 2).encode(encoding))
         fp_obj.write((get_tab_indent(1) + "</global>\n").encode(encoding))
diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 9ada6c9..2774a3e 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -16,6 +16,7 @@
 '''
 import codecs
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -94,7 +95,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                 idx = el.find(' ')
                 if idx > -1:
                     tag = el[:idx]
-                    el = el.split('\"')
+                    el = [html.unescape(x) if "&" in x else x for x in el.split('\"')]
                     el[-1] = el[-1].strip()
                     if tag == "string":
                         curr_els_attrs[-1][el[1]] = el[3]
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index a8ec29f..44c4508 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -70,12 +71,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
     value
         Value of the attribute
     """
-    key = content[1]
+    key = html.unescape(content[1])
     value = None
 
     if set_attributes_to_read is None or key in set_attributes_to_read:
         if tag.startswith("string"):
-            value = content[3]
+            value = html.unescape(content[3])
         elif tag.startswith("date"):
             value = date_parser.apply(content[3])
         elif tag.startswith("int"):
@@ -94,10 +95,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
             values_dict[key] = key
 
         # limits the number of different instantations of the same value
-        if value in values_dict:
-            value = values_dict[value]
+        # (values of different types can be equal, for example 1, 1.0 and True)
+        typed_value = (type(value), value)
+        if typed_value in values_dict:
+            value = values_dict[typed_value]
         else:
-            values_dict[value] = value
+            values_dict[typed_value] = value
 
     return key, value
 
-- 
2.43.0


From 3e2dc59b05b6fbd6c9adbcf2115ec3d95ba95da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 11/49] fix: .dfg export of start and end activities without
 arcs

---
 pm4py/objects/dfg/exporter/variants/classic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index e7bf5f0..247f568 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -60,7 +60,8 @@ def export_line_by_line(dfg, parameters=None):
         raise Exception(
             "error: impossible to determine automatically the end activities from the DFG. Please specify them manually through the END_ACTIVITIES parameter")
 
-    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)))
+    # start and end activities could have no incoming/outgoing arcs in the DFG
+    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)).union(start_activities).union(end_activities))
 
     yield "%d\n" % (len(activities))
     for act in activities:
-- 
2.43.0


From b0ad280ffb087872aeb836ce01399ceefe3b50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 12/49] fix: missing dates of a dataframe exported to XES as
 the string NaT

---
 pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py | 3 ++-
 pm4py/objects/log/exporter/xes/variants/line_by_line.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
index 7275fa7..3cce09b 100644
--- a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
+++ b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
@@ -194,7 +194,8 @@ def __export_attributes_element(log_element, xml_element):
         items = log_element.items()
 
     for attr, attr_value in items:
-        if attr is not None and attr_value is not None:
+        # missing dates of a dataframe (NaT) are not exported
+        if attr is not None and attr_value is not None and type(attr_value).__name__ != "NaTType":
             attr_type = type(attr_value).__name__
             attr_type_xes = __get_xes_attr_type(attr, attr_type)
             if attr_type is not None and attr_type_xes is not None:
diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 3e1da1d..6cd3e4e 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -140,7 +140,8 @@ def export_attribute(attr_name, attr_value, indent_level):
         String representing the content of the attribute
     """
     ret = []
-    if attr_name is not None and attr_value is not None:
+    # missing dates of a dataframe (NaT) are not exported
+    if attr_name is not None and attr_value is not None and type(attr_value).__name__ != "NaTType":
         attr_type = __get_xes_attr_type(attr_name, type(attr_value).__name__)
         if not attr_type == xes_util.TAG_LIST:
             attr_value = __get_xes_attr_value(attr_value, attr_type)
-- 
2.43.0


From 6501efb613e045c551b289d1c86095456059d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 13/49] fix: OCELs not readable, or with changed types, after
 an export: integers in XML, OCEL 2.0 without object changes in SQLite,
 changes of objects without attributes in JSON

---
 .../ocel/exporter/jsonocel/variants/ocel20_standard.py     | 2 ++
 pm4py/objects/ocel/exporter/xmlocel/variants/classic.py    | 2 ++
 pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py     | 4 ++++
 pm4py/objects/ocel/importer/sqlite/variants/ocel20.py      | 3 ++-
 pm4py/objects/ocel/importer/xmlocel/variants/classic.py    | 7 +++++++
 pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py     | 7 +++++++
 6 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
index 8849068..2d26e12 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
@@ -98,6 +98,8 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         oid = change["ocel:oid"]
         obj = json_object["objects"][obj_idx[oid]]
 
+        if "attributes" not in obj:
+            obj["attributes"] = []
         obj["attributes"].append(
             {"name": change["ocel:field"], "time": change["ocel:timestamp"], "value": change[change["ocel:field"]]})
 
diff --git a/pm4py/objects/ocel/exporter/xmlocel/variants/classic.py b/pm4py/objects/ocel/exporter/xmlocel/variants/classic.py
index 1ecc0e8..d6bcf5d 100644
--- a/pm4py/objects/ocel/exporter/xmlocel/variants/classic.py
+++ b/pm4py/objects/ocel/exporter/xmlocel/variants/classic.py
@@ -39,6 +39,8 @@ class Parameters(Enum):
 def get_type(t0):
     if "float" in str(t0).lower() or "double" in str(t0).lower():
         return "float"
+    elif "int" in str(t0).lower():
+        return "int"
     elif "date" in str(t0).lower():
         return "date"
     elif "object" in str(t0).lower():
diff --git a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
index dda1b26..e1d4acb 100644
--- a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
@@ -116,6 +116,8 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
                     this_type = "date"
                 elif "float" in v or "double" in v:
                     this_type = "float"
+                elif "int" in v:
+                    this_type = "integer"
                 object_type_attribute = etree.SubElement(object_type_attributes, "attribute")
                 object_type_attribute.set("name", k)
                 object_type_attribute.set("type", this_type)
@@ -132,6 +134,8 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
                     this_type = "date"
                 elif "float" in v or "double" in v:
                     this_type = "float"
+                elif "int" in v:
+                    this_type = "integer"
                 event_type_attribute = etree.SubElement(event_type_attributes, "attribute")
                 event_type_attribute.set("name", k)
                 event_type_attribute.set("type", this_type)
diff --git a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
index ad84a3a..d819202 100644
--- a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
@@ -132,7 +132,8 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None):
         objects = object_types_coll
         object_changes = None
 
-    del objects[event_timestamp]
+    if event_timestamp in objects:
+        del objects[event_timestamp]
     del objects[cumcount_field]
 
     E2O = pd.read_sql("SELECT * FROM event_object", conn)
diff --git a/pm4py/objects/ocel/importer/xmlocel/variants/classic.py b/pm4py/objects/ocel/importer/xmlocel/variants/classic.py
index 08fd9aa..8c033a9 100644
--- a/pm4py/objects/ocel/importer/xmlocel/variants/classic.py
+++ b/pm4py/objects/ocel/importer/xmlocel/variants/classic.py
@@ -42,6 +42,13 @@ class Parameters(Enum):
 def parse_xml(value, tag_str_lower, parser):
     if "float" in tag_str_lower:
         return float(value)
+    elif "int" in tag_str_lower:
+        for numeric_type in (int, float):
+            try:
+                return numeric_type(value)
+            except (TypeError, ValueError):
+                # not a literal of this type (for example, 1.0 or null)
+                pass
     elif "date" in tag_str_lower:
         return parser.apply(value)
     return str(value)
diff --git a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
index 69208d1..ffa3d6f 100644
--- a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
@@ -43,6 +43,13 @@ def parse_xml(value, tag_str_lower, parser):
         if value == "null":
             return 0
         return float(value)
+    elif "int" in tag_str_lower:
+        for numeric_type in (int, float):
+            try:
+                return numeric_type(value)
+            except (TypeError, ValueError):
+                # not a literal of this type (for example, 1.0 or null)
+                pass
     elif "date" in tag_str_lower:
         return embed_date_parser(parser.apply, value)
     return str(value)
-- 
2.43.0


From 723613535ea29db0e66602213c82f8dc53ce983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 14/49] fix: process trees having loops with an exit child
 changed by the PTML importer

---
 pm4py/objects/process_tree/importer/variants/ptml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/process_tree/importer/variants/ptml.py b/pm4py/objects/process_tree/importer/variants/ptml.py
index e672bed..94690b1 100644
--- a/pm4py/objects/process_tree/importer/variants/ptml.py
+++ b/pm4py/objects/process_tree/importer/variants/ptml.py
@@ -152,7 +152,8 @@ def import_tree_from_xml_object(root, parameters=None):
     # make sure that .PTML files having loops with 3 children are imported
     # into the PM4Py process tree structure
     # we want loops to have two children
-    for node in nodes.values():
+    for node_id in list(nodes):
+        node = nodes[node_id]
         if node.operator == Operator.LOOP and len(node.children) == 3:
             if not (node.children[2].operator is None and node.children[2].label is None):
                 parent_node = node.parent
@@ -162,9 +163,14 @@ def import_tree_from_xml_object(root, parameters=None):
                 node.children[2].parent = new_parent_node
                 new_parent_node.children.append(node.children[2])
                 if parent_node is not None:
+                    # keeps the position of the loop between its siblings
                     new_parent_node.parent = parent_node
-                    del parent_node.children[parent_node.children.index(node)]
-                    parent_node.children.append(new_parent_node)
+                    node_index = [x is node for x in parent_node.children].index(True)
+                    parent_node.children[node_index] = new_parent_node
+                elif node_id == root:
+                    # the sequence becomes the root of the process tree
+                    root = "sequence_" + node_id
+                    nodes[root] = new_parent_node
             del node.children[2]
 
     root = nodes[root]
-- 
2.43.0


From b3e8a6db2407048cda96689416b8ad79cb689e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 15/49] fix: a crash while exporting an OCEL to SQLite left a
 database importable without some of its data

---
 .../ocel/exporter/sqlite/variants/ocel20.py   | 25 ++++++++++++-
 .../sqlite/variants/pandas_exporter.py        | 37 ++++++++++++-------
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
index 79a91a8..417cd9d 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
@@ -29,7 +29,7 @@ class Parameters(Enum):
     ENABLE_NAMES_STRIPPING = "enable_names_stripping"
 
 
-def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = None):
+def __export_database(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
 
@@ -111,3 +111,26 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
         df.to_sql("object_"+ot_red, conn, index=False)
 
     conn.close()
+
+
+def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = None):
+    """
+    Exports an OCEL to an OCEL 2.0 SQLite database
+
+    Parameters
+    ---------------
+    ocel
+        Object-centric event log
+    file_path
+        Path to the SQLite database
+    parameters
+        Parameters of the exporter
+    """
+    # the tables are committed one by one: the database appears at the target path when all of them are there
+    temp_path = file_path + ".tmp"
+    try:
+        __export_database(ocel, temp_path, parameters=parameters)
+        os.replace(temp_path, file_path)
+    finally:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/pandas_exporter.py b/pm4py/objects/ocel/exporter/sqlite/variants/pandas_exporter.py
index a47de7c..ad867a7 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/pandas_exporter.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/pandas_exporter.py
@@ -21,19 +21,7 @@ from pm4py.objects.ocel.util import ocel_consistency
 import os
 
 
-def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = None):
-    """
-    Exports an OCEL to a SQLite database using Pandas
-
-    Parameters
-    ---------------
-    ocel
-        Object-centric event log
-    target_path
-        Path to the SQLite database
-    parameters
-        Parameters of the exporter
-    """
+def __export_database(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
 
@@ -51,3 +39,26 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
     ocel.objects.to_sql("OBJECTS", conn, index=False)
 
     conn.close()
+
+
+def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = None):
+    """
+    Exports an OCEL to a SQLite database using Pandas
+
+    Parameters
+    ---------------
+    ocel
+        Object-centric event log
+    target_path
+        Path to the SQLite database
+    parameters
+        Parameters of the exporter
+    """
+    # the tables are committed one by one: the database appears at the target path when all of them are there
+    temp_path = target_path + ".tmp"
+    try:
+        __export_database(ocel, temp_path, parameters=parameters)
+        os.replace(temp_path, target_path)
+    finally:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
-- 
2.43.0


From b7a4bb0050cad7007dba31f66f153bc23cc8eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 16/49] fix: one trace too many imported by the line-by-line
 XES importer with a maximum number of traces

---
 pm4py/objects/log/importer/xes/variants/line_by_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index 44c4508..c8f06fb 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -180,7 +180,7 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                 elif tag.startswith("/trace"):
                     log.append(trace)
                     tracecount += 1
-                    if tracecount > max_no_traces_to_import:
+                    if tracecount >= max_no_traces_to_import:
                         break
                     trace = None
             elif tag.startswith("trace"):
-- 
2.43.0


From 9e9d2ec825e74fa7522c49b917c0c228c3015332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 17/49] fix: resources of places exceeded, wrong occupation
 intervals and incomplete cases in the Monte Carlo simulation

---
 .../montecarlo/variants/petri_semaph_fifo.py  | 142 ++++++++++--------
 1 file changed, 83 insertions(+), 59 deletions(-)

diff --git a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
index 4d8fd64..3b7cd31 100644
--- a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
+++ b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
@@ -17,7 +17,8 @@
 from pm4py.statistics.traces.generic.log import case_arrival
 from pm4py.algo.simulation.montecarlo.utils import replay
 from pm4py.objects.petri_net.semantics import enabled_transitions, weak_execute
-from threading import Thread, Semaphore
+from threading import Thread, Semaphore, Lock
+from heapq import heappush, heappop
 from statistics import median
 from pm4py.objects.log.obj import Trace, Event
 from pm4py.util import xes_constants
@@ -96,8 +97,8 @@ class SimulationDiagnostics(Thread):
 
 class SimulationThread(Thread):
     def __init__(self, id, net, im, fm, map, start_time, places_interval_trees, transitions_interval_trees,
-                 cases_ex_time, list_cases, enable_diagnostics, diagn_interval, small_scale_factor,
-                 max_thread_exec_time):
+                 list_cases, enable_diagnostics, diagn_interval, small_scale_factor,
+                 max_thread_exec_time, intervals_lock):
         """
         Instantiates the object of the simulation
 
@@ -119,14 +120,14 @@ class SimulationThread(Thread):
             Dictionary of the interval trees related to the places
         transitions_interval_trees
             Dictionary of the interval trees related to the transitions
-        cases_ex_time
-            Cases execution time
         list_cases
             Dictionary of cases for each thread
         enable_diagnostics
             Enable the logging of diagnostics about the current execution
         diagn_interval
             Interval in which the diagnostics are printed
+        intervals_lock
+            Lock of the interval trees (that are shared between the simulation threads)
         """
         self.id = id
         self.net = net
@@ -138,12 +139,13 @@ class SimulationThread(Thread):
         self.sink = list(fm)[0]
         self.places_interval_trees = places_interval_trees
         self.transitions_interval_trees = transitions_interval_trees
-        self.cases_ex_time = cases_ex_time
+        self.case_ex_time = 0
         self.list_cases = list_cases
         self.enable_diagnostics = enable_diagnostics
         self.diagn_interval = diagn_interval
         self.small_scale_factor = small_scale_factor
         self.max_thread_exec_time = max_thread_exec_time
+        self.intervals_lock = intervals_lock
         self.internal_thread_start_time = 0
         self.terminated_correctly = False
         Thread.__init__(self)
@@ -151,6 +153,38 @@ class SimulationThread(Thread):
     def get_rem_time(self):
         return max(0, self.max_thread_exec_time - (time() - self.internal_thread_start_time))
 
+    def acquire_place(self, place):
+        """
+        Waits for a resource of the place
+
+        Parameters
+        -------------
+        place
+            Place
+
+        Returns
+        -------------
+        available_time
+            (Simulated) time from which the resource is available; None if it is not within the maximum execution
+            time of the thread
+        """
+        if place.semaphore.acquire(timeout=self.get_rem_time()):
+            return heappop(place.assigned_time)
+
+    def release_place(self, place, available_time):
+        """
+        Gives back a resource of the place
+
+        Parameters
+        -------------
+        place
+            Place
+        available_time
+            (Simulated) time from which the resource is available
+        """
+        heappush(place.assigned_time, available_time)
+        place.semaphore.release()
+
     def run(self):
         """
         Runs the thread
@@ -168,18 +202,18 @@ class SimulationThread(Thread):
         net, im, fm, smap, source, sink, start_time = self.net, self.im, self.fm, self.map, self.source, self.sink, self.start_time
         places_interval_trees = self.places_interval_trees
         transitions_interval_trees = self.transitions_interval_trees
-        cases_ex_time = self.cases_ex_time
 
         current_time = start_time
 
         self.internal_thread_start_time = time()
-        rem_time = self.get_rem_time()
 
-        acquired_places = set()
-        acquired = source.semaphore.acquire(timeout=rem_time)
-        if acquired:
-            acquired_places.add(source)
-        source.assigned_time.append(current_time)
+        # for each place, the times at which the tokens of the case (each holding a resource of the place) entered it
+        entry_times = {place: [] for place in net.places}
+        available_time = self.acquire_place(source)
+        timed_out = available_time is None
+        if not timed_out:
+            current_time = max(current_time, available_time)
+            entry_times[source].append(current_time)
 
         current_marking = im
         et = enabled_transitions(net, current_marking)
@@ -187,7 +221,7 @@ class SimulationThread(Thread):
         first_event = None
         last_event = None
 
-        while not fm <= current_marking or len(et) == 0:
+        while not timed_out and (not fm <= current_marking or len(et) == 0):
             et = list(enabled_transitions(net, current_marking))
             ct = stochastic_utils.pick_transition(et, smap)
 
@@ -198,30 +232,26 @@ class SimulationThread(Thread):
             # establish how much time we need to wait before firing the transition
             # (it depends on the input places tokens)
             waiting_time = 0
+            acquired_places = []
             for arc in ct.out_arcs:
-                place = arc.target
-                sem_value = int(place.semaphore._value)
-                rem_time = self.get_rem_time()
-                acquired = place.semaphore.acquire(timeout=rem_time)
-                if acquired:
-                    acquired_places.add(place)
-                rem_time = self.get_rem_time()
-                if rem_time == 0:
+                available_time = self.acquire_place(arc.target)
+                if available_time is not None:
+                    acquired_places.append((arc.target, available_time))
+                    waiting_time = max(waiting_time, available_time - current_time)
+                if available_time is None or self.get_rem_time() == 0:
+                    timed_out = True
                     break
-                if sem_value == 0:
-                    waiting_time = max(waiting_time,
-                                       place.assigned_time.pop(
-                                           0) - current_time) if place.assigned_time else waiting_time
-
-            if rem_time == 0:
-                for place in acquired_places:
-                    place.semaphore.release()
+
+            if timed_out:
+                for place, available_time in acquired_places:
+                    self.release_place(place, available_time)
                 break
 
             # if the waiting time is greater than 0, add an interval to the interval tree denoting
             # the waiting times for the given transition
             if waiting_time > 0:
-                transitions_interval_trees[ct].add(Interval(current_time, current_time + waiting_time))
+                with self.intervals_lock:
+                    transitions_interval_trees[ct].add(Interval(current_time, current_time + waiting_time))
 
             # get the actual execution time of the transition as a difference between simulated_execution_plus_waiting_time
             # and the waiting time
@@ -230,10 +260,8 @@ class SimulationThread(Thread):
             # increase the timing based on the waiting time and the execution time of the transition
             current_time = current_time + waiting_time + execution_time
 
-            for arc in ct.out_arcs:
-                place = arc.target
-                place.assigned_time.append(current_time)
-                place.assigned_time = sorted(place.assigned_time)
+            for place, available_time in acquired_places:
+                entry_times[place].append(current_time)
 
             current_marking = weak_execute(ct, current_marking)
 
@@ -247,35 +275,31 @@ class SimulationThread(Thread):
 
             for arc in ct.in_arcs:
                 place = arc.source
-                p_ex_time = place.assigned_time.pop(0)
+                p_ex_time = entry_times[place].pop(0)
                 if current_time - p_ex_time > 0:
-                    places_interval_trees[place].add(Interval(p_ex_time, current_time))
-                place.assigned_time.append(current_time)
-                place.assigned_time = sorted(place.assigned_time)
-                place.semaphore.release()
+                    with self.intervals_lock:
+                        places_interval_trees[place].add(Interval(p_ex_time, current_time))
+                self.release_place(place, current_time)
 
             # sleep before starting next iteration
             sleep((waiting_time + execution_time) / self.small_scale_factor)
 
         if first_event is not None and last_event is not None:
-            cases_ex_time.append(last_event[xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp() - first_event[
-                xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp())
-        else:
-            cases_ex_time.append(0)
-
-        places_to_free = set(current_marking).union(acquired_places)
+            self.case_ex_time = last_event[xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp() - first_event[
+                xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp()
 
-        for place in places_to_free:
-            place.semaphore.release()
+        for place in entry_times:
+            for entry_time in entry_times[place]:
+                self.release_place(place, current_time)
 
         rem_time = self.get_rem_time()
-        if rem_time > 0:
+        if rem_time > 0 and not timed_out:
             self.terminated_correctly = True
             if self.enable_diagnostics:
                 logger.info(str(time()) + " terminated successfully thread ID " + str(self.id))
 
         if self.enable_diagnostics:
-            if rem_time == 0:
+            if not self.terminated_correctly:
                 if self.enable_diagnostics:
                     logger.info(str(time()) + " terminated for timeout thread ID " + str(self.id))
 
@@ -369,7 +393,6 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
 
     places_interval_trees = {}
     transitions_interval_trees = {}
-    cases_ex_time = []
     list_cases = {}
 
     for place in net.places:
@@ -380,7 +403,8 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
             # if the user does not specify the number of resources per place,
             # the default number is used
             place.semaphore = Semaphore(default_num_resources_per_places)
-        place.assigned_time = []
+        # times from which the resources of the place are available
+        place.assigned_time = [0] * place.semaphore._value
         places_interval_trees[place] = IntervalTree()
     for trans in net.transitions:
         transitions_interval_trees[trans] = IntervalTree()
@@ -400,12 +424,13 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
 
     # the start timestamp is set to 1000000 instead of 0 to avoid problems with 32 bit machines
     start_time = 1000000
+    intervals_lock = Lock()
     threads = []
     for i in range(no_simulations):
         list_cases[i] = Trace()
         t = SimulationThread(i, net, im, fm, smap, start_time, places_interval_trees, transitions_interval_trees,
-                             cases_ex_time, list_cases, enable_diagnostics, diagn_interval, small_scale_factor,
-                             max_thread_exec_time)
+                             list_cases, enable_diagnostics, diagn_interval, small_scale_factor,
+                             max_thread_exec_time, intervals_lock)
         t.start()
         threads.append(t)
         start_time = start_time + case_arrival_ratio
@@ -420,7 +445,6 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
         if threads[i].terminated_correctly is False:
             del list_cases[threads[i].id]
             del threads[i]
-            del cases_ex_time[i]
             continue
         i = i + 1
 
@@ -428,14 +452,14 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
         logger.info(str(time()) + " ended the Monte carlo simulation.")
 
     log = EventLog(list(list_cases.values()))
-    min_timestamp = log[0][0][timestamp_key].timestamp()
-    max_timestamp = max(y[timestamp_key].timestamp() for x in log for y in x)
+    cases_ex_time = [t.case_ex_time for t in threads]
+    timestamps = [y[timestamp_key].timestamp() for x in log for y in x]
 
     transitions_interval_trees = {t.name: y for t, y in transitions_interval_trees.items()}
 
     return log, {Outputs.OUTPUT_PLACES_INTERVAL_TREES.value: places_interval_trees,
                  Outputs.OUTPUT_TRANSITIONS_INTERVAL_TREES.value: transitions_interval_trees,
                  Outputs.OUTPUT_CASES_EX_TIME.value: cases_ex_time,
-                 Outputs.OUTPUT_MEDIAN_CASES_EX_TIME.value: median(cases_ex_time),
+                 Outputs.OUTPUT_MEDIAN_CASES_EX_TIME.value: median(cases_ex_time) if cases_ex_time else 0,
                  Outputs.OUTPUT_CASE_ARRIVAL_RATIO.value: case_arrival_ratio,
-                 Outputs.OUTPUT_TOTAL_CASES_TIME.value: max_timestamp - min_timestamp}
+                 Outputs.OUTPUT_TOTAL_CASES_TIME.value: max(timestamps) - min(timestamps) if timestamps else 0}
-- 
2.43.0


From 1fa5d178d0814e118a89bb5c6a887e1ebdfce43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 18/49] fix: incomplete traces in the playout of process trees
 with or operators, or with parallel loops

---
 pm4py/objects/process_tree/semantics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index 3bfa691..323046e 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -157,7 +157,7 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
     if len(vertex.children) > 0:
         if vertex.operator is pt_opt.Operator.LOOP:
             while len(vertex.children) < 3:
-                vertex.children.append(ProcessTree(parent=vertex))
+                vertex.children.append(GenerationTree(ProcessTree(parent=vertex)))
         if vertex.operator is pt_opt.Operator.SEQUENCE or vertex.operator is pt_opt.Operator.LOOP:
             c = vertex.children[0]
             enabled.add(c)
@@ -175,10 +175,14 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
             execution_sequence.append((c, pt_st.State.ENABLED))
         elif vertex.operator is pt_opt.Operator.OR:
             some_children = [c for c in vertex.children if random.random() < 0.5]
+            if not some_children:
+                # at least one child shall be executed
+                some_children = [random.choice(vertex.children)]
             enabled |= set(some_children)
+            # the other children are not waited for
+            closed |= set(vertex.children)
             for x in some_children:
-                if x in closed:
-                    closed.remove(x)
+                closed.remove(x)
             map(lambda c: execution_sequence.append((c, pt_st.State.ENABLED)), some_children)
         elif vertex.operator is pt_opt.Operator.INTERLEAVING:
             random.shuffle(vertex.children)
-- 
2.43.0


From c6ec7e7d73394751169c04945fc58d2c30907f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 19/49] fix: exit part of loops, or operators and changes to
 the tree in the top-bottom playout of process trees

---
 .../playout/process_tree/variants/topbottom.py    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 8aeabdf..89f68fe 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -140,9 +140,8 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.INTERLEAVING:
-        random.shuffle(tree.children)
         ret = []
-        for child in tree.children:
+        for child in random.sample(tree.children, len(tree.children)):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.LOOP:
@@ -155,12 +154,20 @@ def get_ex_seq(tree):
             if r <= 0.5:
                 ret = ret + get_ex_seq(tree.children[1])
                 cont = True
+        if len(tree.children) > 2:
+            ret = ret + get_ex_seq(tree.children[2])
         return ret
-    elif tree.operator is Operator.PARALLEL:
+    elif tree.operator is Operator.PARALLEL or tree.operator is Operator.OR:
         ret = []
         children_traces = []
         list_choices = []
-        for index, child in enumerate(tree.children):
+        children = tree.children
+        if tree.operator is Operator.OR:
+            # at least one child is executed
+            children = [child for child in tree.children if random.random() < 0.5]
+            if not children:
+                children = [random.choice(tree.children)]
+        for index, child in enumerate(children):
             trace = get_ex_seq(child)
             children_traces.append(trace)
             list_choices += [index] * len(trace)
-- 
2.43.0


From c911a84c590c459a9aab824dde6a14a9e94fc4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 20/49] fix: extensive playout of process trees ignoring the
 bounds on the length and the exit part of loops, or failing on equal subtrees

---
 .../process_tree/variants/extensive.py        | 13 +++++----
 pm4py/objects/process_tree/utils/bottomup.py  | 28 ++++++-------------
 2 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
index a47df0b..4f43b75 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
@@ -222,6 +222,7 @@ def get_playout_loop(node, playout_dictio, min_trace_length, max_trace_length, m
     final_traces = set()
     do_traces = sorted(list(playout_dictio[node.children[0]][TRACES]), key=lambda x: len(x))
     redo_traces = sorted(list(playout_dictio[node.children[1]][TRACES]), key=lambda x: len(x))
+    exit_traces = sorted(list(playout_dictio[node.children[2]][TRACES]), key=lambda x: len(x)) if len(node.children) > 2 else [()]
     min_do_trace = min(len(x) for x in do_traces) if do_traces else 0
     to_visit = list((x, 0, 0) for x in do_traces)
     closed = set()
@@ -238,10 +239,11 @@ def get_playout_loop(node, playout_dictio, min_trace_length, max_trace_length, m
                 continue
             closed.add(curr_trace)
 
-            if diff3 <= len(curr_trace) <= diff1:
-                final_traces.add(curr_trace)
-                if len(final_traces) > max_limit_num_traces:
-                    break
+            for y in exit_traces:
+                if diff3 <= len(curr_trace) + len(y) <= diff1:
+                    final_traces.add(curr_trace + y)
+            if len(final_traces) > max_limit_num_traces:
+                break
 
             for y in redo_traces:
                 new = curr_trace + y
@@ -327,7 +329,8 @@ def apply(tree: ProcessTree, parameters : Optional[Dict[Union[str, Parameters],
     for i in range(len(bottomup)):
         get_playout(bottomup[i], playout_dictio, min_trace_length, max_trace_length, max_loop_occ, min_rem_dict,
                     max_rem_dict, max_limit_num_traces)
-    tree_playout_traces = playout_dictio[tree][TRACES]
+    # the bounds on the traces of the single nodes are only an approximation of the ones on the traces of the tree
+    tree_playout_traces = set(x for x in playout_dictio[tree][TRACES] if min_trace_length <= len(x) <= max_trace_length)
 
     if return_set_strings:
         return tree_playout_traces
diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index df0b9e1..2db8434 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -188,7 +188,8 @@ def get_min_length_dict(node, min_length_dict):
     elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE or node.operator == Operator.OR:
         min_length_dict[node] = sum(min_length_dict[x] for x in node.children)
     elif node.operator == Operator.LOOP:
-        min_length_dict[node] = min_length_dict[node.children[0]]
+        # the redo part is not necessarily executed, the exit part is
+        min_length_dict[node] = sum(min_length_dict[x] for x in node.children) - min_length_dict[node.children[1]]
 
 
 def get_bottomup_nodes(tree, parameters=None):
@@ -210,27 +211,14 @@ def get_bottomup_nodes(tree, parameters=None):
     if parameters is None:
         parameters = {}
 
+    # parents are visited before their children, hence the reverse order is bottomup
     to_visit = [tree]
-    all_nodes = set()
-    while len(to_visit) > 0:
-        n = to_visit.pop(0)
-        all_nodes.add(n)
-        for child in n.children:
-            to_visit.append(child)
-    # starts to visit the tree from the leafs
-    bottomup = [x for x in all_nodes if len(x.children) == 0]
-    # then add iteratively the parent
     i = 0
-    while i < len(bottomup):
-        parent = bottomup[i].parent
-        if parent is not None and parent not in bottomup:
-            is_ok = True
-            for child in parent.children:
-                if not child in bottomup:
-                    is_ok = False
-                    break
-            if is_ok:
-                bottomup.append(parent)
+    while i < len(to_visit):
+        to_visit.extend(to_visit[i].children)
         i = i + 1
+    # equal nodes (e.g., different nodes with the same label) are considered once
+    all_nodes = list(dict.fromkeys(reversed(to_visit)))
+    bottomup = [x for x in all_nodes if len(x.children) == 0] + [x for x in all_nodes if len(x.children) > 0]
 
     return bottomup
-- 
2.43.0


From 6ebeaa3c2c3a0c4da46bdbc60320ecbd9d41c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 21/49] fix: PTAndLogGenerator honours enum parameters, does
 not modify them, and its duplication terminates

---
 .../variants/ptandloggenerator.py             | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
index 405615b..d8f2b7b 100644
--- a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
+++ b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
@@ -88,6 +88,11 @@ def apply(parameters: Optional[Dict[Union[str, Parameters], Any]] = None) -> obj
     if parameters is None:
         parameters = {}
 
+    # both the names of the parameters and the elements of the Parameters enum are accepted
+    # (the dictionary provided by the caller is not modified)
+    parameters = {param.value if isinstance(param, Parameters) else param: value for param, value in
+                  parameters.items()}
+
     if not "mode" in parameters:
         parameters["mode"] = 20
     if not "min" in parameters:
@@ -194,15 +199,16 @@ class GeneratedTree(object):
                     leaves_with_label.append(leaf)
             # generate random list of duplicates
             duplicates = []
-            for leaf in leaves:
+            for leaf in leaves_with_label:
                 if random.random() < self.parameters["duplicate"]:
                     duplicates.append(leaf)
-            if len(duplicates) > 0:
-                # select potential leaves to replace them by duplicates
-                possible_replacements = []
-                for leaf in leaves:
-                    if leaf not in duplicates:
-                        possible_replacements.append(leaf)
+            # select potential leaves to replace them by duplicates
+            possible_replacements = []
+            for leaf in leaves_with_label:
+                if leaf not in duplicates:
+                    possible_replacements.append(leaf)
+            if len(possible_replacements) == 0:
+                duplicates = []
             for leaf in duplicates:
                 i = 0
                 siblings = []
@@ -217,6 +223,7 @@ class GeneratedTree(object):
                     if replacement not in siblings:
                         replacement._label = leaf._label
                         break
+                    i += 1
 
     def add_node(self):
         leaves = self.tree._get_leaves()
-- 
2.43.0


From 0da2f339f907a907fcafd07b425ca42e48f7b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 22/49] fix: sample_events returns the whole dataframe when
 more events are requested than it contains

---
 pm4py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index 92f72a1..bb87b2a 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -529,7 +529,7 @@ def sample_events(log: Union[EventStream, OCEL], num_events: int) -> Union[Event
         from pm4py.objects.ocel.util import sampling
         return sampling.sample_ocel_events(log, parameters={"num_entities": num_events})
     elif check_is_pandas_dataframe(log):
-        return log.sample(n=num_events)
+        return log.sample(n=min(num_events, len(log)))
 
 
 def __event_log_deprecation_warning(log):
-- 
2.43.0


From ec395c09b22745b4ec06a0d2c79c02693d779d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 23/49] fix: fitness of alignments depending on parameters left
 behind by an earlier call, or wrong with the less-memory Dijkstra

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 9 ++++++++-
 .../petri_net/variants/dijkstra_less_memory.py           | 1 +
 .../petri_net/variants/dijkstra_no_heuristics.py         | 3 +++
 .../alignments/petri_net/variants/discounted_a_star.py   | 1 +
 .../petri_net/variants/state_equation_a_star.py          | 3 +++
 .../petri_net/variants/tweaked_state_equation_a_star.py  | 3 +++
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 43cb8a9..93a423d 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -145,7 +145,10 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
     ali = exec_utils.get_variant(variant).apply(trace, petri_net, initial_marking, final_marking,
                                                  parameters=parameters)
 
-    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, [])
+    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
+    if trace_cost_function is None:
+        # default cost function of the variants
+        trace_cost_function = [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace) if variant != Variants.VERSION_DISCOUNTED_A_STAR else []
     # Instead of using the length of the trace, use the sum of the trace cost function
     trace_cost_function_sum = sum(trace_cost_function)
 
@@ -195,6 +198,8 @@ def apply_log(log, petri_net, initial_marking, final_marking, parameters=None, v
     """
     if parameters is None:
         parameters = dict()
+    # the parameters of the caller are not changed
+    parameters = copy(parameters)
 
     if solver.DEFAULT_LP_SOLVER_VARIANT is not None:
         if not check_soundness.check_easy_soundness_net_in_fin_marking(petri_net, initial_marking, final_marking):
@@ -256,6 +261,8 @@ def apply_multiprocessing(log, petri_net, initial_marking, final_marking, parame
     """
     if parameters is None:
         parameters = {}
+    # the parameters of the caller are not changed
+    parameters = copy(parameters)
 
     import multiprocessing
 
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..2e5d56f 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -141,6 +141,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
                                                 sys.maxsize)
     max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
                                                       sys.maxsize)
+    parameters = copy(parameters)
     dictio_alignments = {}
     for varitem in var_list:
         this_max_align_time = min(max_align_time_trace, (max_align_time - (time.time() - start_time)) * 0.5)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
index dadf6c3..420200d 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
@@ -105,6 +105,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # the parameters of the caller are not changed
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
@@ -212,6 +214,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
                                                 sys.maxsize)
     max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
                                                       sys.maxsize)
+    parameters = copy(parameters)
     dictio_alignments = {}
     for varitem in var_list:
         this_max_align_time = min(max_align_time_trace, (max_align_time - (time.time() - start_time)) * 0.5)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index cc9ddbd..21ce4b2 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -231,6 +231,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
                                                 sys.maxsize)
     max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
                                                       sys.maxsize)
+    parameters = copy(parameters)
     dictio_alignments = {}
     for varitem in var_list:
         this_max_align_time = min(max_align_time_trace, (max_align_time - (time.time() - start_time)) * 0.5)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
index c33526f..ae336ad 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
@@ -129,6 +129,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # the parameters of the caller are not changed
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
@@ -258,6 +260,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
                                                 sys.maxsize)
     max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
                                                       sys.maxsize)
+    parameters = copy(parameters)
     dictio_alignments = {}
     for varitem in var_list:
         this_max_align_time = min(max_align_time_trace, (max_align_time - (time.time() - start_time)) * 0.5)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..527c03a 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -115,6 +115,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # the parameters of the caller are not changed
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
@@ -250,6 +252,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
                                                 sys.maxsize)
     max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
                                                       sys.maxsize)
+    parameters = copy(parameters)
     dictio_alignments = {}
     for varitem in var_list:
         this_max_align_time = min(max_align_time_trace, (max_align_time - (time.time() - start_time)) * 0.5)
-- 
2.43.0


From 64864dba219654639f75684c4564d1978fd0c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 24/49] fix: fitness 0 of the empty trace aligned with a model
 accepting it

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 93a423d..7e4df53 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -161,7 +161,11 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
 
             fitness_num = ali['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
             fitness_den = ltrace_bwc // align_utils.STD_MODEL_LOG_MOVE_COST
-            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 0
+            if fitness_den > 0:
+                fitness = 1 - fitness_num / fitness_den
+            else:
+                # nothing to align (empty trace, model accepting the empty trace): perfect fitness
+                fitness = 1.0 if variant != Variants.VERSION_DISCOUNTED_A_STAR else 0
 
             ali["fitness"] = fitness
             # returning also the best worst cost, for log fitness computation
-- 
2.43.0


From d73ddadfa46258a1c8abdec3429e60b1cbee6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 25/49] fix: non-optimal alignments of the less-memory Dijkstra

---
 .../petri_net/variants/dijkstra_less_memory.py       | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index 2e5d56f..c1ef1a3 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -477,9 +477,9 @@ def __check_closed(closed, ns):
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed and closed[ns[0]] <= ns[1]:
-        return True
-    return False
+    # the same marking reached at another position of the trace is another state: a state closer
+    # to the end of the trace may leave more model moves to do
+    return ns in closed
 
 
 def __add_closed(closed, ns):
@@ -493,7 +493,7 @@ def __add_closed(closed, ns):
     ns
         New state (marking, index)
     """
-    closed[ns[0]] = ns[1]
+    closed.add(ns)
 
 
 def __add_to_open_set(open_set, ns):
@@ -594,7 +594,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     open_set = [initial_state]
     heapq.heapify(open_set)
 
-    closed = {}
+    closed = set()
     dummy_count = 0
     visited = 0
 
@@ -641,8 +641,6 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                # if a sync move reached new_m, do not schedule any model move that reaches new_m
-                this_closed.add(new_m)
                 del en_t[j]
                 continue
             j = j + 1
-- 
2.43.0


From 0bfe3d6c80fdadf12159bb35cb2fd630c3a38cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 26/49] fix: parallel alignments and precision: fitness of
 process tree alignments, parameters of the caller, machines with few cores

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py  | 4 +++-
 .../alignments/process_tree/variants/search_graph_pt.py   | 8 ++++----
 pm4py/algo/discovery/inductive/variants/abc.py            | 2 +-
 .../evaluation/precision/variants/align_etconformance.py  | 4 ++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 7e4df53..14edd8c 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -75,6 +75,8 @@ def __variant_mapper(variant):
             variant = Variants.VERSION_DIJKSTRA_NO_HEURISTICS
         elif variant == "Variants.VERSION_DIJKSTRA_LESS_MEMORY":
             variant = Variants.VERSION_DIJKSTRA_LESS_MEMORY
+        elif variant == "Variants.VERSION_DISCOUNTED_A_STAR":
+            variant = Variants.VERSION_DISCOUNTED_A_STAR
 
     return variant
 
@@ -272,7 +274,7 @@ def apply_multiprocessing(log, petri_net, initial_marking, final_marking, parame
 
     variant = __variant_mapper(variant)
 
-    num_cores = exec_utils.get_param_value(Parameters.CORES, parameters, multiprocessing.cpu_count() - 2)
+    num_cores = exec_utils.get_param_value(Parameters.CORES, parameters, max(1, multiprocessing.cpu_count() - 2))
 
     enable_best_worst_cost = exec_utils.get_param_value(Parameters.ENABLE_BEST_WORST_COST, parameters, True)
 
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9614676..b51442e 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -221,7 +221,7 @@ def align_variant(variant, tree_leaf_set, pt):
 def _apply_variant(variant, tree, leaves, bwc, parameters=None):
     alignment_obj = align_variant(variant, leaves, tree)
     ltrace_bwc = len(variant) + bwc
-    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
     return alignment_obj
 
 
@@ -306,7 +306,7 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
 
     leaves = frozenset(pt_util.get_leaves_as_tuples(pt))
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    num_cores = exec_utils.get_param_value(Parameters.CORES, parameters, multiprocessing.cpu_count() - 2)
+    num_cores = exec_utils.get_param_value(Parameters.CORES, parameters, max(1, multiprocessing.cpu_count() - 2))
 
     if type(obj) is Trace:
         variant = tuple(x[activity_key] for x in obj)
@@ -347,8 +347,8 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
             for variant in traces:
                 if variant not in align_dict:
                     al = futures[variant].result()
-                    ltrace_bwc = len(trace) + best_worst_cost
-                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+                    ltrace_bwc = len(variant) + best_worst_cost
+                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
                     align_dict[variant] = al
                 ret.append(align_dict[variant])
             _destroy_progress_bar(progress)
diff --git a/pm4py/algo/discovery/inductive/variants/abc.py b/pm4py/algo/discovery/inductive/variants/abc.py
index 5031602..8d5adde 100644
--- a/pm4py/algo/discovery/inductive/variants/abc.py
+++ b/pm4py/algo/discovery/inductive/variants/abc.py
@@ -54,7 +54,7 @@ class InductiveMinerFramework(ABC, Generic[T]):
         if enable_multiprocessing:
             from multiprocessing import Pool, Manager
 
-            self._pool = Pool(os.cpu_count() - 1)
+            self._pool = Pool(max(1, os.cpu_count() - 1))
             self._manager = Manager()
             self._manager.support_list = []
         else:
diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 074aff5..efb2a64 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -265,13 +265,13 @@ def __align_log_wo_multiprocessing_stop_marking(fake_log, net, marking, final_ma
 
 
 def __align_log_with_multiprocessing_stop_marking(fake_log, net, marking, final_marking, progress, parameters=None):
-    if parameters is not None:
+    if parameters is None:
         parameters = {}
 
     import multiprocessing
     from concurrent.futures import ProcessPoolExecutor
 
-    num_cores = exec_utils.get_param_value(Parameters.CORES, parameters, multiprocessing.cpu_count() - 2)
+    num_cores = exec_utils.get_param_value(Parameters.CORES, parameters, max(1, multiprocessing.cpu_count() - 2))
     align_intermediate_result = []
     with ProcessPoolExecutor(max_workers=num_cores) as executor:
         futures = []
-- 
2.43.0


From 520bb105333a83795c73970a34edeb8465024a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 27/49] fix: tree discovered with multiprocessing depending on
 the speed of the workers, or never returned when one fails

---
 .../fall_through/activity_concurrent.py       | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/fall_through/activity_concurrent.py b/pm4py/algo/discovery/inductive/fall_through/activity_concurrent.py
index c6856a5..3b311e6 100644
--- a/pm4py/algo/discovery/inductive/fall_through/activity_concurrent.py
+++ b/pm4py/algo/discovery/inductive/fall_through/activity_concurrent.py
@@ -36,14 +36,12 @@ class ActivityConcurrentUVCL(FallThrough[IMDataStructureUVCL]):
     MULTI_PROCESSING_LOWER_BOUND = 20
 
     @classmethod
-    def _process_candidate(cls, c: Any, log: UVCL, queue=None, ev=None, parameters: Optional[Dict[str, Any]] = None):
+    def _process_candidate(cls, c: Any, log: UVCL, ev=None, parameters: Optional[Dict[str, Any]] = None):
         l_alt = Counter()
         for t in log:
             l_alt[tuple(filter(lambda e: e != c, t))] = log[t]
         cut = cls._find_cut(IMDataStructureUVCL(l_alt), ev, parameters=parameters)
-        if queue is not None:
-            queue.put((c, cut))
-        return cut if cut is not None else None
+        return cut
 
     @classmethod
     def _get_candidate(cls, obj: IMDataStructureUVCL, pool, manager, parameters: Optional[Dict[str, Any]] = None) -> Optional[Any]:
@@ -60,22 +58,20 @@ class ActivityConcurrentUVCL(FallThrough[IMDataStructureUVCL]):
                 if cut is not None:
                     return a
         else:
-            q = manager.Queue()
             ev = manager.Event()
             # avoid dangerous freealloc from Python's garbage collector
-            manager.support_list.append(q)
             manager.support_list.append(ev)
 
-            for a in candidates:
-                pool.apply_async(cls._process_candidate, (a, log, q, ev, parameters))
-            potentials = set(candidates)
-            while len(potentials) > 0:
-                (c, cut) = q.get(block=True)
-                if cut is None:
-                    potentials.remove(c)
-                else:
-                    ev.set()
-                    return c
+            # the results are considered in the order of the candidates: the same candidate is chosen
+            # as without multiprocessing, and the exceptions of the workers are raised here
+            results = [(a, pool.apply_async(cls._process_candidate, (a, log, ev, parameters))) for a in candidates]
+            try:
+                for a, result in results:
+                    if result.get() is not None:
+                        return a
+            finally:
+                # stops the workers which are still looking for a cut
+                ev.set()
 
         return None
 
-- 
2.43.0


From 24bccb5e1f7e20e10867e6033591afdad102c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 28/49] fix: alignments of the tweaked A* which are no run of
 the model, or not optimal

---
 .../variants/tweaked_state_equation_a_star.py | 31 +++++++++++++++++--
 pm4py/objects/petri_net/utils/align_utils.py  |  9 +++---
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index 527c03a..d49ec48 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -411,7 +411,7 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
     # try to see if the firing sequence is already fine
     firing_sequence, reach_fm, explained_events = me.get_firing_sequence(x)
-    if reach_fm:
+    if reach_fm and __is_solution(firing_sequence, ini, fin, cost_function, h):
         return __reconstruct_alignment(firing_sequence, h, visited, queued, traversed,
                                        ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
     mm, index = __get_model_marking_and_index(ini)
@@ -437,6 +437,8 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
             already_closed = current_marking in closed
             if already_closed:
+                if not open_set:
+                    return None
                 curr = heapq.heappop(open_set)
                 current_marking = curr.m
                 continue
@@ -448,6 +450,11 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             else:
                 mtcgt = mtcgt_dict[curr.t]
 
+            if mtcgt is None:
+                # the final marking is not reachable through the transition
+                closed.add(current_marking)
+                continue
+
             h1 = max(mtcgt - curr.g, 0)
             if h1 > curr.h:
                 tp = utils.TweakedSearchTuple(curr.g + h1, curr.g, h1, curr.m, curr.p, curr.t, curr.x, False, False)
@@ -466,6 +473,11 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             me.change_ini_vec(curr.m)
             h, x = me.solve()
 
+            if h is None:
+                # the final marking is not reachable from the marking
+                closed.add(current_marking)
+                continue
+
             __update_heu_dict_specific_point(heu_dict, heu_max_ind_dict, mm, index, h, x)
 
             lp_solved += 1
@@ -485,12 +497,12 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
         if curr.virgin:
             # try to see if the firing sequence is already fine
             firing_sequence, reach_fm, explained_events = me.get_firing_sequence(curr.x)
-            if reach_fm:
+            if reach_fm and __is_solution(firing_sequence, curr.m, fin, cost_function, curr.h):
                 trans_list = __transitions_list_from_state(curr) + list(firing_sequence)
                 return __reconstruct_alignment(trans_list, curr.f, visited, queued, traversed,
                                                ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
             mm, index = __get_model_marking_and_index(curr.m)
-            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec)
+            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, curr.h, curr.x, firing_sequence, incidence_matrix, cost_vec)
 
         closed.add(current_marking)
         visited += 1
@@ -531,6 +543,19 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             heapq.heappush(open_set, tp)
 
 
+def __is_solution(firing_sequence, ini, fin, cost_function, h):
+    """
+    Checks that a firing sequence, obtained from the (rounded) solution of the marking equation, leads
+    from the initial to the final marking at the cost of the solution
+    """
+    marking = ini
+    for t in firing_sequence:
+        if not t.sub_marking <= marking:
+            return False
+        marking = semantics.weak_execute(t, marking)
+    return marking == fin and sum(cost_function[t] for t in firing_sequence) < h + 1
+
+
 def __min_total_cost_given_trans(mark_eq, ini, incidence_matrix, t):
     """
     Searches the minimum total cost assumed by the marking equation
diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index a3a660f..749e4d0 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -83,16 +83,15 @@ def search_path_among_sol(sync_net: PetriNet, ini: Marking, fin: Marking,
         marking = curr[2]
         if marking in closed:
             continue
-        if index == len_trace_with_index:
+        if index == len_trace_with_index and marking == fin:
             reach_fm = True
-            if curr[0] < best_tuple[0]:
-                best_tuple = curr
+            best_tuple = curr
             break
         if curr[0] < best_tuple[0]:
             best_tuple = curr
         closed.add(marking)
-        corr_trans = trans_with_index[index]
-        if corr_trans.sub_marking <= marking:
+        corr_trans = trans_with_index[index] if index < len_trace_with_index else None
+        if corr_trans is not None and corr_trans.sub_marking <= marking:
             visited += 1
             new_marking = semantics.weak_execute(corr_trans, marking)
             heapq.heappush(open_set, (-index-1, visited, new_marking, curr[3]+[corr_trans]))
-- 
2.43.0


From a7782d1fbc5c190e019f7f36e24f46a62bd7939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 29/49] fix: arc weights ignored by the synchronous product and
 the incidence matrix; alignments of process trees and DFGs not explaining the
 trace

---
 .../alignments/dfg/variants/classic.py        | 20 ++++-----
 .../util/search_graph_pt_replay_semantics.py  |  6 ++-
 .../process_tree/variants/search_graph_pt.py  | 43 +++++++------------
 .../petri_net/utils/incidence_matrix.py       |  4 +-
 .../petri_net/utils/synchronous_product.py    | 20 ++++-----
 5 files changed, 41 insertions(+), 52 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index a499a86..6a10af7 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -487,18 +487,16 @@ def __return_alignment(state, trace, closed):
     visited = state[POSITION_NUM_VISITED]
     moves = []
     while state[POSITION_PREV] is not None:
-        state = state[POSITION_PREV]
-        is_lm = state[POSITION_IS_LM]
-        is_mm = state[POSITION_IS_MM]
+        prev = state[POSITION_PREV]
         pl = -state[POSITION_LOG] - 1
-        if pl >= 0:
-            lm = ">>"
-            mm = ">>"
-            if not is_lm:
-                mm = state[POSITION_MODEL]
-            if not is_mm:
-                lm = trace[pl]
-            moves.append((lm, mm))
+        if state[POSITION_IS_MM]:
+            moves.append((">>", state[POSITION_MODEL]))
+        elif state[POSITION_IS_LM]:
+            moves.append((trace[pl], ">>"))
+        elif state[POSITION_LOG] != prev[POSITION_LOG]:
+            moves.append((trace[pl], state[POSITION_MODEL]))
+        # otherwise, the step leads to the end node
+        state = prev
     moves.reverse()
 
     return {Outputs.ALIGNMENT.value: moves, Outputs.COST.value: cost, Outputs.VISITED.value: visited,
diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index aba4767..acfb7e0 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -58,8 +58,10 @@ def can_enable(tree: ProcessTree, state: ProcessTreeState) -> bool:
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
                     ProcessTree.OperatorState.FUTURE}
             elif ptu.is_operator(tree.parent, Operator.SEQUENCE):
-                return True if tree.parent.children.index(tree) == 0 else ptu.is_in_state(
-                    tree.parent.children[tree.parent.children.index(tree) - 1],
+                # position of the node itself (siblings with the same label are equal to it)
+                idx = next(i for i, child in enumerate(tree.parent.children) if child is tree)
+                return True if idx == 0 else ptu.is_in_state(
+                    tree.parent.children[idx - 1],
                     ProcessTree.OperatorState.CLOSED, state)
             elif ptu.is_operator(tree.parent, Operator.LOOP):
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index b51442e..7312339 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -52,6 +52,7 @@ class SGASearchState:
         self.parent = parent  # parent search state
         self.children = children if children is not None else set()  # successor search states
         self.path = []
+        self.final_leaves = list()  # leaves executed to complete the model, after the last event
 
     def __lt__(self, other):
         if self.costs < other.costs:
@@ -70,33 +71,20 @@ def _construct_result_dictionary(state: SGASearchState, variant: List[str]):
     result['cost'] = state.costs
     alignment = list()
     current_state = state
-    parent_state = state.parent
-    while parent_state is not None:
-        if len(current_state.leaves) > 0:
-            if current_state.index == len(variant):
-                leaf_labels = list(reversed(list(map(lambda o: o.label, current_state.leaves))))
-                if variant[-1] in leaf_labels:
-                    i = leaf_labels.index(variant[-1])
-                    leaves_reversed = list(reversed(current_state.leaves))
-                    for j in range(len(leaves_reversed)):
-                        if i == j:
-                            alignment.append((variant[-1], leaves_reversed[j]))
-                        else:
-                            alignment.append((align_utils.SKIP, leaves_reversed[j]))
-                else:
-                    if current_state.costs - len(current_state.leaves) > parent_state.costs:
-                        alignment.append((variant[parent_state.index], align_utils.SKIP))
-                    for leaf in reversed(current_state.leaves):
-                        alignment.append((align_utils.SKIP, leaf))
+    while current_state is not None:
+        for leaf in reversed(current_state.final_leaves):
+            alignment.append((align_utils.SKIP, leaf))
+        parent_state = current_state.parent
+        if parent_state is not None:
+            activity = variant[parent_state.index]
+            if len(current_state.leaves) > 0:
+                # the last leaf is the one executed synchronously
+                alignment.append((activity, current_state.leaves[-1]))
+                for leaf in reversed(current_state.leaves[:-1]):
+                    alignment.append((align_utils.SKIP, leaf))
             else:
-                alignment.append((variant[parent_state.index], current_state.leaves[len(current_state.leaves) - 1]))
-                leaves_reversed = list(reversed(current_state.leaves))[1:]
-                for n in leaves_reversed:
-                    alignment.append((align_utils.SKIP, n))
-        else:
-            alignment.append((variant[parent_state.index], align_utils.SKIP))
-        parent_state = parent_state.parent
-        current_state = current_state.parent
+                alignment.append((activity, align_utils.SKIP))
+        current_state = parent_state
     result['alignment'] = list(reversed(alignment))
     result['optimal'] = True
     result['state'] = state
@@ -123,6 +111,7 @@ def _check_if_state_exists_and_update(search_state: SGASearchState, collection):
                 alt.costs = search_state.costs
                 alt.parent = search_state.parent
                 alt.leaves = search_state.leaves
+                alt.final_leaves = search_state.final_leaves
     return match
 
 
@@ -214,7 +203,7 @@ def align_variant(variant, tree_leaf_set, pt):
                 model_moves = _obtain_leaves_from_state_path(path, include_tau=False)
                 sga_state.state = new_state
                 sga_state.costs = sga_state.costs + len(model_moves)
-                sga_state.leaves.extend(_obtain_leaves_from_state_path(path, include_tau=True))
+                sga_state.final_leaves = _obtain_leaves_from_state_path(path, include_tau=True)
                 heapq.heappush(open_set, sga_state)
 
 
diff --git a/pm4py/objects/petri_net/utils/incidence_matrix.py b/pm4py/objects/petri_net/utils/incidence_matrix.py
index 746950e..a804b4f 100644
--- a/pm4py/objects/petri_net/utils/incidence_matrix.py
+++ b/pm4py/objects/petri_net/utils/incidence_matrix.py
@@ -47,9 +47,9 @@ class IncidenceMatrix(object):
         a_matrix = [[0 for i in range(len(t_index))] for j in range(len(p_index))]
         for p in net.places:
             for a in p.in_arcs:
-                a_matrix[p_index[p]][t_index[a.source]] += 1
+                a_matrix[p_index[p]][t_index[a.source]] += a.weight
             for a in p.out_arcs:
-                a_matrix[p_index[p]][t_index[a.target]] -= 1
+                a_matrix[p_index[p]][t_index[a.target]] -= a.weight
         return a_matrix, p_index, t_index
 
     a_matrix = property(__get_a_matrix)
diff --git a/pm4py/objects/petri_net/utils/synchronous_product.py b/pm4py/objects/petri_net/utils/synchronous_product.py
index 67d3a6f..7de7385 100644
--- a/pm4py/objects/petri_net/utils/synchronous_product.py
+++ b/pm4py/objects/petri_net/utils/synchronous_product.py
@@ -51,13 +51,13 @@ def construct(pn1, im1, fm1, pn2, im2, fm2, skip):
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -119,13 +119,13 @@ def construct_cost_aware(pn1, im1, fm1, pn2, im2, fm2, skip, pn1_costs, pn2_cost
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -166,8 +166,8 @@ def __copy_into(source_net, target_net, upper, skip):
 
     for t in source_net.transitions:
         for a in t.in_arcs:
-            add_arc_from_to(p_map[a.source], t_map[t], target_net)
+            add_arc_from_to(p_map[a.source], t_map[t], target_net, weight=a.weight)
         for a in t.out_arcs:
-            add_arc_from_to(t_map[t], p_map[a.target], target_net)
+            add_arc_from_to(t_map[t], p_map[a.target], target_net, weight=a.weight)
 
     return t_map, p_map
-- 
2.43.0


From 55dac3d74bd3d368c56c6dcce6d882d1446dfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 30/49] fix: non-optimal alignments of process trees with a
 choice at the root, and of the less-memory Dijkstra with costs per transition

---
 .../petri_net/variants/dijkstra_less_memory.py      | 13 +++++++++++--
 .../process_tree/variants/search_graph_pt.py        |  5 ++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c1ef1a3..b7f0927 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -598,6 +598,12 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     dummy_count = 0
     visited = 0
 
+    # maximum cost of the move-on-model for each label
+    max_label_cost = {}
+    for t in trans_labels_dict:
+        label = trans_labels_dict[t]
+        max_label_cost[label] = max(transf_model_cost_function[t], max_label_cost.get(label, 0))
+
     while not len(open_set) == 0:
         if (time.time() - start_time) > max_align_time_trace:
             return None
@@ -641,8 +647,11 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                del en_t[j]
-                continue
+                # the transition can be executed in sync now: executing it only in the model is never better, unless
+                # the event can be executed later in sync with a transition having a greater cost
+                if transf_model_cost_function[t] >= max_label_cost[trans_labels_dict[t]]:
+                    del en_t[j]
+                    continue
             j = j + 1
         en_t.sort(key=lambda t: transf_model_cost_function[t])
         j = 0
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 7312339..3ef2e58 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -140,9 +140,8 @@ def _need_log_move(old_state, new_state, path) -> bool:
     for choice in choices:
         choice = choice[1]
         if pt_util.is_operator(choice, Operator.XOR):
-            if (pt_util.is_in_state(choice, ProcessTree.OperatorState.FUTURE, old_state) or pt_util.is_in_state(choice,
-                                                                                                                ProcessTree.OperatorState.CLOSED,
-                                                                                                                old_state)) and \
+            # the choice is taken when the operator is opened (the operator may already be enabled, as the root is)
+            if old_state[(id(choice), choice)] != ProcessTree.OperatorState.OPEN and \
                     old_state[(id(choice), choice)] != new_state[(id(choice), choice)]:
                 return True
         elif pt_util.is_operator(choice, Operator.LOOP):
-- 
2.43.0


From 1ca466dc07b00da6eb6c49f336dfc229df4279ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 31/49] fix: loops with several redo parts discovered by the
 inductive miners: IndexError with a DFG, exception with POWL, and redo parts
 that the playout takes for the exit

---
 pm4py/algo/discovery/inductive/cuts/loop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 6cb178d..10a241d 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -67,7 +67,11 @@ class LoopCut(Cut[T], ABC, Generic[T]):
 
         groups = list(filter(lambda g: len(g) > 0, groups))
 
-        return groups if len(groups) > 1 else None
+        if len(groups) > 1:
+            # a loop has one 'redo' part: when several groups are found, the choice between them is
+            # discovered in the recursion on the 'redo' part
+            return [groups[0], set().union(*groups[1:])]
+        return None
 
     @classmethod
     def _check_start_completeness(cls, dfg: DFG, start_activities: Collection[Any], end_activities: Collection[Any],
-- 
2.43.0


From 7de9c1ecc80e2ae337794243ede7b9801e0cd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 32/49] fix: IndexError of the inductive miner on a DFG part
 with an end activity only

---
 pm4py/algo/discovery/inductive/base_case/single_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/base_case/single_activity.py b/pm4py/algo/discovery/inductive/base_case/single_activity.py
index 3f8a74c..77ffe07 100644
--- a/pm4py/algo/discovery/inductive/base_case/single_activity.py
+++ b/pm4py/algo/discovery/inductive/base_case/single_activity.py
@@ -46,4 +46,4 @@ class SingleActivityBaseCaseDFG(BaseCase[IMDataStructureDFG]):
 
     @classmethod
     def leaf(cls, obj=IMDataStructureDFG, parameters: Optional[Dict[str, Any]] = None) -> ProcessTree:
-        return ProcessTree(label=list(obj.dfg.start_activities)[0])
+        return ProcessTree(label=list(set(obj.dfg.start_activities).union(obj.dfg.end_activities))[0])
-- 
2.43.0


From 88f565a614fd48909284cce678d69624bda69e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 33/49] fix: alignments interrupted by a time limit: exceptions
 in the fitness, the diagnostics and the discounted A*, wrong fitness or
 endless recomposition of decomposed alignments

---
 .../decomposed/variants/recompos_maximal.py     | 12 +++++++++++-
 .../alignments/petri_net/algorithm.py           |  7 +++++--
 .../petri_net/variants/discounted_a_star.py     |  3 +++
 .../replay_fitness/variants/alignment_based.py  | 17 +++++++++--------
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 9b371c6..c18e031 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -59,7 +59,11 @@ def get_best_worst_cost(petri_net, initial_marking, final_marking, parameters=No
 
     best_worst, cf = align(trace, petri_net, initial_marking, final_marking, parameters=parameters)
 
-    best_worst_cost = sum(cf[x] for x in best_worst['alignment']) // utils.STD_MODEL_LOG_MOVE_COST if best_worst else 0
+    if best_worst is None:
+        # time limit exceeded
+        return None
+
+    best_worst_cost = sum(cf[x] for x in best_worst['alignment']) // utils.STD_MODEL_LOG_MOVE_COST
 
     return best_worst_cost
 
@@ -350,6 +354,9 @@ def recompose_alignment(cons_nets, cons_nets_result):
     count = 0
     while len(to_visit) > 0:
         curr = to_visit.pop(0)
+        if curr in visited:
+            # the recomposition graph may contain cycles
+            continue
         output_edges = [e for e in G0.edges if e[0] == curr]
         for edge in output_edges:
             to_visit.append(edge[1])
@@ -434,6 +441,9 @@ def apply_trace(trace, list_nets, parameters=None):
                 alres = get_alres(al)
                 icache[tup] = (al, cf, alres)
             al, cf, alres = icache[tup]
+            if al is None:
+                # the alignment of the component did not termine in the provided time
+                return None
             cons_nets_result.append(al)
             cons_nets_alres.append(alres)
             cons_nets_costs.append(cf)
diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 14edd8c..cb7495d 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -410,8 +410,11 @@ def get_diagnostics_dataframe(log, align_output, parameters=None):
     for index in range(len(log)):
         case_id = log[index].attributes[case_id_key]
 
-        cost = align_output[index]["cost"]
-        fitness = align_output[index]["fitness"]
+        # no alignment if the time limit was exceeded
+        alignment = align_output[index] if align_output[index] is not None else {}
+
+        cost = alignment.get("cost")
+        fitness = alignment.get("fitness")
         is_fit = fitness == 1.0
 
         diagn_stream.append({"case_id": case_id, "cost": cost, "fitness": fitness, "is_fit": is_fit})
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index 21ce4b2..808c103 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -79,6 +79,9 @@ def get_best_worst_cost(petri_net, initial_marking, final_marking, parameters=No
 
     best_worst = apply(trace, petri_net, initial_marking, final_marking, parameters=parameters)
 
+    if best_worst is None:
+        # time limit exceeded
+        return None
     if best_worst['cost'] > 0:
         return best_worst['cost'] // utils.STD_MODEL_LOG_MOVE_COST
     return 0
diff --git a/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py b/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py
index 3efa8db..bc39841 100644
--- a/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py
+++ b/pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py
@@ -53,20 +53,21 @@ def evaluate(aligned_traces: typing.ListAlignments, parameters: Optional[Dict[Un
     if parameters is None:
         parameters = {}
     str(parameters)
-    no_traces = len([x for x in aligned_traces if x is not None])
+    # excludes the traces without an alignment, or without a fitness, because a time limit was exceeded
+    aligned_traces = [x for x in aligned_traces if x is not None and "fitness" in x]
+    no_traces = len(aligned_traces)
     no_fit_traces = 0
     sum_fitness = 0.0
     sum_bwc = 0.0
     sum_cost = 0.0
 
     for tr in aligned_traces:
-        if tr is not None:
-            if tr["fitness"] == 1.0:
-                no_fit_traces = no_fit_traces + 1
-            sum_fitness += tr["fitness"]
-            if "bwc" in tr and "cost" in tr:
-                sum_bwc += tr["bwc"]
-                sum_cost += tr["cost"]
+        if tr["fitness"] == 1.0:
+            no_fit_traces = no_fit_traces + 1
+        sum_fitness += tr["fitness"]
+        if "bwc" in tr and "cost" in tr:
+            sum_bwc += tr["bwc"]
+            sum_cost += tr["cost"]
 
     perc_fit_traces = 0.0
     average_fitness = 0.0
-- 
2.43.0


From ede7c4d5c16d32dce22d8f9e57913152de27824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 34/49] fix: offset of timestamps ignored when reading XES logs
 (2024-01-01T10:00:00+02:00 read as 10:00 UTC)

---
 pm4py/util/dt_parsing/variants/strpfromiso.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/util/dt_parsing/variants/strpfromiso.py b/pm4py/util/dt_parsing/variants/strpfromiso.py
index c3c4e2d..0b7b97f 100644
--- a/pm4py/util/dt_parsing/variants/strpfromiso.py
+++ b/pm4py/util/dt_parsing/variants/strpfromiso.py
@@ -34,7 +34,8 @@ def fix_dataframe_column(serie):
 
 def fix_naivety(dt):
     if constants.ENABLE_DATETIME_COLUMNS_AWARE:
-        dt = dt.replace(tzinfo=timezone.utc)
+        # naive timestamps are interpreted as UTC; the other ones are expressed in UTC
+        dt = dt.replace(tzinfo=timezone.utc) if dt.tzinfo is None else dt.astimezone(timezone.utc)
     else:
         dt = dt.replace(tzinfo=None)
 
-- 
2.43.0


From 014fdad352c5c8d1286a3d04233f0dfd892a579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:53 +0000
Subject: [PATCH 35/49] fix: timestamps of simulated logs and date statistics
 depended on the local time zone

---
 .../algo/simulation/montecarlo/variants/petri_semaph_fifo.py  | 2 +-
 pm4py/algo/simulation/playout/dfg/variants/classic.py         | 2 +-
 pm4py/algo/simulation/playout/dfg/variants/performance.py     | 4 ++--
 .../simulation/playout/petri_net/variants/basic_playout.py    | 2 +-
 pm4py/algo/simulation/playout/petri_net/variants/extensive.py | 2 +-
 .../playout/petri_net/variants/stochastic_playout.py          | 2 +-
 pm4py/objects/process_tree/semantics.py                       | 3 ++-
 pm4py/statistics/attributes/common/get.py                     | 3 ++-
 pm4py/utils.py                                                | 2 +-
 pm4py/visualization/performance_spectrum/variants/neato.py    | 4 ++--
 10 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
index 3b7cd31..3f31172 100644
--- a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
+++ b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
@@ -267,7 +267,7 @@ class SimulationThread(Thread):
 
             if ct.label is not None:
                 eve = Event({xes_constants.DEFAULT_NAME_KEY: ct.label,
-                             xes_constants.DEFAULT_TIMESTAMP_KEY: strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(current_time))})
+                             xes_constants.DEFAULT_TIMESTAMP_KEY: strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(current_time, tz=datetime.timezone.utc))})
                 last_event = eve
                 if first_event is None:
                     first_event = last_event
diff --git a/pm4py/algo/simulation/playout/dfg/variants/classic.py b/pm4py/algo/simulation/playout/dfg/variants/classic.py
index 3a445d6..be0766a 100644
--- a/pm4py/algo/simulation/playout/dfg/variants/classic.py
+++ b/pm4py/algo/simulation/playout/dfg/variants/classic.py
@@ -274,7 +274,7 @@ def apply(dfg: Dict[Tuple[str, str], int], start_activities: Dict[str, int], end
                 attributes={xes_constants.DEFAULT_TRACEID_KEY: str(index), "probability": -tr[0]})
             for act in tr[1]:
                 log_trace.append(
-                    Event({activity_key: act, timestamp_key: strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp))}))
+                    Event({activity_key: act, timestamp_key: strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp, tz=datetime.timezone.utc))}))
                 # increases by 1 second
                 curr_timestamp += 1
             event_log.append(log_trace)
diff --git a/pm4py/algo/simulation/playout/dfg/variants/performance.py b/pm4py/algo/simulation/playout/dfg/variants/performance.py
index 6f76ea4..98fe3bd 100644
--- a/pm4py/algo/simulation/playout/dfg/variants/performance.py
+++ b/pm4py/algo/simulation/playout/dfg/variants/performance.py
@@ -15,7 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from copy import copy
-from datetime import datetime
+from datetime import datetime, timezone
 from enum import Enum
 from typing import Optional, Dict, Any, Tuple
 
@@ -145,7 +145,7 @@ def apply(frequency_dfg: Dict[Tuple[str, str], int], start_activities: Dict[str,
             perf = 0 if perf == 0 else exponential(perf)
             curr_t += perf
             curr_act = next_act
-            eve = Event({activity_key: curr_act, timestamp_key: strpfromiso.fix_naivety(datetime.fromtimestamp(curr_t))})
+            eve = Event({activity_key: curr_act, timestamp_key: strpfromiso.fix_naivety(datetime.fromtimestamp(curr_t, tz=timezone.utc))})
             trace.append(eve)
 
     return log
diff --git a/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py b/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py
index dc4f6de..b6dafb4 100644
--- a/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py
+++ b/pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py
@@ -143,7 +143,7 @@ def apply_playout(net, initial_marking, no_traces=100, max_trace_length=100,
             if type(element) is PetriNet.Transition and element.label is not None:
                 event = log_instance.Event()
                 event[activity_key] = element.label
-                event[timestamp_key] = strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp))
+                event[timestamp_key] = strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp, tz=datetime.timezone.utc))
                 trace.append(event)
                 # increases by 1 second
                 curr_timestamp += 1
diff --git a/pm4py/algo/simulation/playout/petri_net/variants/extensive.py b/pm4py/algo/simulation/playout/petri_net/variants/extensive.py
index 6ef342b..55e1b19 100644
--- a/pm4py/algo/simulation/playout/petri_net/variants/extensive.py
+++ b/pm4py/algo/simulation/playout/petri_net/variants/extensive.py
@@ -133,7 +133,7 @@ def apply(net: PetriNet, initial_marking: Marking, final_marking: Marking = None
         for act in activities:
             curr_timestamp = curr_timestamp + 1
             log_trace.append(
-                log_instance.Event({activity_key: act, timestamp_key: strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp))}))
+                log_instance.Event({activity_key: act, timestamp_key: strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp, tz=datetime.timezone.utc))}))
         log.append(log_trace)
 
     return log
diff --git a/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py b/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py
index 54338de..b781108 100644
--- a/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py
+++ b/pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py
@@ -137,7 +137,7 @@ def apply_playout(net, initial_marking, no_traces=100, max_trace_length=100,
             if type(element) is PetriNet.Transition and element.label is not None:
                 event = log_instance.Event()
                 event[activity_key] = element.label
-                event[timestamp_key] = strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp))
+                event[timestamp_key] = strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp, tz=datetime.timezone.utc))
                 trace.append(event)
                 # increases by 1 second
                 curr_timestamp += 1
diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index 323046e..8ccbfc3 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -22,6 +22,7 @@ from pm4py.objects.process_tree import obj as pt_opt
 from pm4py.objects.process_tree import state as pt_st
 from pm4py.objects.process_tree.utils import generic as pt_util
 from pm4py.objects.process_tree.obj import ProcessTree
+from pm4py.util.dt_parsing.variants import strpfromiso
 
 import datetime
 from copy import deepcopy
@@ -79,7 +80,7 @@ def generate_log(pt0, no_traces=100):
         for label in ex_seq_labels:
             event = Event()
             event[xes.DEFAULT_NAME_KEY] = label
-            event[xes.DEFAULT_TIMESTAMP_KEY] = datetime.datetime.fromtimestamp(curr_timestamp)
+            event[xes.DEFAULT_TIMESTAMP_KEY] = strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(curr_timestamp, tz=datetime.timezone.utc))
 
             trace.append(event)
 
diff --git a/pm4py/statistics/attributes/common/get.py b/pm4py/statistics/attributes/common/get.py
index d2c3761..7ee3628 100644
--- a/pm4py/statistics/attributes/common/get.py
+++ b/pm4py/statistics/attributes/common/get.py
@@ -16,6 +16,7 @@
 '''
 import json, logging
 import importlib.util
+from datetime import timezone
 
 from pm4py.util.points_subset import pick_chosen_points_list
 from pm4py.util import exec_utils, pandas_utils, constants
@@ -183,7 +184,7 @@ def get_kde_date_attribute(values, parameters=None):
 
         red_values = pick_chosen_points_list(points_to_sample, values)
         int_values = sorted(
-            [x.replace(tzinfo=None).timestamp() for x in red_values])
+            [(x if x.tzinfo is not None else x.replace(tzinfo=timezone.utc)).timestamp() for x in red_values])
         density = gaussian_kde(int_values)
         xs = np.linspace(min(int_values), max(int_values), graph_points)
         xs_transf = pd.to_datetime(xs * 10 ** 9, unit="ns")
diff --git a/pm4py/utils.py b/pm4py/utils.py
index bb87b2a..d352e1e 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -409,7 +409,7 @@ def parse_event_log_string(traces: Collection[str], sep: str = ",",
         for act in activities:
             cases.append(str(index))
             activitiess.append(act)
-            timestamps.append(strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(this_timest)))
+            timestamps.append(strpfromiso.fix_naivety(datetime.datetime.fromtimestamp(this_timest, tz=datetime.timezone.utc)))
             this_timest = this_timest + 1
 
     dataframe = pandas_utils.instantiate_dataframe({case_id_key: cases, activity_key: activitiess, timestamp_key: timestamps})
diff --git a/pm4py/visualization/performance_spectrum/variants/neato.py b/pm4py/visualization/performance_spectrum/variants/neato.py
index 5eb74fd..4382245 100644
--- a/pm4py/visualization/performance_spectrum/variants/neato.py
+++ b/pm4py/visualization/performance_spectrum/variants/neato.py
@@ -18,7 +18,7 @@ import math
 import os
 import tempfile
 import uuid
-from datetime import datetime
+from datetime import datetime, timezone
 from enum import Enum
 from typing import Optional, Dict, Any, Union
 
@@ -145,7 +145,7 @@ def apply(perf_spectrum: Dict[str, Any], parameters: Optional[Dict[Union[str, Pa
             for j in range(n_div + 1):
                 pos = float(j * overall_length) / float(n_div)
                 tst = min_x + float(j) / float(n_div) * (max_x - min_x)
-                dt = strpfromiso.fix_naivety(datetime.fromtimestamp(tst))
+                dt = strpfromiso.fix_naivety(datetime.fromtimestamp(tst, tz=timezone.utc))
                 n_id = "n" + str(uuid.uuid4()).replace("-", "") + "e"
                 lines.append("%s [label=\"%s\", pos=\"%.10f,%.10f!\", shape=none, width=\"0px\", height=\"0px\"];" % (
                 n_id, str(dt), pos*layout_ext_multiplier, (second_coord - date_divider)*layout_ext_multiplier))
-- 
2.43.0


From e9c07b8194f02204a41af83ae8ba883576b7b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 36/49] fix: transition systems with two states for one view,
 chosen by memory address (loop as first occurrence of a view)

---
 pm4py/algo/discovery/transition_system/variants/view_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/transition_system/variants/view_based.py b/pm4py/algo/discovery/transition_system/variants/view_based.py
index 406529b..e72205f 100644
--- a/pm4py/algo/discovery/transition_system/variants/view_based.py
+++ b/pm4py/algo/discovery/transition_system/variants/view_based.py
@@ -78,6 +78,7 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
     for i in range(0, len(view_sequence) - 1):
         sf = {'state': s for s in transition_system.states if s.name == view_sequence[i][0]}
         sf = sf['state'] if len(sf) > 0 else ts.TransitionSystem.State(view_sequence[i][0])
+        transition_system.states.add(sf)
         st = {'state': s for s in transition_system.states if s.name == view_sequence[i + 1][0]}
         st = st['state'] if len(st) > 0 else ts.TransitionSystem.State(view_sequence[i + 1][0])
         t = {'t': t for t in sf.outgoing if t.name == view_sequence[i][1] and t.from_state == sf and t.to_state == st}
@@ -93,7 +94,6 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
             sf.data[ts_constants.OUTGOING_EVENTS].append(view_sequence[i][2])
             st.data[ts_constants.INGOING_EVENTS].append(view_sequence[i][2])
             t.data[ts_constants.EVENTS].append(view_sequence[i][2])
-        transition_system.states.add(sf)
         transition_system.states.add(st)
         transition_system.transitions.add(t)
 
-- 
2.43.0


From 812ef3d7a7bf22beb5b3e8bed8fd82814d8ce1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 37/49] fix: analyses changed the log or DataFrame given by the
 caller (case identifiers, start timestamps, added columns)

---
 .../dfg/adapters/pandas/df_statistics.py       |  6 +++---
 .../resource_profiles/variants/log.py          | 18 ++++++++++++------
 .../log_to_features/variants/temporal.py       |  2 +-
 .../conversion/log/variants/to_event_stream.py |  2 +-
 pm4py/statistics/service_time/pandas/get.py    |  2 ++
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..ccd43ec 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -70,7 +70,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
-            df[start_timestamp_key] = df[timestamp_key]
+            df = df.assign(**{start_timestamp_key: df[timestamp_key]})
         st_eq_ct = True
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
@@ -210,7 +210,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
 
     if start_timestamp_key not in df:
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
     # columns
@@ -293,7 +293,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to get rows belonging to same case ID together, we need to sort on case ID
     if sort_caseid_required:
diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 4405337..bda81a2 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -14,12 +14,13 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from datetime import datetime
 from enum import Enum
 from typing import Union, Optional, Dict, Any, Tuple
 
 from pm4py.objects.conversion.log import converter
-from pm4py.objects.log.obj import EventLog, Event
+from pm4py.objects.log.obj import EventLog, Event, Trace
 from pm4py.util import exec_utils, constants, xes_constants
 from pm4py.algo.filtering.common.timestamp.timestamp_common import get_dt_from_string
 from statistics import mean
@@ -297,12 +298,17 @@ def __insert_start_from_previous_event(log: EventLog, parameters: Optional[Dict[
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
                                                      xes_constants.DEFAULT_START_TIMESTAMP_KEY)
 
+    new_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                       omni_present=log.omni_present, properties=log.properties)
     for trace in log:
-        for i in range(1, len(trace)):
-            trace[i][start_timestamp_key] = trace[i-1][timestamp_key]
-        trace[0][start_timestamp_key] = trace[0][timestamp_key]
-
-    return log
+        new_trace = Trace(attributes=trace.attributes, properties=trace.properties)
+        for i in range(len(trace)):
+            event = copy(trace[i])
+            event[start_timestamp_key] = trace[max(i-1, 0)][timestamp_key]
+            new_trace.append(event)
+        new_log.append(new_trace)
+
+    return new_log
 
 
 def __compute_workload(log: EventLog, resource: Optional[str] = None, activity: Optional[str] = None,
diff --git a/pm4py/algo/transformation/log_to_features/variants/temporal.py b/pm4py/algo/transformation/log_to_features/variants/temporal.py
index 98269e1..7b75941 100644
--- a/pm4py/algo/transformation/log_to_features/variants/temporal.py
+++ b/pm4py/algo/transformation/log_to_features/variants/temporal.py
@@ -86,7 +86,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     resource_column = exec_utils.get_param_value(Parameters.RESOURCE_COLUMN, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
     activity_column = exec_utils.get_param_value(Parameters.ACTIVITY_COLUMN, parameters, xes_constants.DEFAULT_NAME_KEY)
 
-    log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
+    log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters).copy()
     log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
     log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
 
diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index ca07578..e9b4702 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -279,7 +279,7 @@ def __transform_event_log_to_event_stream(log, include_case_attributes=True,
                                     omni_present=log.omni_present, extensions=log.extensions, properties=log.properties)
     for index, trace in enumerate(log):
         for event in trace:
-            new_event = deepcopy(event) if enable_deepcopy else event
+            new_event = deepcopy(event) if enable_deepcopy else copy(event)
             if include_case_attributes:
                 for key, value in trace.attributes.items():
                     new_event[case_attribute_prefix + key] = value
diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 03ce48e..4ee9efb 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -82,6 +82,8 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
+    dataframe = dataframe.copy()
+
     if business_hours:
         dataframe[DIFF_KEY] = dataframe.apply(
             lambda x: soj_time_business_hours_diff(x[start_timestamp_key], x[timestamp_key], business_hours_slots, workcalendar), axis=1)
-- 
2.43.0


From 17881c34a180b054b4efe4815519c8a61c312a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 38/49] fix: algorithms changed the dictionary of parameters or
 the process tree given by the caller, with wrong results of the next calls

---
 pm4py/algo/clustering/profiles/variants/sklearn_profiles.py  | 1 +
 .../alignments/decomposed/variants/recompos_maximal.py       | 2 ++
 .../process_tree/variants/approximated/matrix_lp.py          | 5 +++--
 .../process_tree/variants/approximated/original.py           | 4 +++-
 pm4py/algo/discovery/correlation_mining/variants/classic.py  | 2 ++
 pm4py/algo/discovery/performance_spectrum/variants/log.py    | 2 ++
 .../performance_spectrum/variants/log_disconnected.py        | 2 ++
 pm4py/algo/filtering/log/attributes/attributes_filter.py     | 1 +
 pm4py/algo/querying/llm/abstractions/stream_to_descr.py      | 2 ++
 pm4py/algo/transformation/ocel/features/events/algorithm.py  | 2 ++
 .../transformation/ocel/features/events_objects/algorithm.py | 1 +
 pm4py/algo/transformation/ocel/features/objects/algorithm.py | 2 ++
 pm4py/objects/conversion/log/variants/to_nx.py               | 2 ++
 pm4py/objects/log/util/get_prefixes.py                       | 2 ++
 14 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
index ac90a07..263dab9 100644
--- a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
+++ b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
@@ -57,6 +57,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     from pm4py.util import ml_utils
     clusterer = exec_utils.get_param_value(Parameters.SKLEARN_CLUSTERER, parameters, ml_utils.KMeans(n_clusters=2, random_state=0, n_init="auto"))
 
+    parameters = copy(parameters)
     if "enable_activity_def_representation" not in parameters:
         parameters["enable_activity_def_representation"] = True
 
diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index c18e031..b7e1f2a 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -150,6 +150,7 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     best_worst_cost = get_best_worst_cost(net, im, fm, parameters=parameters)
+    parameters = copy(parameters)
     parameters[Parameters.BEST_WORST_COST] = best_worst_cost
 
     list_nets = decomp_utils.decompose(net, im, fm)
@@ -183,6 +184,7 @@ def apply_log(log, list_nets, parameters=None):
     icache = exec_utils.get_param_value(Parameters.ICACHE, parameters, dict())
     mcache = exec_utils.get_param_value(Parameters.MCACHE, parameters, dict())
 
+    parameters = copy(parameters)
     parameters[Parameters.ICACHE] = icache
     parameters[Parameters.MCACHE] = mcache
 
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index e47d94b..456eedf 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -31,7 +31,7 @@ from pm4py.statistics.variants.log.get import get_variants_from_log_trace_idx
 from pm4py.util.lp import solver
 from enum import Enum
 import numpy as np
-from copy import copy
+from copy import copy, deepcopy
 import sys
 import time
 from pm4py.util import variants_util
@@ -162,9 +162,10 @@ def __align(obj: Union[Trace, EventLog], pt: ProcessTree, max_trace_length: int
         e.append(obj)
         obj = e
     assert isinstance(obj, EventLog)
-    pt = process_tree_to_binary_process_tree(pt)
+    pt = process_tree_to_binary_process_tree(deepcopy(pt))
     pt = EfficientTree(pt)
 
+    parameters = copy(parameters)
     parameters[Parameters.SUBTREE_ALIGN_CACHE] = {}
 
     return __approximate_alignments_for_log(obj, pt, max_trace_length, max_process_tree_height,
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
index 03a0189..5a0e76e 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy, deepcopy
 import math
 
 from pm4py.algo.conformance.alignments.process_tree.variants.approximated.calculate_a_sa_ea_sets import initialize_a_sa_ea_tau_sets
@@ -156,7 +157,7 @@ def __align(obj: Union[Trace, EventLog], pt: ProcessTree, max_trace_length: int
         e.append(obj)
         obj = e
     assert isinstance(obj, EventLog)
-    pt = process_tree_to_binary_process_tree(pt)
+    pt = process_tree_to_binary_process_tree(deepcopy(pt))
     pt = EfficientTree(pt)
     
     return __approximate_alignments_for_log(obj, pt, max_trace_length, max_process_tree_height,
@@ -175,6 +176,7 @@ def __approximate_alignments_for_log(log: EventLog, pt: ProcessTree, max_tl: int
     max_align_time = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME, parameters,
                                                 sys.maxsize)
     log_alignment_start_time = time.time()
+    parameters = copy(parameters)
 
     for i, var in enumerate(variants):
         this_time = time.time()
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic.py b/pm4py/algo/discovery/correlation_mining/variants/classic.py
index e69ced5..e3c3404 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from pm4py.util import exec_utils
 from enum import Enum
 from pm4py.util import constants, xes_constants, pandas_utils
@@ -171,6 +172,7 @@ def preprocess_log(log, activities=None, parameters=None):
         # keep only the two columns before conversion
         log = log[list(set([activity_key, timestamp_key, start_timestamp_key]))]
 
+    parameters = copy(parameters)
     parameters["deepcopy"] = False
     parameters["include_case_attributes"] = False
     log = converter.apply(log, variant=converter.TO_EVENT_STREAM, parameters=parameters)
diff --git a/pm4py/algo/discovery/performance_spectrum/variants/log.py b/pm4py/algo/discovery/performance_spectrum/variants/log.py
index 6f121a7..d458bab 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/log.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/log.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from pm4py.objects.log.util import sorting
 from pm4py.objects.log.util import basic_filter
 from pm4py.util import points_subset
@@ -64,6 +65,7 @@ def apply(log: EventLog, list_activities: List[str], sample_size: int, parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes.DEFAULT_TIMESTAMP_KEY)
     sort_log_required = exec_utils.get_param_value(Parameters.SORT_LOG_REQUIRED, parameters, True)
 
+    parameters = copy(parameters)
     parameters[Parameters.ATTRIBUTE_KEY] = activity_key
     log = basic_filter.filter_log_events_attr(log, list_activities, parameters=parameters)
     if sort_log_required:
diff --git a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
index 57915f0..0be9986 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from enum import Enum
 
 from pm4py.objects.log.util import sorting
@@ -70,6 +71,7 @@ def apply(log: EventLog, list_activities: List[str], sample_size: int, parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes.DEFAULT_TIMESTAMP_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes.DEFAULT_TRACEID_KEY)
 
+    parameters = copy(parameters)
     parameters[Parameters.ATTRIBUTE_KEY] = activity_key
     log = basic_filter.filter_log_events_attr(log, list_activities, parameters=parameters)
     if sort_log_required:
diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index d3916ee..47a276e 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -329,6 +329,7 @@ def filter_log_on_max_no_activities(log: EventLog, max_no_activities : int = 25,
 
     activity_key = parameters[
         PARAMETER_CONSTANT_ACTIVITY_KEY] if PARAMETER_CONSTANT_ACTIVITY_KEY in parameters else DEFAULT_NAME_KEY
+    parameters = copy(parameters)
     parameters[PARAMETER_CONSTANT_ATTRIBUTE_KEY] = activity_key
     all_activities = sorted([(x, y) for x, y in get_attribute_values(log, activity_key).items()], key=lambda x: x[1],
                             reverse=True)
diff --git a/pm4py/algo/querying/llm/abstractions/stream_to_descr.py b/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
index 7694b00..332b7bf 100644
--- a/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 
+from copy import copy
 from typing import Optional, Dict, Any, Union
 from pm4py.objects.log.obj import EventLog, EventStream
 from enum import Enum
@@ -52,6 +53,7 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     if parameters is None:
         parameters = {}
 
+    parameters = copy(parameters)
     parameters["stream_postprocessing"] = True
     event_stream = log_converter.apply(log_obj, variant=log_converter.Variants.TO_EVENT_STREAM, parameters=parameters)._list
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
diff --git a/pm4py/algo/transformation/ocel/features/events/algorithm.py b/pm4py/algo/transformation/ocel/features/events/algorithm.py
index b4f9c5c..3c20be9 100644
--- a/pm4py/algo/transformation/ocel/features/events/algorithm.py
+++ b/pm4py/algo/transformation/ocel/features/events/algorithm.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any, List
 from enum import Enum
@@ -87,6 +88,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     enable_related_objects_features = exec_utils.get_param_value(Parameters.ENABLE_RELATED_OBJECTS_FEATURES, parameters, False)
 
     ordered_events = ocel.events[ocel.event_id_column].to_numpy()
+    parameters = copy(parameters)
     parameters["ordered_events"] = ordered_events
 
     datas = [[] for x in ordered_events]
diff --git a/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py b/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py
index 66d68ad..7a9a106 100644
--- a/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py
+++ b/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py
@@ -61,6 +61,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
 
     exploded_ocel = explode.apply(ocel)
     ordered_events = exploded_ocel.events[exploded_ocel.event_id_column].to_numpy()
+    parameters = copy(parameters)
     parameters["ordered_events"] = ordered_events
 
     datas = []
diff --git a/pm4py/algo/transformation/ocel/features/objects/algorithm.py b/pm4py/algo/transformation/ocel/features/objects/algorithm.py
index af94161..3973ef6 100644
--- a/pm4py/algo/transformation/ocel/features/objects/algorithm.py
+++ b/pm4py/algo/transformation/ocel/features/objects/algorithm.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any, List
 from enum import Enum
@@ -126,6 +127,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     T0 = time.time_ns()
 
     ordered_objects = ocel.objects[ocel.object_id_column].to_numpy()
+    parameters = copy(parameters)
     parameters["ordered_objects"] = ordered_objects
 
     datas = [[] for x in ordered_objects]
diff --git a/pm4py/objects/conversion/log/variants/to_nx.py b/pm4py/objects/conversion/log/variants/to_nx.py
index 3853af0..98de7cb 100644
--- a/pm4py/objects/conversion/log/variants/to_nx.py
+++ b/pm4py/objects/conversion/log/variants/to_nx.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 
+from copy import copy
 from enum import Enum
 from pm4py.objects.log.obj import EventLog, EventStream
 import pandas as pd
@@ -63,6 +64,7 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     other_case_attributes_as_nodes = exec_utils.get_param_value(Parameters.OTHER_CASE_ATTRIBUTES_AS_NODES, parameters, None)
     event_attributes_as_nodes = exec_utils.get_param_value(Parameters.EVENT_ATTRIBUTES_AS_NODES, parameters, None)
 
+    parameters = copy(parameters)
     parameters["stream_postprocessing"] = True
     log_obj = to_event_log.apply(log_obj, parameters=parameters)
 
diff --git a/pm4py/objects/log/util/get_prefixes.py b/pm4py/objects/log/util/get_prefixes.py
index 825e034..ecddf68 100644
--- a/pm4py/objects/log/util/get_prefixes.py
+++ b/pm4py/objects/log/util/get_prefixes.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from copy import deepcopy
 
 from pm4py.objects.log.obj import EventLog, Trace
@@ -114,6 +115,7 @@ def get_log_traces_to_activities(log, activities, parameters=None):
 
     activity_key = parameters[
         constants.PARAMETER_CONSTANT_ACTIVITY_KEY] if constants.PARAMETER_CONSTANT_ACTIVITY_KEY in parameters else xes.DEFAULT_NAME_KEY
+    parameters = copy(parameters)
     parameters[constants.PARAMETER_CONSTANT_ATTRIBUTE_KEY] = activity_key
 
     list_logs = []
-- 
2.43.0


From d9bca2197463ac16243675ab08815ecea6fd7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 39/49] fix: replay information of the places of a net was
 incomplete while another thread used the net (easy soundness checked wrongly)

---
 pm4py/objects/petri_net/utils/petri_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/petri_utils.py b/pm4py/objects/petri_net/utils/petri_utils.py
index e9a598b..7560b2f 100644
--- a/pm4py/objects/petri_net/utils/petri_utils.py
+++ b/pm4py/objects/petri_net/utils/petri_utils.py
@@ -347,12 +347,15 @@ def decorate_places_preset_trans(net: PetriNet):
     net
         Petri net
     """
-    for place in net.places:
-        place.ass_trans = set()
+    # the sets are assigned only when complete: another thread may be replaying on the same net
+    ass_trans = {place: set() for place in net.places}
 
     for trans in net.transitions:
         for place in trans.sub_marking:
-            place.ass_trans.add(trans)
+            ass_trans[place].add(trans)
+
+    for place in net.places:
+        place.ass_trans = ass_trans[place]
 
 
 def decorate_transitions_prepostset(net: PetriNet):
-- 
2.43.0


From c2e7f37fe73cd63f41ea73d82e3e5acc36a428e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 40/49] fix: connectors lost or repeated events (deleted
 accounts, long timelines, new issues, rate limits without end; Firefox visits
 of other pages; history path given outside Windows)

---
 .../connectors/variants/chrome_history.py     |  2 +-
 .../connectors/variants/firefox_history.py    |  4 +--
 pm4py/algo/connectors/variants/github_repo.py | 33 ++++++++++++++++---
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/connectors/variants/chrome_history.py b/pm4py/algo/connectors/variants/chrome_history.py
index d6b637b..3b18f07 100644
--- a/pm4py/algo/connectors/variants/chrome_history.py
+++ b/pm4py/algo/connectors/variants/chrome_history.py
@@ -51,7 +51,7 @@ def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
         parameters = {}
 
     history_db_path = exec_utils.get_param_value(Parameters.HISTORY_DB_PATH, parameters, "C:\\Users\\" + os.getenv(
-        'USERNAME') + "\\AppData\\Local\\Google\\Chrome\\User Data")
+        'USERNAME', '') + "\\AppData\\Local\\Google\\Chrome\\User Data")
     print(history_db_path)
 
     if os.path.isdir(history_db_path):
diff --git a/pm4py/algo/connectors/variants/firefox_history.py b/pm4py/algo/connectors/variants/firefox_history.py
index 65a5eff..c679b50 100644
--- a/pm4py/algo/connectors/variants/firefox_history.py
+++ b/pm4py/algo/connectors/variants/firefox_history.py
@@ -52,7 +52,7 @@ def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
         parameters = {}
 
     history_db_path = exec_utils.get_param_value(Parameters.HISTORY_DB_PATH, parameters, "C:\\Users\\" + os.getenv(
-        'USERNAME') + "\\AppData\\Roaming\\Mozilla\\Firefox\\Profiles")
+        'USERNAME', '') + "\\AppData\\Roaming\\Mozilla\\Firefox\\Profiles")
     print(history_db_path)
 
     if os.path.isdir(history_db_path):
@@ -68,7 +68,7 @@ def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
             conn = sqlite3.connect(prof[0])
             curs = conn.cursor()
             curs.execute(
-                "SELECT b.url, a.visit_date FROM (SELECT id, visit_date FROM moz_historyvisits) a JOIN (SELECT id, url FROM moz_places) b ON a.id = b.id")
+                "SELECT b.url, a.visit_date FROM (SELECT place_id, visit_date FROM moz_historyvisits) a JOIN (SELECT id, url FROM moz_places) b ON a.place_id = b.id")
             res = curs.fetchall()
             for r in res:
                 ev = {"case:concept:name": prof[1], "concept:name": r[0].split("//")[-1].split("?")[0].replace(",", ""), "complete_url": r[0],
diff --git a/pm4py/algo/connectors/variants/github_repo.py b/pm4py/algo/connectors/variants/github_repo.py
index b12d1ff..da114f0 100644
--- a/pm4py/algo/connectors/variants/github_repo.py
+++ b/pm4py/algo/connectors/variants/github_repo.py
@@ -32,6 +32,26 @@ class Parameters(Enum):
     AUTH_TOKEN = "auth_token"
 
 
+def __get_login(user):
+    # the user is null when the account has been deleted
+    return user["login"] if user is not None else None
+
+
+def __get_timeline(timeline_url, headers):
+    import requests
+
+    timeline = []
+    page = 0
+    while True:
+        page += 1
+        r = requests.get(timeline_url+"?per_page=100&page="+str(page), headers=headers)
+        r.raise_for_status()
+        page_events = r.json()
+        timeline.extend(page_events)
+        if len(page_events) < 100:
+            return timeline
+
+
 def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
     """
     Extracts a dataframe containing the history of the issues of a Github repository.
@@ -67,6 +87,7 @@ def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
     continuee = True
     page = 0
     events = []
+    extracted = set()
 
     progress = None
 
@@ -74,6 +95,7 @@ def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
         page += 1
         try:
             r = requests.get("https://api.github.com/repos/"+owner+"/"+repo+"/issues?state=all&per_page=100&page="+str(page), headers=headers)
+            r.raise_for_status()
             issues = r.json()
             if not issues:
                 continuee = False
@@ -86,18 +108,19 @@ def apply(parameters: Optional[Dict[Any, str]] = None) -> pd.DataFrame:
 
             for i in issues:
                 if continuee:
-                    if "timeline_url" in i:
+                    # an issue created during the extraction moves the others to the next pages
+                    if "timeline_url" in i and i["timeline_url"] not in extracted:
                         timeline_url = i["timeline_url"]
-                        eve = {"case:owner": owner, "case:repo": owner+"/"+repo, "case:concept:name": timeline_url, "time:timestamp": strpfromiso.fix_naivety(parse(i["created_at"])), "concept:name": "created", "org:resource": i["user"]["login"], "case:author_association": i["author_association"], "case:title": i["title"]}
+                        extracted.add(timeline_url)
+                        eve = {"case:owner": owner, "case:repo": owner+"/"+repo, "case:concept:name": timeline_url, "time:timestamp": strpfromiso.fix_naivety(parse(i["created_at"])), "concept:name": "created", "org:resource": __get_login(i["user"]), "case:author_association": i["author_association"], "case:title": i["title"]}
                         if "pull_request" in i:
                             eve["case:pull_request"] = i["pull_request"]["url"]
                         events.append(eve)
-                        r2 = requests.get(timeline_url, headers=headers)
-                        issue_events = r2.json()
+                        issue_events = __get_timeline(timeline_url, headers)
                         issue_events.reverse()
                         for ev in issue_events:
                             if "created_at" in ev and "event" in ev and "actor" in ev:
-                                eve = {"case:owner": owner, "case:repo": owner+"/"+repo, "case:concept:name": timeline_url, "time:timestamp": strpfromiso.fix_naivety(parse(ev["created_at"])), "concept:name": ev["event"], "org:resource": ev["actor"]["login"], "case:author_association": i["author_association"], "case:title": i["title"]}
+                                eve = {"case:owner": owner, "case:repo": owner+"/"+repo, "case:concept:name": timeline_url, "time:timestamp": strpfromiso.fix_naivety(parse(ev["created_at"])), "concept:name": ev["event"], "org:resource": __get_login(ev["actor"]), "case:author_association": i["author_association"], "case:title": i["title"]}
                                 if "pull_request" in i:
                                     eve["case:pull_request"] = i["pull_request"]["url"]
                                 events.append(eve)
-- 
2.43.0


From d9e6ae441b549d1ba4e735438b7ef7bff2c34b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 41/49] fix: trace variant query Laplace raised AttributeError;
 SaCoFa published true counts without noise for repeated activities

---
 .../trace_variant_query/util/behavioralAppropriateness.py  | 7 ++++---
 .../anonymization/trace_variant_query/variants/laplace.py  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/anonymization/trace_variant_query/util/behavioralAppropriateness.py b/pm4py/algo/anonymization/trace_variant_query/util/behavioralAppropriateness.py
index 72ecdbb..425ffff 100644
--- a/pm4py/algo/anonymization/trace_variant_query/util/behavioralAppropriateness.py
+++ b/pm4py/algo/anonymization/trace_variant_query/util/behavioralAppropriateness.py
@@ -171,8 +171,9 @@ def getBAViolations(allEvents, followsRelations, precedesRelations, prefix, TRAC
 
             if precedesRelations[
                 (e1, e2)] == 'A':  # precedesRelations[(e1, e2)] == 'A' -> if e1 in trace, e2 always precedes
-                if e2 not in predecessorsDict[
-                    e1]:  # if e1 in trace and e2 does not precede right now it won't ever do -> no need to wait for TRACE_END
-                    violationsCtr += 1
+                # if e1 cannot occur again and e2 does not precede right now it won't ever do -> no need to wait for TRACE_END
+                if TRACE_END in prefix or followsRelations[(e1, e1)] == 'N':
+                    if e2 not in predecessorsDict[e1]:
+                        violationsCtr += 1
 
     return violationsCtr  # if no {always/sometimes} {follows/precedes} relation is violated, return 0
diff --git a/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py b/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
index 593177c..36f3fda 100644
--- a/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
+++ b/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
@@ -78,7 +78,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     show_progress_bar = exec_utils.get_param_value(Parameters.SHOW_PROGRESS_BAR, parameters, True)
     progress = None
-    if importlib.util.find_loader("tqdm") and show_progress_bar:
+    if importlib.util.find_spec("tqdm") and show_progress_bar:
         from tqdm.auto import tqdm
         progress = tqdm(total=k, desc="prefix tree construction, completed prefixes of length :: ")
 
-- 
2.43.0


From 9cd5edd2b78ce76178b701d6eb9a89b2b439f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 42/49] fix: token-based replay did not conserve tokens with
 arc weights, mixed traces, or depended on the memory layout; precision
 counted DataFrame rows as cases

---
 .../tokenreplay/variants/backwards.py         | 11 +++++---
 .../tokenreplay/variants/token_replay.py      | 25 +++++++++++--------
 .../precision/variants/align_etconformance.py |  6 +++--
 .../precision/variants/etconformance_token.py |  6 +++--
 pm4py/objects/petri_net/utils/petri_utils.py  | 13 +++++-----
 5 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/backwards.py b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
index 84fe0dc..5ec2449 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/backwards.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
@@ -216,7 +216,7 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
                     m, tokens_counter = execute_tr(m, t, tokens_counter)
                     visited_transitions.append(t)
                     rep_ok = True
-                    continue
+                    break
                 elif len(tmap[act]) == 1:
                     back_res = explore_backwards([(get_bmap(net, t.in_marking, bmap), copy(t.in_marking), list())],
                                                  set(), net, m, bmap)
@@ -254,10 +254,13 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
                 tokens_counter["missing"] += diff2[p]
 
     for p in fm:
-        tokens_counter["consumed"] += m[p]
+        tokens_counter["consumed"] += fm[p]
 
-    trace_fitness = 0.5 * (1.0 - float(tokens_counter["missing"]) / float(tokens_counter["consumed"])) + 0.5 * (
-            1.0 - float(tokens_counter["remaining"]) / float(tokens_counter["produced"]))
+    if tokens_counter["consumed"] > 0 and tokens_counter["produced"] > 0:
+        trace_fitness = 0.5 * (1.0 - float(tokens_counter["missing"]) / float(tokens_counter["consumed"])) + 0.5 * (
+                1.0 - float(tokens_counter["remaining"]) / float(tokens_counter["produced"]))
+    else:
+        trace_fitness = 1.0
 
     enabled_transitions_in_marking = get_visible_transitions_eventually_enabled_by_marking(net, m)
 
diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..001989d 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -93,7 +93,7 @@ def add_missing_tokens(t, marking):
         if marking[a.source] < a.weight:
             missing = missing + (a.weight - marking[a.source])
             tokens_added[a.source] = a.weight - marking[a.source]
-            marking[a.source] = marking[a.source] + a.weight
+            marking[a.source] = a.weight
     return [missing, tokens_added]
 
 
@@ -448,6 +448,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     produced = sum_tokens_im
     current_event_map = {}
     current_remaining_map = {}
+    exist_activities_not_in_model = False
     for i in range(len(trace)):
         if enable_postfix_cache and (str(trace_activities) in post_fix_caching.cache and
                                      hash(marking) in post_fix_caching.cache[str(trace_activities)]):
@@ -480,7 +481,9 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                     # change 14/10/2020: to better support duplicate transitions with this approach, we check
                     # whether in the current marking there is at least one transition corresponding to the activity
                     # key without looking at the transition map (that contains one entry per label)
-                    corr_en_t = [x for x in semantics.enabled_transitions(net, marking) if x.label == trace[i][activity_key]]
+                    # (the choice is made by name, in order not to depend on the order of the set)
+                    corr_en_t = sorted([x for x in semantics.enabled_transitions(net, marking) if x.label == trace[i][activity_key]],
+                                       key=lambda x: x.name)
                     if corr_en_t:
                         t = corr_en_t[0]
                     else:
@@ -524,14 +527,14 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                             for place in tokens_added.keys():
                                 if place in place_fitness:
                                     place_fitness[place]["underfed_traces"].add(trace)
-                                place_fitness[place]["m"] += tokens_added[place]
+                                place_fitness[place]["m"] += tokens_added[place] * trace_occurrences
                             if trace not in transition_fitness[t]["underfed_traces"]:
                                 transition_fitness[t]["underfed_traces"][trace] = list()
-                            transition_fitness[t]["underfed_traces"][trace].append(current_event_map)
+                            transition_fitness[t]["underfed_traces"][trace].append(copy(current_event_map))
                     elif enable_pltr_fitness:
                         if trace not in transition_fitness[t]["fit_traces"]:
                             transition_fitness[t]["fit_traces"][trace] = list()
-                        transition_fitness[t]["fit_traces"][trace].append(current_event_map)
+                        transition_fitness[t]["fit_traces"][trace].append(copy(current_event_map))
                     c, cmap = get_consumed_tokens(t)
                     p, pmap = get_produced_tokens(t)
                     consumed = consumed + c
@@ -558,16 +561,18 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                                     if p1 in comp and p2 in comp:
                                         place_to_delete = [place for place in list(marking.keys()) if place.name == p1]
                                         if len(place_to_delete) == 1:
+                                            deleted_tokens = marking[place_to_delete[0]]
                                             del marking[place_to_delete[0]]
                                             if not place_to_delete[0] in current_remaining_map:
                                                 current_remaining_map[place_to_delete[0]] = 0
                                             current_remaining_map[place_to_delete[0]] = current_remaining_map[
-                                                                                            place_to_delete[0]] + 1
+                                                                                            place_to_delete[0]] + deleted_tokens
                         pass
                 else:
                     if not trace[i][activity_key] in notexisting_activities_in_model:
                         notexisting_activities_in_model[trace[i][activity_key]] = {}
-                    notexisting_activities_in_model[trace[i][activity_key]][trace] = current_event_map
+                    notexisting_activities_in_model[trace[i][activity_key]][trace] = copy(current_event_map)
+                    exist_activities_not_in_model = True
             del trace_activities[0]
             if len(trace_activities) < TechnicalParameters.MAX_POSTFIX_SUFFIX_LENGTH.value:
                 activating_transition_index[str(trace_activities)] = {"index": len(act_trans),
@@ -681,11 +686,11 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
         remaining = remaining + current_remaining_map[p]
 
     if consider_remaining_in_fitness:
-        is_fit = (missing == 0) and (remaining == 0)
+        is_fit = (missing == 0) and (remaining == 0) and not diff_fin_mark_mark
     else:
         is_fit = (missing == 0)
 
-    if consider_activities_not_in_model_in_fitness and notexisting_activities_in_model:
+    if consider_activities_not_in_model_in_fitness and exist_activities_not_in_model:
         is_fit = False
 
     # separate global counts from local statistics in the case these are not enabled by the options
@@ -1019,7 +1024,7 @@ def apply_log(log, net, initial_marking, final_marking, enable_pltr_fitness=Fals
     notexisting_activities_in_model = {}
 
     trans_map = {}
-    for t in net.transitions:
+    for t in sorted(net.transitions, key=lambda x: x.name):
         trans_map[t.label] = t
 
     if pandas_utils.check_is_pandas_dataframe(log):
diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index efb2a64..749e6e6 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -125,8 +125,10 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], net: PetriNet, markin
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    # the rows of a dataframe are events: the number of cases is needed
+    n_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += n_cases * len(trans_en_ini_marking)
+    sum_ee += n_cases * len(diff)
     # end fix
 
     if sum_at > 0:
diff --git a/pm4py/algo/evaluation/precision/variants/etconformance_token.py b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
index bee67dc..f06d97d 100644
--- a/pm4py/algo/evaluation/precision/variants/etconformance_token.py
+++ b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
@@ -117,8 +117,10 @@ def apply(log: EventLog, net: PetriNet, marking: Marking, final_marking: Marking
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    # the rows of a dataframe are events: the number of cases is needed
+    n_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += n_cases * len(trans_en_ini_marking)
+    sum_ee += n_cases * len(diff)
     # end fix
 
     for i in range(len(aligned_traces)):
diff --git a/pm4py/objects/petri_net/utils/petri_utils.py b/pm4py/objects/petri_net/utils/petri_utils.py
index 7560b2f..89d290c 100644
--- a/pm4py/objects/petri_net/utils/petri_utils.py
+++ b/pm4py/objects/petri_net/utils/petri_utils.py
@@ -410,9 +410,9 @@ def get_places_shortest_path(net, place_to_populate, current_place, places_short
         return places_shortest_path
     if place_to_populate not in places_shortest_path:
         places_shortest_path[place_to_populate] = {}
-    for t in current_place.out_arcs:
+    for t in sorted(current_place.out_arcs, key=lambda x: x.target.name):
         if t.target.label is None:
-            for p2 in t.target.out_arcs:
+            for p2 in sorted(t.target.out_arcs, key=lambda x: x.target.name):
                 if p2.target not in places_shortest_path[place_to_populate] or len(actual_list) + 1 < len(
                         places_shortest_path[place_to_populate][p2.target]):
                     new_actual_list = copy(actual_list)
@@ -537,16 +537,17 @@ def get_s_components_from_petri(net, im, fm, rec_depth=0, curr_s_comp=None, visi
     something_changed = True
     while something_changed and rec_depth < max_rec_depth:
         something_changed = False
-        places_to_visit = sorted(list(set(curr_s_comp[len(visited_places):])), key=lambda x: len(x.out_arcs),
+        places_to_visit = sorted(list(set(curr_s_comp[len(visited_places):])), key=lambda x: (len(x.out_arcs), x.name),
                                  reverse=True)
         for place_to_visit in places_to_visit:
             visited_places.append(place_to_visit)
             target_trans = sorted(list(set([arc.target for arc in place_to_visit.out_arcs])),
-                                  key=lambda x: len(x.out_arcs))
+                                  key=lambda x: (len(x.out_arcs), x.name))
             for trans in target_trans:
                 visited_places_names = [x.name for x in visited_places]
-                target_trans_target = list(
-                    set([arc.target for arc in trans.out_arcs if arc.target.name not in visited_places_names]))
+                target_trans_target = sorted(
+                    set([arc.target for arc in trans.out_arcs if arc.target.name not in visited_places_names]),
+                    key=lambda x: x.name)
                 if target_trans_target:
                     something_changed = True
                     if len(target_trans_target) == 1:
-- 
2.43.0


From 334f69687ad447460c6beea31af96774dc9d093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 43/49] fix: items() of the thread-safe dictionary failed while
 another thread changed it

---
 pm4py/streaming/util/dictio/versions/thread_safe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/streaming/util/dictio/versions/thread_safe.py b/pm4py/streaming/util/dictio/versions/thread_safe.py
index c0fec9c..cbde938 100644
--- a/pm4py/streaming/util/dictio/versions/thread_safe.py
+++ b/pm4py/streaming/util/dictio/versions/thread_safe.py
@@ -42,6 +42,10 @@ class ThreadSafeDict(dict):
         with self.lock:
             return list(super(ThreadSafeDict, self).values())
 
+    def items(self):
+        with self.lock:
+            return list(super(ThreadSafeDict, self).items())
+
     def itervalues(self):
         return iter(self.values())
 
-- 
2.43.0


From e68998d50dee52fe1896105d6aa96dfd54aa9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:05 +0000
Subject: [PATCH 44/49] fix: distributions read from a PNML file kept their
 parameters as strings

---
 .../objects/random_variables/deterministic/random_variable.py | 2 +-
 pm4py/objects/random_variables/normal/random_variable.py      | 4 ++--
 pm4py/objects/random_variables/uniform/random_variable.py     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/random_variables/deterministic/random_variable.py b/pm4py/objects/random_variables/deterministic/random_variable.py
index 56478b9..0ca17bd 100644
--- a/pm4py/objects/random_variables/deterministic/random_variable.py
+++ b/pm4py/objects/random_variables/deterministic/random_variable.py
@@ -46,7 +46,7 @@ class Deterministic(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.value = distribution_parameters
+        self.value = float(distribution_parameters)
 
     def get_transition_type(self):
         """
diff --git a/pm4py/objects/random_variables/normal/random_variable.py b/pm4py/objects/random_variables/normal/random_variable.py
index 60f6097..52af9cb 100644
--- a/pm4py/objects/random_variables/normal/random_variable.py
+++ b/pm4py/objects/random_variables/normal/random_variable.py
@@ -51,8 +51,8 @@ class Normal(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.mu = distribution_parameters.split(";")[0]
-        self.sigma = distribution_parameters.split(";")[1]
+        self.mu = float(distribution_parameters.split(";")[0])
+        self.sigma = float(distribution_parameters.split(";")[1])
 
     def get_distribution_type(self):
         """
diff --git a/pm4py/objects/random_variables/uniform/random_variable.py b/pm4py/objects/random_variables/uniform/random_variable.py
index 99cb2fd..4c143fa 100644
--- a/pm4py/objects/random_variables/uniform/random_variable.py
+++ b/pm4py/objects/random_variables/uniform/random_variable.py
@@ -51,8 +51,8 @@ class Uniform(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.loc = distribution_parameters.split(";")[0]
-        self.scale = distribution_parameters.split(";")[1]
+        self.loc = float(distribution_parameters.split(";")[0])
+        self.scale = float(distribution_parameters.split(";")[1])
 
     def get_distribution_type(self):
         """
-- 
2.43.0


From 883ce53b3e67d500e0ab8624328e1fd3934d3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:05 +0000
Subject: [PATCH 45/49] fix: serialize() returned None for reset and inhibitor
 nets

---
 pm4py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index d352e1e..6f2bb28 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -239,7 +239,7 @@ def serialize(*args) -> Tuple[str, bytes]:
         buffer = BytesIO()
         args[0].to_parquet(buffer)
         return (constants.AvailableSerializations.DATAFRAME.value, buffer.getvalue())
-    elif len(args) == 3 and type(args[0]) is PetriNet:
+    elif len(args) == 3 and isinstance(args[0], PetriNet):
         from pm4py.objects.petri_net.exporter import exporter as petri_exporter
         return (constants.AvailableSerializations.PETRI_NET.value, petri_exporter.serialize(*args))
     elif type(args[0]) is ProcessTree:
-- 
2.43.0


From b85fe2fb108b3153e677048a08c81ad4293e1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:06 +0000
Subject: [PATCH 46/49] fix: write_ocel2() wrote nothing, silently, for the
 .json extension

---
 pm4py/write.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/write.py b/pm4py/write.py
index 918d2ed..9609a08 100644
--- a/pm4py/write.py
+++ b/pm4py/write.py
@@ -311,8 +311,9 @@ def write_ocel2(ocel: OCEL, file_path: str, encoding: str = constants.DEFAULT_EN
         return write_ocel2_sqlite(ocel, file_path, encoding=encoding)
     elif file_path.lower().endswith("xml") or file_path.lower().endswith("xmlocel"):
         return write_ocel2_xml(ocel, file_path, encoding=encoding)
-    elif file_path.lower().endswith("jsonocel"):
+    elif file_path.lower().endswith("json") or file_path.lower().endswith("jsonocel"):
         return write_ocel2_json(ocel, file_path, encoding=encoding)
+    raise Exception("unsupported file format")
 
 
 def write_ocel2_json(ocel: OCEL, file_path: str, encoding: str = constants.DEFAULT_ENCODING):
-- 
2.43.0


From 568e758e226dcf48de2543137f288dd2f78e1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:06 +0000
Subject: [PATCH 47/49] fix: discounted alignments without the synchronous
 product failed on every trace

---
 .../petri_net/variants/discounted_a_star.py   | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index 808c103..a0b8cd9 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -18,6 +18,7 @@ import heapq
 import time
 from pm4py import util as pm4pyutil
 from pm4py.objects import petri_net
+from pm4py.objects.petri_net.obj import PetriNet
 from pm4py.objects.log import obj as log_implementation
 from pm4py.util.xes_constants import DEFAULT_NAME_KEY
 from pm4py.objects.petri_net.utils.synchronous_product import construct, construct_cost_aware
@@ -156,7 +157,15 @@ def apply(trace, petri_net, initial_marking, final_marking, parameters=None):
         expo = exec_utils.get_param_value(Parameters.EXPONENT, parameters, None)
         if expo is None:
             expo=2
-        alignment = __search_without_synchr(petri_net, initial_marking, final_marking,trace, expo=expo)
+        activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
+        ret_tuple_as_trans_desc = exec_utils.get_param_value(Parameters.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE,
+                                                             parameters, False)
+        max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
+                                                          sys.maxsize)
+        alignment = __search_without_synchr(petri_net, initial_marking, final_marking, trace,
+                                            ret_tuple_as_trans_desc=ret_tuple_as_trans_desc,
+                                            max_align_time_trace=max_align_time_trace, expo=expo,
+                                            activity_key=activity_key)
     return alignment
 
 
@@ -409,8 +418,8 @@ def __search_with_synchr(sync_net, ini, fin, skip, ret_tuple_as_trans_desc=False
 
             heapq.heappush(open_set, tp)
 
-def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tuple_as_trans_desc=True,
-                            max_align_time_trace=sys.maxsize,expo=2):
+def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tuple_as_trans_desc=False,
+                            max_align_time_trace=sys.maxsize,expo=2, activity_key=DEFAULT_NAME_KEY):
     '''
     In this function that can be called with the following way:
             alignment.algorithm.apply(trace, net, marking, fmarking,variant=ali.VERSION_DIJKSTRA_EXPONENTIAL_HEURISTIC,
@@ -419,7 +428,7 @@ def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tupl
     Should we keep the entire trace or cut it?
     Notice that the heuristic on marking reachability is ON
     '''
-    trace = [log_trace[i]["concept:name"] for i in range(len(log_trace))]
+    trace = [log_trace[i][activity_key] for i in range(len(log_trace))]
     start_time = time.time()
     decorate_transitions_prepostset(net)
     decorate_places_preset_trans(net)
@@ -439,6 +448,10 @@ def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tupl
         else :
             return 0
 
+    def move(t, activity):
+        # describes a move as a transition of a synchronous product would do
+        return PetriNet.Transition((activity, skip if t is None else t.name), (activity, skip if t is None else t.label))
+
     trans_empty_preset = set(t for t in net.transitions if len(t.in_arcs) == 0)
 
     while not len(open_set) == 0:
@@ -484,7 +497,7 @@ def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tupl
 
             queued += 1
 
-            tp = utils.DijkstraSearchTuple(curr.g + cost, new_marking, curr, (">>",t), curr.l + 1)
+            tp = utils.DijkstraSearchTuple(curr.g + cost, new_marking, curr, move(t, skip), curr.l + 1)
 
             heapq.heappush(open_set, tp)
 
@@ -497,13 +510,13 @@ def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tupl
                 # it's a heuristic
                 continue
             queued += 1
-            tp = utils.DijkstraSearchTuple(curr.g + cost_function(utils.SKIP,curr.l,expo), new_marking, curr, (trace[current_marking[1]],">>") , curr.l + 1)
+            tp = utils.DijkstraSearchTuple(curr.g + cost_function(utils.SKIP,curr.l,expo), new_marking, curr, move(None, trace[current_marking[1]]), curr.l + 1)
 
             heapq.heappush(open_set, tp)
 
             # ------ either we try to move in both (synchronous moves)
             trans_to_visit_with_cost = [(t, cost_function(t,curr.l,expo)) for t in enabled_trans if t is not None and
-                                        str(t) == trace[current_marking[1]]]
+                                        t.label == trace[current_marking[1]]]
             for t, cost in trans_to_visit_with_cost:
                 traversed += 1
                 new_marking = (utils.add_markings(current_marking[0], t.add_marking),current_marking[1]+1)
@@ -515,7 +528,7 @@ def __search_without_synchr(net, ini, fin, log_trace, skip= utils.SKIP, ret_tupl
 
                 queued += 1
 
-                tp = utils.DijkstraSearchTuple(curr.g + cost, new_marking, curr, (trace[current_marking[1]],t), curr.l + 1)
+                tp = utils.DijkstraSearchTuple(curr.g + cost, new_marking, curr, move(t, trace[current_marking[1]]), curr.l + 1)
 
                 heapq.heappush(open_set, tp)
 
-- 
2.43.0


From 5560afdd2685d3a14fdc6edf759a0ba490b53e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:41 +0000
Subject: [PATCH 48/49] fix: ocel_e2o_lifecycle_enrichment() changed the
 relations of the OCEL it was given

The copy made by the qualification of the relations was shallow: the
qualifiers (and, on a failure, a helper column) ended up in the original.
---
 pm4py/objects/ocel/util/e2o_qualification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index fbda6be..dfc509e 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -34,6 +34,7 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
     concat_column = exec_utils.get_param_value(Parameters.CONCAT_COLUMN, parameters, "@@concat")
 
     ocel = copy(ocel)
+    ocel.relations = ocel.relations.copy()
     ocel.relations[concat_column] = ocel.relations[ocel.event_id_column] + concatener + ocel.relations[ocel.object_id_column]
     relations = ocel.relations.groupby(ocel.object_id_column)[ocel.event_id_column]
 
-- 
2.43.0


From 385ac0081140eb830ac8f932d488c00c95eb2aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:41 +0000
Subject: [PATCH 49/49] fix: the maximal decomposition depended on the order of
 a set for duplicate labels

Only one of the transitions with the same label, whichever came last out of
the set, was considered, and it was looked up by its label instead of its
name: transitions with the same label ended up in different components.
---
 pm4py/objects/petri_net/utils/decomposition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/decomposition.py b/pm4py/objects/petri_net/utils/decomposition.py
index 2b0708f..ae97e0a 100644
--- a/pm4py/objects/petri_net/utils/decomposition.py
+++ b/pm4py/objects/petri_net/utils/decomposition.py
@@ -28,16 +28,18 @@ def get_graph_components(places, inv_trans, trans_dup_label, tmap):
     for x in inv_trans:
         G.add_node(x)
     for x in trans_dup_label:
-        G.add_node(x)
+        for t in tmap[x]:
+            G.add_node(t.name)
     for x in trans_dup_label:
         i = 0
         while i < len(tmap[x]) - 1:
             j = i + 1
             while j < len(tmap[x]):
-                G.add_edge(tmap[x][i].label, tmap[x][j].label)
+                G.add_edge(tmap[x][i].name, tmap[x][j].name)
                 j = j + 1
             i = i + 1
-    all_inserted_val = set(places.values()).union(inv_trans.values()).union(trans_dup_label.values())
+    all_inserted_val = set(places.values()).union(inv_trans.values()).union(
+        t for x in trans_dup_label for t in tmap[x])
     for v1 in all_inserted_val:
         for arc in v1.out_arcs:
             v2 = arc.target
-- 
2.43.0

